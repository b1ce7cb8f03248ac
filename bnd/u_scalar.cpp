#include "ops.h"
#include "image_function.h"
#define NS Image_Function
#define BEFORE
#define HAS_COPY
#define HAS_RGBA
#define HAS_16
#define HAS_ACC
#define HAS_PIXEL
#define HAS_MASK
#include "impl.inc"
static const int reg = ( regAll( "scalar", []( Rng & ) {}, 900 ), 0 );
