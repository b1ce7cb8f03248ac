#include "ops.h"
#include "penguinv/penguinv.h"
#define NS penguinV
#define BEFORE
#define HAS_COPY
#define HAS_ACC
#define HAS_PIXEL
#include "impl.inc"
static const int reg = ( regAll( "front", []( Rng & ) {}, 450 ), 0 );
