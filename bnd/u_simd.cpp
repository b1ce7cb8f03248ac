#include "ops.h"
#include "image_function_simd.h"
#include "image_function_helper.h"
#include "penguinv/cpu_identification.h"
#define NS Image_Function_Simd
#define BEFORE
#define IS_SIMD
#define HAS_16
#define HAS_ACC
#include "impl.inc"
static int setup()
{
    auto use = []( int k ) { return [k]( Rng & ) { simd::EnableSimd( false ); if ( k == 1 ) simd::EnableSse( true ); if ( k == 2 ) simd::EnableAvx( true ); if ( k == 3 ) simd::EnableAvx512( true ); }; };
    regAll( "simd-none", use( 0 ), 150 );
    if ( SimdInfo::isSseAvailable() ) regAll( "simd-sse", use( 1 ), 900 );
    if ( SimdInfo::isAvxAvailable() ) regAll( "simd-avx", use( 2 ), 900 );
    if ( SimdInfo::isAVX512SKLAvailable() ) regAll( "simd-avx512", use( 3 ), 900 );
    return 0;
}
static const int reg = setup();
