#include "ops.h"
#include "function_pool.h"
#include "thread_pool.h"
#define NS Function_Pool
#define BEFORE
#include "impl.inc"
static const int reg = ( tallBias = 15, regAll( "pool", []( Rng & r ) {
    const uint32_t n = r.chance( 90 ) ? 0 : r.chance( 50 ) ? r.range( 1, 9 ) : r.range( 10, 40 );
    if ( n || ThreadPoolMonoid::instance().threadCount() == 0 ) ThreadPoolMonoid::instance().resize( n ? static_cast<uint8_t>( n ) : 4 );
    note( "threads=%zu ", ThreadPoolMonoid::instance().threadCount() );
}, 300 ), 0 );
