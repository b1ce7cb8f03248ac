// Memory allocator against a ghost model of live blocks.
#include "core.h"
#include "newcount.h"
#include "memory/cpu_memory.h"
#include <set>
namespace {
struct Block { uint8_t * p; size_t n, off; int level; uint8_t pat; bool in; int es; };
int levelOf( size_t n ) { int l = 0; while ( ( size_t( 1 ) << l ) < n ) ++l; return l; }
struct Sim {
    cpu_Memory::MemoryAllocator a; size_t size = 0; uint8_t * raw = nullptr; uint8_t * base = nullptr; std::vector<Block> live;
    long arrays = liveArrays;
    std::vector<std::pair<size_t, int>> chunks() const // the reserved memory is handed out in aligned power-of-two chunks
    { std::vector<std::pair<size_t, int>> c; size_t o = 0; for ( int b = 62; b >= 0; --b ) if ( size >> b & 1 ) { c.push_back( { o, b } ); o += size_t( 1 ) << b; } return c; }
    bool available( int level ) const
    {
        const size_t s = size_t( 1 ) << level;
        for ( auto & c : chunks() )
            if ( c.second >= level )
                for ( size_t o = c.first; o < c.first + ( size_t( 1 ) << c.second ); o += s ) {
                    bool free = true;
                    for ( auto & b : live ) if ( b.in && b.off < o + s && o < b.off + ( size_t( 1 ) << b.level ) ) { free = false; break; }
                    if ( free ) return true;
                }
        return false;
    }
    void reserve( size_t n )
    {
        note( "reserve %zu; ", n );
        bool usedIn = false; for ( auto & b : live ) usedIn |= b.in;
        const bool invalid = n == 0 || ( n != size && usedIn );
        bool thrown = false;
        try { a.reserve( n ); } catch ( const std::logic_error & ) { thrown = true; }
        CHECK( "value", thrown == invalid, "reserve(%zu) %s", n, thrown ? "rejected" : "accepted although blocks are in use" );
        if ( thrown || n == size ) return;
        size = n; CHECK( "value", lastArraySize >= n, "reserve(%zu) obtained %zu bytes", n, lastArraySize );
        raw = static_cast<uint8_t *>( lastArray ); base = nullptr; memset( raw, 0, n );
    }
    template <typename T> void allocate( Rng & r, size_t n )
    {
        note( "allocate %zux%zu; ", n, sizeof( T ) );
        const size_t bytes = n * sizeof( T ); const int level = levelOf( bytes );
        const bool must = size && bytes < size && available( level );
        const long before = liveArrays;
        uint8_t * p = reinterpret_cast<uint8_t *>( a.template allocate<T>( n ) );
        const bool in = liveArrays == before;
        CHECK( "value", p != nullptr || bytes == 0, "null block" );
        if ( must ) CHECK( "value", in, "%zu bytes are free for a block of %zu bytes but heap memory was used", size_t( 1 ) << level, bytes );
        if ( in ) {
            CHECK( "value", size && p >= raw && p + bytes <= raw + lastOf(), "block of %zu bytes outside the reserved memory", bytes );
            if ( !base ) { size_t mis = reinterpret_cast<uintptr_t>( raw ) % 32; base = raw + ( mis ? 32 - mis : 0 ); }
            const size_t off = size_t( p - base );
            CHECK( "value", p >= base && off % ( size_t( 1 ) << level ) == 0, "block of %zu bytes at offset %zd is not aligned to its size class %zu", bytes, p - base, size_t( 1 ) << level );
            CHECK( "value", off + bytes <= size, "block [%zu,%zu) beyond the reserved %zu bytes", off, off + bytes, size );
        }
        CHECK( "value", !bytes || reinterpret_cast<uintptr_t>( p ) % alignof( T ) == 0, "block not aligned for its type" );
        for ( auto & b : live ) CHECK( "value", p + bytes <= b.p || b.p + b.n <= p || !bytes || !b.n, "new block overlaps a live one" );
        Block b{ p, bytes, in ? size_t( p - base ) : 0, level, uint8_t( r.u64() ), in, int( sizeof( T ) ) };
        if ( bytes <= 1u << 20 ) memset( p, b.pat, bytes ); else { p[0] = b.pat; p[bytes - 1] = b.pat; }
        live.push_back( b );
    }
    size_t lastOf() const { return size + 32; }
    void check( const Block & b, const char * when ) const
    {
        const size_t step = b.n <= 1u << 20 ? 1 : b.n - 1;
        for ( size_t i = 0; i < b.n; i += step ) CHECK( "value", b.p[i] == b.pat, "block contents changed %s", when );
    }
    void release( size_t k )
    {
        Block b = live[k]; note( "free %zu; ", b.n ); check( b, "before free" );
        const long before = liveArrays;
        if ( b.es == 1 ) a.free( b.p ); else if ( b.es == 2 ) a.free( reinterpret_cast<uint16_t *>( b.p ) ); else a.free( reinterpret_cast<uint64_t *>( b.p ) );
        CHECK( "value", liveArrays == before - ( b.in ? 0 : 1 ), "free of a %s block changed the number of heap blocks by %ld", b.in ? "reserved" : "heap", liveArrays - before );
        live.erase( live.begin() + long( k ) );
    }
};
size_t size( Rng & r, size_t cap )
{
    switch ( r.below( 6 ) ) {
    case 0: return r.range( 1, 9 );
    case 1: return ( size_t( 1 ) << r.below( 14 ) ) + r.below( 3 ) - 1 + ( r.chance( 50 ) ? 1 : 0 );
    case 2: return cap ? cap / r.range( 1, 5 ) + r.below( 3 ) : 1;
    case 3: return cap ? cap + r.below( 3 ) : 5;
    default: return r.range( 1, 300 );
    }
}
void sequence( Rng & r )
{
    Sim s; const uint32_t n = r.range( 3, 60 );
    const uint32_t pf = r.range( 20, 60 );
    if ( r.chance( 85 ) ) s.reserve( r.chance( 30 ) ? size_t( 1 ) << r.below( 14 ) : r.range( 1, 9000 ) );
    for ( uint32_t k = 0; k < n; ++k ) {
        const uint32_t c = r.below( 100 );
        if ( c < 4 ) s.reserve( r.chance( 20 ) ? 0 : r.chance( 20 ) ? s.size : r.range( 1, 5000 ) );
        else if ( c < 4 + pf && !s.live.empty() ) s.release( r.below( uint32_t( s.live.size() ) ) );
        else {
            const size_t b = size( r, s.size );
            switch ( r.below( 4 ) ) { case 0: s.allocate<uint16_t>( r, ( b + 1 ) / 2 ); break; case 1: s.allocate<uint64_t>( r, ( b + 7 ) / 8 ); break; default: s.allocate<uint8_t>( r, b ); }
        }
        if ( r.chance( 15 ) ) for ( auto & b : s.live ) s.check( b, "while live" );
    }
    while ( !s.live.empty() ) s.release( r.below( uint32_t( s.live.size() ) ) );
    if ( s.size > 1 ) { const size_t big = size_t( 1 ) << ( 63 - __builtin_clzll( s.size - 1 ) ); s.allocate<uint8_t>( r, big < s.size ? big : s.size - 1 ); s.release( 0 ); }
}
void exhaust( Rng & r )   // fill the reserve with equal blocks, free in random order, repeat
{
    Sim s; s.reserve( r.range( 2, 2000 ) );
    for ( int k = 0; k < 3; ++k ) {
        const size_t b = size_t( 1 ) << r.below( 6 );
        const size_t fit = s.size / b;
        for ( size_t i = 0; i < fit && i < 200; ++i ) s.allocate<uint8_t>( r, b - ( b > 1 ? r.below( uint32_t( b / 2 ) ) : 0 ) );
        while ( s.live.size() > r.below( 6 ) ) s.release( r.below( uint32_t( s.live.size() ) ) );
    }
    while ( !s.live.empty() ) s.release( s.live.size() - 1 );
}
const Reg a1( "alloc.sequence1", 1500, sequence ), a2( "alloc.sequence2", 1500, sequence ), a3( "alloc.sequence3", 1500, sequence ), a4( "alloc.sequence4", 1500, sequence ), a5( "alloc.exhaust1", 800, exhaust ), a6( "alloc.exhaust2", 800, exhaust );
}
