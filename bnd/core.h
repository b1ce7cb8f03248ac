// Bounded execution of the real code: shared pieces (case generation, snapshots, failure report).
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "image_buffer.h"
#include "penguinv_exception.h"

struct Rng {
    uint64_t s;
    explicit Rng( uint64_t seed ) : s( seed * 0x9E3779B97F4A7C15ull + 0x1234567ull ) { for ( int i = 0; i < 4; ++i ) u64(); }
    uint64_t u64() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull; z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull; return z ^ ( z >> 31 ); }
    uint32_t below( uint32_t n ) { return n ? static_cast<uint32_t>( u64() % n ) : 0; }
    uint32_t range( uint32_t a, uint32_t b ) { return a + below( b - a + 1 ); }
    bool chance( uint32_t pct ) { return below( 100 ) < pct; }
    template <typename T> T pick( std::initializer_list<T> l ) { return *( l.begin() + below( static_cast<uint32_t>( l.size() ) ) ); }
};

// kind: value | frame | memory | reject | overload | other ; "memory" normally comes from the sanitizer
struct Fail { std::string kind, msg; };
inline std::string fmt( const char * f, ... ) { char b[2048]; va_list v; va_start( v, f ); vsnprintf( b, sizeof b, f, v ); va_end( v ); return b; }
#define FAILK( kind, ... ) throw Fail{ kind, fmt( __VA_ARGS__ ) }
#define CHECK( kind, cond, ... ) do { if ( !( cond ) ) FAILK( kind, __VA_ARGS__ ); } while ( 0 )

struct Unit { std::string name; int cases; std::function<void( Rng & )> run; };
std::vector<Unit> & units();
void note( const char * f, ... ); // description of the running case, kept for the report
struct Reg { Reg( const std::string & n, int cases, std::function<void( Rng & )> f ) { units().push_back( { n, cases, f } ); } };

using penguinV::Image;
using penguinV::Image16Bit;

template <typename T> struct Snap {
    std::vector<T> b; uint32_t w, h, rs; uint8_t cc, al; const T * p;
    Snap() : w( 0 ), h( 0 ), rs( 0 ), cc( 0 ), al( 0 ), p( nullptr ) {}
    explicit Snap( const penguinV::ImageTemplate<T> & i ) : w( i.width() ), h( i.height() ), rs( i.rowSize() ), cc( i.colorCount() ), al( i.alignment() ), p( i.data() )
    { if ( p ) b.assign( p, p + size_t( rs ) * h ); }
    bool sameHeader( const penguinV::ImageTemplate<T> & i ) const
    { return w == i.width() && h == i.height() && rs == i.rowSize() && cc == i.colorCount() && al == i.alignment() && p == i.data(); }
    T & at( uint32_t x, uint32_t y, uint32_t c ) { return b[size_t( y ) * rs + size_t( x ) * cc + c]; }
    T at( uint32_t x, uint32_t y, uint32_t c ) const { return b[size_t( y ) * rs + size_t( x ) * cc + c]; }
};
template <typename T> void randomise( Rng & r, penguinV::ImageTemplate<T> & i )
{
    const size_t n = size_t( i.rowSize() ) * i.height();
    const uint32_t mode = r.below( 8 );
    T * p = i.data();
    const T mx = static_cast<T>( ~T( 0 ) );
    const T k = static_cast<T>( r.u64() );
    for ( size_t j = 0; j < n; ++j ) {
        switch ( mode ) {
        case 0: p[j] = r.chance( 50 ) ? mx : T( 0 ); break;
        case 1: p[j] = r.chance( 50 ) ? k : static_cast<T>( k + r.below( 3 ) ); break;
        case 2: p[j] = static_cast<T>( 255 - r.below( 3 ) ); break;
        case 3: p[j] = static_cast<T>( r.below( 4 ) ); break;
        default: p[j] = static_cast<T>( r.u64() );
        }
    }
}
template <typename T> std::string desc( const penguinV::ImageTemplate<T> & i )
{ return fmt( "[%ux%u cc%u al%u row%u%s]", i.width(), i.height(), i.colorCount(), i.alignment(), i.rowSize(), i.empty() ? " empty" : "" ); }

// exact comparison of an image with what it must hold now; mask tells the output region
template <typename T, typename F> void compareImage( const char * who, const penguinV::ImageTemplate<T> & img, const Snap<T> & exp, F inRegion )
{
    if ( !exp.sameHeader( img ) ) FAILK( "frame", "%s: image header changed to %s", who, desc( img ).c_str() );
    if ( exp.b.empty() || memcmp( exp.b.data(), img.data(), exp.b.size() * sizeof( T ) ) == 0 ) return;
    std::string frame;
    for ( uint32_t y = 0; y < exp.h; ++y )
        for ( uint32_t x = 0; x < exp.rs; ++x ) {
            const T e = exp.b[size_t( y ) * exp.rs + x], g = img.data()[size_t( y ) * exp.rs + x];
            if ( e == g ) continue;
            if ( inRegion( x, y ) ) FAILK( "value", "%s: row %u element %u is %u, expected %u", who, y, x, unsigned( g ), unsigned( e ) );
            if ( frame.empty() ) frame = fmt( "%s: row %u element %u outside the output region changed from %u to %u", who, y, x, unsigned( e ), unsigned( g ) );
        }
    throw Fail{ "frame", frame };
}
template <typename T> void compareSame( const char * who, const penguinV::ImageTemplate<T> & img, const Snap<T> & s )
{ compareImage( who, img, s, []( uint32_t, uint32_t ) { return false; } ); }
