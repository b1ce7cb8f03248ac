// Median, Prewitt and Sobel against their definitions.
#include "core.h"
#include "filtering.h"
#include <algorithm>
#include <cmath>
namespace {
struct Case { Image in, out; uint32_t xi = 0, yi = 0, xo = 0, yo = 0, w = 0, h = 0; bool ok = true; };
uint8_t align( Rng & r ) { return r.pick<uint8_t>( { 1, 1, 2, 3, 4, 8, 16, 32 } ); }
uint32_t dim( Rng & r ) { return r.chance( 70 ) ? r.range( 1, 9 ) : r.range( 3, 40 ); }
bool regionOk( const Image & i, uint32_t x, uint32_t y, uint32_t w, uint32_t h )
{ return !i.empty() && i.colorCount() == 1 && w && h && uint64_t( x ) + w <= i.width() && uint64_t( y ) + h <= i.height(); }
Case make( Rng & r, int form )
{
    Case c; const bool whole = form == 1 || form == 2, ret = form == 1 || form == 3;
    c.w = dim( r ); c.h = dim( r ); if ( r.chance( 3 ) ) c.w = r.range( 40, 400 );
    const int bad = r.chance( 20 ) ? int( r.range( 1, 7 ) ) : 0;
    auto img = [&]( uint32_t & x, uint32_t & y ) {
        const uint32_t l = whole ? 0 : r.below( 4 ), t = whole ? 0 : r.below( 4 ), rr = whole ? 0 : r.below( 4 ), bb = whole ? 0 : r.below( 4 );
        x = l; y = t; Image i( c.w + l + rr, c.h + t + bb, 1, align( r ) ); randomise( r, i ); return i;
    };
    c.in = img( c.xi, c.yi ); c.out = img( c.xo, c.yo );
    if ( bad == 1 ) c.in = Image(); else if ( bad == 2 && !ret ) c.out = Image();
    else if ( bad == 3 ) { c.in = Image( c.in.width(), c.in.height(), r.chance( 50 ) ? 3 : 4 ); randomise( r, c.in ); }
    else if ( bad == 4 && !ret ) { c.out = Image( c.out.width(), c.out.height(), 3 ); randomise( r, c.out ); }
    else if ( bad == 5 ) { if ( whole ) { c.out = Image( c.w + r.below( 2 ), c.h + 1 ); randomise( r, c.out ); } else c.xi += r.range( 1, 5 ); }
    else if ( bad == 6 && !whole ) { if ( r.chance( 50 ) ) c.yo += r.range( 1, 6 ); else c.w = 0xFFFFFFFFu - r.below( 5 ); }
    else if ( bad == 7 && !whole ) { if ( r.chance( 50 ) ) c.h = 0; else c.h = 0xFFFFFFFFu - r.below( 5 ); }
    if ( whole ) { c.w = c.in.width(); c.h = c.in.height(); }
    c.ok = regionOk( c.in, c.xi, c.yi, c.w, c.h ) && ( ret || ( regionOk( c.out, c.xo, c.yo, c.w, c.h ) && ( !whole || ( c.out.width() == c.w && c.out.height() == c.h ) ) ) );
    return c;
}
// min: smallest value accepted, max: largest
template <typename Call, typename Spec> void run( Rng & r, int form, const char * name, bool extraOk, Case & c, Call call, Spec spec )
{
    const bool ret = form == 1 || form == 3;
    note( "%s form %d in %s at %u,%u out %s at %u,%u size %ux%u; ", name, form, desc( c.in ).c_str(), c.xi, c.yi, desc( c.out ).c_str(), c.xo, c.yo, c.w, c.h );
    const Snap<uint8_t> si( c.in ); Snap<uint8_t> so( c.out ); Image res; bool thrown = false;
    try { res = call(); } catch ( const penguinVException & ) { thrown = true; }
    if ( !( c.ok && extraOk ) ) {
        CHECK( "reject", thrown, "invalid parameters accepted" ); compareSame( "input", c.in, si ); if ( !ret ) compareSame( "output", c.out, so ); return;
    }
    CHECK( "value", !thrown, "valid parameters rejected" );
    compareSame( "input", c.in, si );
    const Image & out = ret ? res : c.out;
    if ( ret ) { CHECK( "value", res.width() == c.w && res.height() == c.h && res.colorCount() == 1, "returned image %s", desc( res ).c_str() ); so = Snap<uint8_t>( res ); c.xo = c.yo = 0; }
    for ( uint32_t y = 0; y < c.h; ++y )
        for ( uint32_t x = 0; x < c.w; ++x ) {
            double lo, hi; spec( si, x, y, lo, hi );
            const uint8_t g = out.data()[size_t( c.yo + y ) * out.rowSize() + c.xo + x];
            CHECK( "value", g >= lo && g <= hi, "pixel (%u,%u) of the region is %u, expected %.3f..%.3f", x, y, g, lo, hi );
            so.at( c.xo + x, c.yo + y, 0 ) = g;
        }
    compareSame( "output", out, so );
}
#define FORMS( F, ... ) \
    switch ( form ) { \
    case 1: return Image_Function::F( c.in __VA_ARGS__ ); \
    case 2: Image_Function::F( c.in, c.out __VA_ARGS__ ); return Image(); \
    case 3: return Image_Function::F( c.in, c.xi, c.yi, c.w, c.h __VA_ARGS__ ); \
    default: Image_Function::F( c.in, c.xi, c.yi, c.out, c.xo, c.yo, c.w, c.h __VA_ARGS__ ); return Image(); }
#define CM ,
void median( Rng & r, int form )
{
    Case c = make( r, form );
    const uint32_t k = r.chance( 80 ) ? r.pick<uint32_t>( { 3, 3, 5, 7, 9, 11 } ) : r.chance( 70 ) ? r.range( 0, 20 ) : r.chance( 50 ) ? std::min( c.w, 9000u ) : 0xFFFFFFFFu - r.below( 3 );
    note( "kernel %u ", k );
    const bool extra = k >= 3 && k % 2 == 1 && k < c.w && k < c.h;
    run( r, form, "Median", extra, c, [&]() -> Image { FORMS( Median, CM k ) }, [&]( const Snap<uint8_t> & s, uint32_t x, uint32_t y, double & lo, double & hi ) {
        const uint32_t d = k / 2;
        if ( x < d || y < d || x + d >= c.w || y + d >= c.h ) { lo = hi = s.at( c.xi + x, c.yi + y, 0 ); return; }
        std::vector<uint8_t> v;
        for ( uint32_t b = y - d; b <= y + d; ++b ) for ( uint32_t a = x - d; a <= x + d; ++a ) v.push_back( s.at( c.xi + a, c.yi + b, 0 ) );
        std::sort( v.begin(), v.end() ); lo = hi = v[v.size() / 2];
    } );
}
void gradient( Rng & r, int form, bool sobel )
{
    Case c = make( r, form );
    auto spec = [&]( const Snap<uint8_t> & s, uint32_t x, uint32_t y, double & lo, double & hi ) {
        const int64_t X = int64_t( c.xi ) + x, Y = int64_t( c.yi ) + y;
        if ( X < 1 || Y < 1 || X + 1 >= s.w || Y + 1 >= s.h ) { lo = hi = 0; return; }
        auto p = [&]( int dx, int dy ) { return double( s.at( uint32_t( X + dx ), uint32_t( Y + dy ), 0 ) ); };
        const double k = sobel ? 2 : 1;
        const double gx = p( -1, -1 ) + k * p( -1, 0 ) + p( -1, 1 ) - p( 1, -1 ) - k * p( 1, 0 ) - p( 1, 1 ), gy = p( -1, -1 ) + k * p( 0, -1 ) + p( 1, -1 ) - p( -1, 1 ) - k * p( 0, 1 ) - p( 1, 1 );
        const double v = std::sqrt( gx * gx + gy * gy ) / ( ( sobel ? 4 : 3 ) * std::sqrt( 2.0 ) );
        lo = v - 0.501; hi = v + 0.501;
    };
    const bool extra = c.w >= 3 && c.h >= 3;
    if ( sobel ) run( r, form, "Sobel", extra, c, [&]() -> Image { FORMS( Sobel, ) }, spec );
    else run( r, form, "Prewitt", extra, c, [&]() -> Image { FORMS( Prewitt, ) }, spec );
}
// every pair of gradients: the images [0 | a] make all values of gx and gy reachable one by one
void extremes( Rng & r )
{
    Image in( 3, 3 ), out( 3, 3 ); const uint8_t a = uint8_t( r.u64() ), b = uint8_t( r.u64() );
    for ( int y = 0; y < 3; ++y ) for ( int x = 0; x < 3; ++x ) in.data()[y * in.rowSize() + x] = r.pick<uint8_t>( { 0, 255, 255, a, b } );
    for ( int s = 0; s < 2; ++s ) {
        if ( s ) Image_Function::Sobel( in, out ); else Image_Function::Prewitt( in, out );
        auto p = [&]( int x, int y ) { return double( in.data()[y * in.rowSize() + x] ); };
        const double k = s ? 2 : 1;
        const double gx = p( 0, 0 ) + k * p( 0, 1 ) + p( 0, 2 ) - p( 2, 0 ) - k * p( 2, 1 ) - p( 2, 2 ), gy = p( 0, 0 ) + k * p( 1, 0 ) + p( 2, 0 ) - p( 0, 2 ) - k * p( 1, 2 ) - p( 2, 2 );
        const double v = std::sqrt( gx * gx + gy * gy ) / ( ( s ? 4 : 3 ) * std::sqrt( 2.0 ) ), g = out.data()[out.rowSize() + 1];
        CHECK( "value", g >= v - 0.501 && g <= v + 0.501, "%s of gradients %.0f,%.0f is %.0f, expected %.3f", s ? "Sobel" : "Prewitt", gx, gy, g, v );
    }
}
int regAll()
{
    for ( int f = 1; f <= 4; ++f ) {
        new Reg( fmt( "filter.Median.%d", f ), 500, [f]( Rng & r ) { median( r, f ); } );
        new Reg( fmt( "filter.Sobel.%d", f ), 500, [f]( Rng & r ) { gradient( r, f, true ); } );
        new Reg( fmt( "filter.Prewitt.%d", f ), 500, [f]( Rng & r ) { gradient( r, f, false ); } );
    }
    new Reg( "filter.extremes", 4000, extremes );
    return 0;
}
const int reg = regAll();
}
