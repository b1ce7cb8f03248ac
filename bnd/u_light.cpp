// Light correction against its integer formula and a model of the analysed area.
#include "core.h"
#include "tool/light_correction.h"
namespace {
uint8_t align( Rng & r ) { return r.pick<uint8_t>( { 1, 1, 2, 3, 4, 8, 16, 32 } ); }
uint32_t dim( Rng & r ) { return r.chance( 70 ) ? r.range( 1, 9 ) : r.range( 1, 60 ); }
struct Model {
    bool set = false; uint32_t w = 0, h = 0; std::vector<uint32_t> d;
    bool analyze( const Image & i )
    {
        if ( i.empty() || i.colorCount() != 1 ) return false;
        int mn = 256, mx = -1;
        for ( uint32_t y = 0; y < i.height(); ++y ) for ( uint32_t x = 0; x < i.width(); ++x ) {
            const int v = i.data()[size_t( y ) * i.rowSize() + x]; if ( v > 0 && v < mn ) mn = v; if ( v < 255 && v > mx ) mx = v; }
        if ( mn >= mx ) return false;
        set = true; w = i.width(); h = i.height(); d.clear();
        for ( uint32_t y = 0; y < h; ++y ) for ( uint32_t x = 0; x < w; ++x ) {
            const int v = i.data()[size_t( y ) * i.rowSize() + x];
            d.push_back( v > mx || v < mn ? 4194304u : uint32_t( uint64_t( v ) * 4194304u / uint64_t( mx ) ) + 1u ); }
        return true;
    }
};
Image image( Rng & r, uint32_t w, uint32_t h, uint8_t cc = 1 )
{
    Image i( w, h, cc, align( r ) ); randomise( r, i );
    const uint32_t m = r.below( 5 );
    if ( m < 3 && !i.empty() ) { const uint8_t lo = uint8_t( m == 0 ? r.range( 1, 250 ) : 1 ), hi = uint8_t( r.range( lo, 254 ) ); for ( size_t k = 0; k < size_t( i.rowSize() ) * i.height(); ++k ) i.data()[k] = uint8_t( r.chance( 2 ) ? r.pick<int>( { 0, 255 } ) : int( r.range( lo, hi ) ) ); }
    return i;
}
void history( Rng & r )
{
    LightCorrection l; Model m; uint32_t w = dim( r ), h = dim( r );
    const size_t junk = r.below( 3 ); (void)junk;
    for ( uint32_t n = r.range( 1, 7 ); n; --n ) {
        const uint32_t what = r.below( 10 );
        if ( what < 3 ) {
            if ( r.chance( 40 ) ) { w = dim( r ); h = dim( r ); }
            Image i = r.chance( 5 ) ? Image() : image( r, w, h, r.chance( 92 ) ? 1 : 3 );
            if ( r.chance( 6 ) && !i.empty() ) i.fill( r.pick<uint8_t>( { 0, 255, 7 } ) );
            note( "analyze %s; ", desc( i ).c_str() );
            const Snap<uint8_t> s( i ); const bool ok = m.analyze( i ); bool thrown = false;
            try { l.analyze( i ); } catch ( const penguinVException & ) { thrown = true; }
            CHECK( ok ? "value" : "reject", thrown == !ok, "analysis of %s image %s", ok ? "a valid" : "an invalid", thrown ? "rejected" : "accepted" );
            compareSame( "analysed image", i, s );
            if ( !ok && m.set && r.chance( 50 ) ) return; // what a rejected analysis leaves behind is checked in the other half of the cases
        }
        else if ( what < 9 ) {
            const bool same = r.chance( 50 );
            const uint32_t iw = same ? w : r.chance( 50 ) ? w + r.below( 4 ) : dim( r ), ih = same ? h : r.chance( 50 ) ? h + r.below( 4 ) : dim( r );
            Image i = r.chance( 3 ) ? Image() : image( r, iw, ih, r.chance( 95 ) ? 1 : 3 );
            uint32_t x = 0, y = 0, rw = i.width(), rh = i.height(); const bool whole = r.chance( 40 );
            if ( !whole && !i.empty() ) {
                x = r.below( i.width() ); y = r.below( i.height() ); rw = r.range( 1, i.width() - x ); rh = r.range( 1, i.height() - y );
                switch ( r.below( 30 ) ) { case 0: rw = 0; break; case 1: rh += i.height(); break; case 2: rw = 0xFFFFFFFFu - r.below( 4 ); break; case 3: x += i.width(); break; case 4: rh = 0xFFFFFFFFu - r.below( 9 ); break; }
            }
            note( "correct %s at %u,%u %ux%u; ", desc( i ).c_str(), x, y, rw, rh );
            const bool ok = m.set && !i.empty() && i.colorCount() == 1 && rw && rh && uint64_t( x ) + rw <= i.width() && uint64_t( y ) + rh <= i.height() && x + rw <= m.w && y + rh <= m.h;
            Snap<uint8_t> s( i ); bool thrown = false;
            try { if ( whole ) l.correct( i ); else l.correct( i, x, y, rw, rh ); } catch ( const penguinVException & ) { thrown = true; }
            CHECK( ok ? "value" : "reject", thrown == !ok, "correction of %s area %s", ok ? "a valid" : "an invalid", thrown ? "rejected" : "accepted" );
            if ( ok )
                for ( uint32_t b = 0; b < rh; ++b ) for ( uint32_t a = 0; a < rw; ++a ) {
                    const uint64_t d = m.d[size_t( y + b ) * m.w + x + a], v = ( uint64_t( s.at( x + a, y + b, 0 ) ) * 4194304u + d / 2 ) / d;
                    s.at( x + a, y + b, 0 ) = uint8_t( v > 255 ? 255 : v ); }
            compareImage( "corrected image", i, s, [&]( uint32_t e, uint32_t b ) { return e >= x && e - x < rw && b >= y && b - y < rh; } );
        }
        else if ( m.set ) {
            Image i = r.chance( 3 ) ? Image() : image( r, r.chance( 60 ) ? m.w : dim( r ), r.chance( 60 ) ? m.h : dim( r ), r.chance( 95 ) ? 1 : 3 );
            note( "incorrect pixels of %s; ", desc( i ).c_str() );
            const bool ok = !i.empty() && i.colorCount() == 1 && i.width() >= m.w && i.height() >= m.h; bool thrown = false; std::vector<PointBase2D<uint32_t>> p;
            try { p = l.findIncorrectPixels( i ); } catch ( const penguinVException & ) { thrown = true; }
            CHECK( ok ? "value" : "reject", thrown == !ok, "%s image %s", ok ? "a valid" : "an invalid", thrown ? "rejected" : "accepted" );
            if ( !ok ) continue;
            size_t k = 0;
            for ( uint32_t y = 0; y < m.h; ++y ) for ( uint32_t x = 0; x < m.w; ++x ) {
                const uint8_t v = i.data()[size_t( y ) * i.rowSize() + x];
                if ( v == 0 || v == 255 ) { CHECK( "value", k < p.size() && p[k].x == x && p[k].y == y, "point (%u,%u) of value %u is not reported in order", x, y, v ); ++k; } }
            CHECK( "value", k == p.size(), "%zu points reported, %zu exist", p.size(), k );
        }
    }
}
const Reg a1( "light.history", 8000, history );
}
