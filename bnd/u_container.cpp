// Image objects against a ghost model: size, stride, ownership and contents after any sequence of calls.
#include "core.h"
#include "newcount.h"
namespace {
template <typename T> struct Model {
    bool empty = true; uint32_t w = 0, h = 0, cc = 1, al = 1, rs = 0; uint8_t type = 0; bool known = false; std::vector<T> px; const T * data = nullptr;
};
template <typename T> struct Sub : penguinV::ImageTemplate<T> { explicit Sub( uint8_t t ) { this->_setType( t ); } };
uint64_t rowOf( uint64_t w, uint32_t cc, uint32_t al ) { return ( w * cc + al - 1 ) / al * al; }
template <typename T> struct Sim {
    using Im = penguinV::ImageTemplate<T>;
    struct Item { std::unique_ptr<Im> i; Model<T> m; };
    std::vector<Item> v; long arrays = liveArrays; Rng & r;
    explicit Sim( Rng & r_ ) : r( r_ ) {}
    void sync( Item & t ) { t.m.data = t.i->data(); } // after a call that may give new storage
    void check( const char * op )
    {
        long owned = 0;
        for ( size_t k = 0; k < v.size(); ++k ) {
            Im & i = *v[k].i; Model<T> & m = v[k].m; const Im & ci = i;
            CHECK( "value", i.empty() == m.empty && ( i.data() == nullptr ) == m.empty && ci.data() == i.data(), "after %s: image %zu is %sempty", op, k, i.empty() ? "" : "not " );
            CHECK( "value", i.width() == m.w && i.height() == m.h && i.colorCount() == m.cc && i.alignment() == m.al && i.rowSize() == m.rs && i.type() == m.type,
                   "after %s: image %zu is %s type %u, expected [%ux%u cc%u al%u row%u] type %u", op, k, desc( i ).c_str(), i.type(), m.w, m.h, m.cc, m.al, m.rs, m.type );
            if ( !m.empty ) {
                ++owned;
                CHECK( "value", i.data() == m.data, "after %s: storage of image %zu changed", op, k );
                if ( m.known ) CHECK( "value", !memcmp( i.data(), m.px.data(), m.px.size() * sizeof( T ) ), "after %s: pixels of image %zu changed", op, k );
                else { // every element is usable
                    T * d = i.data(); const size_t n = size_t( m.rs ) * m.h; m.px.resize( n );
                    for ( size_t q = 0; q < n; ++q ) d[q] = m.px[q] = static_cast<T>( r.u64() );
                    m.known = true;
                }
                for ( size_t j = 0; j < k; ++j ) CHECK( "value", v[j].m.empty || v[j].i->data() != i.data(), "after %s: images %zu and %zu share storage", op, j, k );
            }
        }
        CHECK( "value", liveArrays == arrays + owned, "after %s: %ld buffers are alive for %ld non-empty images", op, liveArrays - arrays, owned );
    }
    void blank( Model<T> & m ) { m.empty = true; m.w = m.h = m.rs = 0; m.known = false; m.px.clear(); m.data = nullptr; }
    bool setSize( Model<T> & m, uint32_t w, uint32_t h )   // false: must throw
    {
        if ( !w || !h || ( w == m.w && h == m.h ) ) return true;
        if ( uint64_t( w ) * m.cc + m.al > 0xFFFFFFFFu ) return false;
        blank( m ); m.empty = false; m.w = w; m.h = h; m.rs = uint32_t( rowOf( w, m.cc, m.al ) ); return true;
    }
    uint32_t dim() { return r.pick<uint32_t>( { 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31, 33 } ); }
    uint32_t wdim() { return r.chance( 3 ) ? r.pick<uint32_t>( { 0xFFFFFFFFu, 0x80000000u, 0x55555556u, 0x40000000u, 0xFFFFFF00u } ) : dim(); }
    uint8_t col() { return r.pick<uint8_t>( { 0, 1, 1, 1, 2, 3, 3, 4, 4, 5, 255 } ); }
    uint8_t ali() { return r.pick<uint8_t>( { 0, 1, 1, 1, 2, 3, 4, 8, 16, 32, 64, 255 } ); }
    void step()
    {
        const size_t k = r.below( uint32_t( v.size() ) ), j = r.below( uint32_t( v.size() ) );
        Im & i = *v[k].i; Model<T> & m = v[k].m; Im & o = *v[j].i; Model<T> & n = v[j].m;
        const char * op = ""; bool thrown = false, expectThrow = false;
        auto attempt = [&]( auto f ) { try { f(); } catch ( const penguinVException & ) { thrown = true; } };
        switch ( r.below( 18 ) ) {
        case 0: { op = "resize"; uint32_t w = wdim(), h = dim(); if ( uint64_t( w ) > 1000 && !h ) h = 1; note( "%zu.resize(%u,%u); ", k, w, h ); if ( w > 1000 && uint64_t( w ) * m.cc + m.al <= 0xFFFFFFFFu ) return;
                  expectThrow = !setSize( m, w, h ); attempt( [&] { i.resize( w, h ); } ); break; }
        case 1: op = "clear"; note( "%zu.clear; ", k ); i.clear(); blank( m ); break;
        case 2: { op = "assign"; uint32_t w = wdim(), h = dim(); uint8_t c = col(), a = ali(); note( "%zu.assign(%u,%u,%u,%u); ", k, w, h, c, a );
                  const bool bad = !w || !h || !c || !a || uint64_t( w ) * c + a > 0xFFFFFFFFu; const bool null = r.chance( 8 );
                  if ( w > 1000 && !bad ) return;
                  T * d = null ? nullptr : new T[bad ? 1 : rowOf( w, c, a ) * h]; expectThrow = bad || null;
                  attempt( [&] { i.assign( d, w, h, c, a ); } );
                  if ( expectThrow ) delete[] d; else { blank( m ); m.empty = false; m.w = w; m.h = h; m.cc = c; m.al = a; m.rs = uint32_t( rowOf( w, c, a ) ); CHECK( "value", i.data() == d, "assign does not use the given data" ); }
                  break; }
        case 3: { op = "mutate"; uint32_t w, h; uint8_t c = col(), a = ali();
                  if ( r.chance( 60 ) && !m.empty ) { w = r.chance( 50 ) ? m.w * m.cc : m.h; h = r.chance( 50 ) ? m.h : m.w; c = r.pick<uint8_t>( { 1, 1, 3, 4 } ); a = r.pick<uint8_t>( { 1, 1, 2, 4 } ); if ( r.chance( 50 ) && c ) w = m.rs / c; if ( r.chance( 20 ) ) { w = m.rs * m.h; h = 1; c = 1; a = 1; } }
                  else { w = wdim(); h = dim(); }
                  note( "%zu.mutate(%u,%u,%u,%u); ", k, w, h, c, a );
                  const bool can = c && a && uint64_t( w ) * c + a <= 0xFFFFFFFFu && rowOf( w, c, a ) * h == uint64_t( m.rs ) * m.h;
                  const bool got = i.mutate( w, h, c, a );
                  CHECK( "value", got == can, "mutate of %zu elements to %ux%u cc%u al%u returned %d", size_t( m.rs ) * m.h, w, h, c, a, got );
                  if ( can ) { m.w = w; m.h = h; m.cc = c; m.al = a; m.rs = uint32_t( rowOf( w, c, a ) ); }
                  break; }
        case 4: op = "copy construction"; note( "%zu=Image(%zu); ", k, j ); if ( k == j ) return; { std::unique_ptr<Im> q( new Im( static_cast<const Im &>( o ) ) ); v[k].i = std::move( q ); m = n; } break;
        case 5: op = "copy assignment"; note( "%zu=%zu; ", k, j ); expectThrow = k != j && m.type != n.type; attempt( [&] { i = static_cast<const Im &>( o ); } ); if ( !expectThrow && k != j ) m = n; break;
        case 6: op = "copy"; note( "%zu.copy(%zu); ", k, j ); expectThrow = k != j && m.type != n.type; attempt( [&] { i.copy( o ); } ); if ( !expectThrow && k != j ) m = n; break;
        case 7: { op = "move construction"; note( "%zu=Image(move %zu); ", k, j ); if ( k == j ) return; std::unique_ptr<Im> q( new Im( std::move( o ) ) ); v[k].i = std::move( q ); m = n;
                  CHECK( "value", m.empty || v[k].i->data() == m.data, "move construction copied the pixels" );
                  adopt( v[j] ); break; }
        case 8: op = "move assignment"; note( "%zu=move %zu; ", k, j ); if ( k == j ) return; { Model<T> s = n; i = std::move( o ); m = s; adopt( v[j] ); } break;
        case 9: op = "swap"; note( "%zu.swap(%zu); ", k, j ); i.swap( o ); if ( k != j ) std::swap( m, n ); break;
        case 10: { op = "setColorCount"; uint8_t c = col(); note( "%zu.setColorCount(%u); ", k, c ); i.setColorCount( c ); if ( c && c != m.cc ) { blank( m ); m.cc = c; } break; }
        case 11: { op = "setAlignment"; uint8_t a = ali(); note( "%zu.setAlignment(%u); ", k, a ); i.setAlignment( a ); if ( a && a != m.al ) { blank( m ); m.al = a; } break; }
        case 12: { op = "fill"; T x = static_cast<T>( r.u64() ); note( "%zu.fill; ", k ); i.fill( x ); std::fill( m.px.begin(), m.px.end(), x ); break; }
        case 13: { op = "generate"; uint32_t w = wdim(), h = dim(); uint8_t c = col(), a = ali(); note( "%zu=%zu.generate(%u,%u,%u,%u); ", k, j, w, h, c, a );
                   if ( k == j ) return; if ( w > 1000 && uint64_t( w ) * ( c ? c : 1 ) + ( a ? a : 1 ) <= 0xFFFFFFFFu ) return; if ( w > 1000 && !h ) return;
                   Model<T> g; g.type = n.type; if ( c ) g.cc = c; if ( a ) g.al = a; expectThrow = !setSize( g, w, h );
                   attempt( [&] { std::unique_ptr<Im> q( new Im( o.generate( w, h, c, a ) ) ); v[k].i = std::move( q ); } ); if ( !expectThrow ) m = g; break; }
        case 14: { op = "construction"; uint32_t w = wdim(), h = dim(); uint8_t c = col(), a = ali(); note( "%zu=Image(%u,%u,%u,%u); ", k, w, h, c, a );
                   if ( w > 1000 && uint64_t( w ) * ( c ? c : 1 ) + ( a ? a : 1 ) <= 0xFFFFFFFFu ) return; if ( w > 1000 && !h ) return;
                   Model<T> g; if ( c ) g.cc = c; if ( a ) g.al = a; expectThrow = !setSize( g, w, h );
                   attempt( [&] { std::unique_ptr<Im> q( new Im( w, h, c, a ) ); v[k].i = std::move( q ); } ); if ( !expectThrow ) m = g; break; }
        case 15: { op = "other device"; const uint8_t t = uint8_t( r.range( 0, 4 ) ); note( "%zu=type %u; ", k, t ); v[k].i.reset( new Sub<T>( t ) ); m = Model<T>(); m.type = t; break; }
        case 16: { op = "failed allocation"; const uint32_t w = dim(), h = dim(); const bool cp = r.chance( 40 ) && k != j && m.type == n.type; bool full = false; note( "%zu.%s without memory; ", k, cp ? "copy" : "resize" );
                   const bool needs = cp ? !n.empty : w && h && ( w != m.w || h != m.h );
                   failArrays = true;
                   try { if ( cp ) i.copy( o ); else i.resize( w, h ); } catch ( const std::bad_alloc & ) { full = true; } catch ( ... ) { failArrays = false; throw; }
                   failArrays = false;
                   if ( full ) { CHECK( "value", i.empty() ? uint64_t( i.width() ) * i.height() == 0 : i.data() == m.data, "an image left by a failed allocation has no pixels but an area of %ux%u", i.width(), i.height() );
                       if ( i.empty() ) { m = Model<T>(); m.w = i.width(); m.h = i.height(); m.cc = i.colorCount(); m.al = i.alignment(); m.rs = i.rowSize(); m.type = i.type(); CHECK( "value", m.cc > 0 && m.al > 0 && m.rs == rowOf( m.w, m.cc, m.al ), "image left by a failed allocation is %s", desc( i ).c_str() ); } }
                   else if ( cp ) m = n; else if ( needs ) { setSize( m, w, h ); m.data = i.data(); }
                   break; }
        default: op = "comparison"; CHECK( "value", i == i, "image is not equal to itself" ); CHECK( "value", k == j || ( m.empty && n.empty ) || !( i == o ), "images with different pixels storage compare equal" ); break;
        }
        CHECK( "reject", thrown == expectThrow, "%s %s", op, thrown ? "rejected valid parameters" : "accepted invalid parameters" );
        Im & now = *v[k].i;
        if ( now.data() && m.data != now.data() && !m.empty ) { // new storage allowed for these
            static const char * fresh[] = { "resize", "assign", "copy construction", "copy assignment", "copy", "generate", "construction" };
            for ( auto f : fresh ) if ( !strcmp( f, op ) ) m.data = now.data();
        }
        check( op );
    }
    void adopt( Item & t )   // a moved-from image: any valid state
    {
        Im & i = *t.i; Model<T> m; m.empty = i.empty(); m.w = i.width(); m.h = i.height(); m.cc = i.colorCount(); m.al = i.alignment(); m.rs = i.rowSize(); m.type = i.type(); m.data = i.data();
        CHECK( "value", m.cc > 0 && m.al > 0, "moved-from image has no colours or alignment" );
        if ( m.empty ) CHECK( "value", uint64_t( m.rs ) * m.h == 0, "moved-from image is empty but has an area" );
        else CHECK( "value", m.w && m.h && m.rs == rowOf( m.w, m.cc, m.al ), "moved-from image %s has a wrong row size", desc( i ).c_str() );
        t.m = m;
    }
    void run()
    {
        const uint32_t n = r.range( 2, 4 );
        for ( uint32_t k = 0; k < n; ++k ) { v.push_back( Item() ); v.back().i.reset( new Im ); }
        check( "construction" );
        const uint32_t s = r.range( 3, 40 );
        for ( uint32_t k = 0; k < s; ++k ) step();
        v.clear();
        CHECK( "value", liveArrays == arrays, "%ld buffers leaked", liveArrays - arrays );
    }
};
template <typename T> void go( Rng & r ) { note( sizeof( T ) == 1 ? "8 bit: " : "16 bit: " ); Sim<T> s( r ); s.run(); }
const Reg a1( "container.8a", 4000, go<uint8_t> ), a2( "container.16a", 4000, go<uint16_t> ), a3( "container.8b", 4000, go<uint8_t> ), a4( "container.16b", 4000, go<uint16_t> ), a5( "container.8c", 4000, go<uint8_t> ), a6( "container.16c", 4000, go<uint16_t> );
}
