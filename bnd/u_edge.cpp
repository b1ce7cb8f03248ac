// Edge detection: bounds, locality, selection, mirror and transposition relations, exact step edges.
#include "core.h"
#include "edge_detection.h"
#include <algorithm>
namespace {
using P = EdgeParameter;
struct Pts { std::vector<std::pair<double, double>> pos, neg; };
struct Area { uint32_t x, y, w, h; };
const char * dirName( P::DirectionType d ) { static const char * n[] = { "LR", "RL", "TB", "BT" }; return n[int( d )]; }
std::string show( const P & p )
{ return fmt( "%s grad%d edge%d group%u skip%u contrast%u offsets %u,%u", dirName( p.direction ), int( p.gradient ), int( p.edge ), p.groupFactor, p.skipFactor, p.minimumContrast, p.contrastCheckLeftSideOffset, p.contrastCheckRightSideOffset ); }
template <typename T> Pts find( const Image & i, const Area & a, const P & p, bool whole = false )
{
    EdgeDetectionBase<T> e; if ( whole ) e.find( i, p ); else e.find( i, a.x, a.y, a.w, a.h, p );
    Pts r;
    for ( auto & q : e.positiveEdge() ) r.pos.push_back( { q.x, q.y } );
    for ( auto & q : e.negativeEdge() ) r.neg.push_back( { q.x, q.y } );
    return r;
}
bool horizontal( const P & p ) { return p.direction == P::DirectionType::LEFT_TO_RIGHT || p.direction == P::DirectionType::RIGHT_TO_LEFT; }
P::DirectionType opposite( P::DirectionType d ) { return d == P::DirectionType::LEFT_TO_RIGHT ? P::DirectionType::RIGHT_TO_LEFT : d == P::DirectionType::RIGHT_TO_LEFT ? P::DirectionType::LEFT_TO_RIGHT
    : d == P::DirectionType::TOP_TO_BOTTOM ? P::DirectionType::BOTTOM_TO_TOP : P::DirectionType::TOP_TO_BOTTOM; }
bool close( const std::vector<std::pair<double, double>> & a, const std::vector<std::pair<double, double>> & b, double tol )
{
    if ( a.size() != b.size() ) return false;
    for ( size_t i = 0; i < a.size(); ++i ) if ( std::abs( a[i].first - b[i].first ) > tol || std::abs( a[i].second - b[i].second ) > tol ) return false;
    return true;
}
std::vector<std::pair<double, double>> sorted( std::vector<std::pair<double, double>> v ) { std::sort( v.begin(), v.end() ); return v; }
uint32_t factor( Rng & r, uint32_t n ) { switch ( r.below( 8 ) ) { case 0: return r.range( 1, 3 ); case 1: return n; case 2: return n + 1; case 3: return r.range( 1, n + 2 ); default: return 1; } }
P params( Rng & r, uint32_t w, uint32_t h )
{
    P p; p.direction = P::DirectionType( r.below( 4 ) ); p.gradient = P::GradientType( r.chance( 60 ) ? 2 : r.below( 3 ) ); p.edge = P::EdgeType( r.chance( 50 ) ? 2 : r.below( 3 ) );
    p.groupFactor = factor( r, horizontal( p ) ? h : w ); p.skipFactor = factor( r, horizontal( p ) ? h : w );
    if ( r.chance( 3 ) ) p.groupFactor = 0xFFFFFFFFu - r.below( 3 );
    if ( r.chance( 5 ) ) p.skipFactor = r.chance( 50 ) ? 0xFFFFFFFFu - r.below( 3 ) : 0x80000000u;
    p.minimumContrast = uint8_t( r.chance( 70 ) ? r.range( 1, 20 ) : r.range( 1, 255 ) );
    if ( r.chance( 30 ) ) { p.contrastCheckLeftSideOffset = r.range( 0, 6 ); p.contrastCheckRightSideOffset = r.range( 0, 6 ); }
    if ( r.chance( 5 ) ) { p.contrastCheckLeftSideOffset = r.chance( 50 ) ? 1 : 0xFFFFFFFFu - r.below( 12 ); p.contrastCheckRightSideOffset = 0xFFFFFFFFu - r.below( 12 ); }
    return p;
}
Image image( Rng & r, const Area & a, bool tight )
{
    Image i( a.x + a.w + ( tight ? 0 : r.below( 4 ) ), a.y + a.h + ( tight ? 0 : r.below( 4 ) ), 1, r.pick<uint8_t>( { 1, 1, 2, 3, 4, 16 } ) ); randomise( r, i );
    if ( r.chance( 50 ) ) // smooth values, so that edges with wide slopes appear
        for ( uint32_t y = 0; y < i.height(); ++y ) { int v = int( r.below( 256 ) ), d = 0; for ( uint32_t x = 0; x < i.width(); ++x ) { d += int( r.range( 0, 20 ) ) - 10; if ( r.chance( 20 ) ) d = 0; v = std::min( 255, std::max( 0, v + d ) ); i.data()[size_t( y ) * i.rowSize() + x] = uint8_t( v ); } }
    return i;
}
Area area( Rng & r, bool whole ) { Area a{ whole ? 0 : r.below( 4 ), whole ? 0 : r.below( 4 ), r.chance( 60 ) ? r.range( 1, 14 ) : r.range( 4, 60 ), r.chance( 60 ) ? r.range( 1, 9 ) : r.range( 4, 30 ) }; if ( r.chance( 50 ) ) std::swap( a.w, a.h ); return a; }
void checkInside( const Pts & q, const Area & a )
{
    for ( auto * v : { &q.pos, &q.neg } ) for ( auto & p : *v )
        CHECK( "value", p.first >= a.x && p.first <= double( a.x ) + a.w - 1 && p.second >= a.y && p.second <= double( a.y ) + a.h - 1, "edge point (%g,%g) outside the region %u,%u %ux%u", p.first, p.second, a.x, a.y, a.w, a.h );
}
// of the points of a line keep the first or last one in scanning direction
Pts select( const Pts & all, const P & p )
{
    const bool h = horizontal( p ), fwd = p.direction == P::DirectionType::LEFT_TO_RIGHT || p.direction == P::DirectionType::TOP_TO_BOTTOM;
    auto sel = [&]( std::vector<std::pair<double, double>> v, bool keep ) {
        std::vector<std::pair<double, double>> o; if ( !keep ) return o;
        if ( p.edge == P::EdgeType::ALL ) return v;
        for ( auto & q : v ) {
            const double line = h ? q.second : q.first, at = h ? q.first : q.second; bool found = false;
            for ( auto & e : o ) if ( ( h ? e.second : e.first ) == line ) {
                found = true; const double cur = h ? e.first : e.second; const bool smaller = ( p.edge == P::EdgeType::FIRST ) == fwd;
                if ( smaller ? at < cur : at > cur ) e = q; }
            if ( !found ) o.push_back( q );
        }
        return o;
    };
    return { sel( all.pos, p.gradient != P::GradientType::NEGATIVE ), sel( all.neg, p.gradient != P::GradientType::POSITIVE ) };
}
template <typename T> void relations( Rng & r )
{
    const bool whole = r.chance( 40 ); const Area a = area( r, whole ); const Image i = image( r, a, whole ); const P p = params( r, a.w, a.h ); const Snap<uint8_t> s( i );
    note( "%s region %u,%u %ux%u %s; ", desc( i ).c_str(), a.x, a.y, a.w, a.h, show( p ).c_str() );
    const double tol = sizeof( T ) == 4 ? 1e-4 : 1e-9;
    const Pts got = find<T>( i, a, p, whole );
    compareSame( "image", i, s ); checkInside( got, a );
    // opposite scanning direction: positive and negative exchanged, first and last exchanged accordingly
    { P q = p; q.direction = opposite( p.direction ); q.gradient = p.gradient == P::GradientType::ANY ? P::GradientType::ANY : p.gradient == P::GradientType::POSITIVE ? P::GradientType::NEGATIVE : P::GradientType::POSITIVE;
      q.edge = p.edge == P::EdgeType::ALL ? P::EdgeType::ALL : p.edge == P::EdgeType::FIRST ? P::EdgeType::LAST : P::EdgeType::FIRST;
      const Pts o = find<T>( i, a, q );
      CHECK( "value", close( sorted( got.pos ), sorted( o.neg ), tol ) && close( sorted( got.neg ), sorted( o.pos ), tol ), "scanning in the opposite direction gives %zu negative and %zu positive points instead of the %zu positive and %zu negative ones", o.neg.size(), o.pos.size(), got.pos.size(), got.neg.size() ); }
    // only the region matters
    { Image c( a.w, a.h, 1, r.pick<uint8_t>( { 1, 4, 32 } ) ); for ( uint32_t y = 0; y < a.h; ++y ) memcpy( c.data() + size_t( y ) * c.rowSize(), i.data() + size_t( a.y + y ) * i.rowSize() + a.x, a.w );
      Pts o = find<T>( c, { 0, 0, a.w, a.h }, p ); for ( auto * v : { &o.pos, &o.neg } ) for ( auto & q : *v ) { q.first += a.x; q.second += a.y; }
      CHECK( "value", close( got.pos, o.pos, tol ) && close( got.neg, o.neg, tol ), "the result differs from the one for a copy of the region" );
      // the transposed region scanned along the other axis
      Image t( a.h, a.w, 1, r.pick<uint8_t>( { 1, 4, 8 } ) ); for ( uint32_t y = 0; y < a.h; ++y ) for ( uint32_t x = 0; x < a.w; ++x ) t.data()[size_t( x ) * t.rowSize() + y] = c.data()[size_t( y ) * c.rowSize() + x];
      P q = p; q.direction = P::DirectionType( ( int( p.direction ) + 2 ) % 4 ); o = find<T>( t, { 0, 0, a.h, a.w }, q ); for ( auto * v : { &o.pos, &o.neg } ) for ( auto & e : *v ) { std::swap( e.first, e.second ); e.first += a.x; e.second += a.y; }
      CHECK( "value", close( got.pos, o.pos, tol ) && close( got.neg, o.neg, tol ), "the result differs from the one for the transposed region" ); }
    // gradient and edge types select from all edges
    { P q = p; q.gradient = P::GradientType::ANY; q.edge = P::EdgeType::ALL; const Pts o = select( find<T>( i, a, q ), p );
      CHECK( "value", close( sorted( got.pos ), sorted( o.pos ), tol ) && close( sorted( got.neg ), sorted( o.neg ), tol ), "%zu+%zu points, but selecting from all edges gives %zu+%zu", got.pos.size(), got.neg.size(), o.pos.size(), o.neg.size() ); }
    // every line is scanned on its own
    if ( p.skipFactor > 1 ) {
        P q = p; q.skipFactor = 1; Pts o = find<T>( i, a, q ); const double o0 = ( horizontal( p ) ? a.y : a.x ) + ( double( p.groupFactor ) - 1 ) / 2;
        for ( auto * v : { &o.pos, &o.neg } ) v->erase( std::remove_if( v->begin(), v->end(), [&]( const std::pair<double, double> & e ) { return uint64_t( ( horizontal( p ) ? e.second : e.first ) - o0 + 0.25 ) % p.skipFactor != 0; } ), v->end() );
        CHECK( "value", close( got.pos, o.pos, tol ) && close( got.neg, o.neg, tol ), "skipping lines gives other points than scanning all of them" );
    }
}
// flat plateaus far enough from each other: every step is one edge in its middle
template <typename T> void steps( Rng & r )
{
    const bool h = r.chance( 50 ); const uint32_t n = r.range( 8, 80 ), lines = r.range( 1, 6 ), g = r.range( 1, lines ), gap = 4;
    P p; p.direction = P::DirectionType( ( h ? 0 : 2 ) + r.below( 2 ) ); p.minimumContrast = uint8_t( r.range( 1, 120 ) ); p.groupFactor = g; p.skipFactor = r.range( 1, 2 );
    if ( r.chance( 30 ) ) { p.contrastCheckLeftSideOffset = r.range( 1, 2 ); p.contrastCheckRightSideOffset = r.range( 1, 2 ); }
    Area a{ r.below( 3 ), r.below( 3 ), h ? n : lines, h ? lines : n };
    Image i = image( r, a, false ); std::vector<int> v( n ); std::vector<std::pair<uint32_t, int>> st; // step between k and k + 1
    int cur = int( r.below( 256 ) ); uint32_t last = 0;
    for ( uint32_t k = 0; k < n; ++k ) {
        v[k] = cur;
        if ( k >= gap && k - last >= gap && k + 1 + gap < n && r.chance( 25 ) ) { const int nx = r.chance( 70 ) ? int( r.below( 256 ) ) : std::min( 255, std::max( 0, cur + ( r.chance( 50 ) ? 1 : -1 ) * ( p.minimumContrast - int( r.below( 2 ) ) ) ) ); if ( nx != cur ) { st.push_back( { k, nx - cur } ); last = k + 1; cur = nx; } }
    }
    for ( uint32_t l = 0; l < lines; ++l ) for ( uint32_t k = 0; k < n; ++k ) i.data()[size_t( a.y + ( h ? l : k ) ) * i.rowSize() + a.x + ( h ? k : l )] = uint8_t( v[k] );
    note( "%s region %u,%u %ux%u %zu steps %s; ", desc( i ).c_str(), a.x, a.y, a.w, a.h, st.size(), show( p ).c_str() );
    const bool fwd = p.direction == P::DirectionType::LEFT_TO_RIGHT || p.direction == P::DirectionType::TOP_TO_BOTTOM; Pts e;
    for ( uint32_t l = 0; l + g <= lines; l += p.skipFactor )
        for ( auto & s : st ) {
            if ( std::abs( s.second ) < p.minimumContrast ) continue;
            const double at = s.first + 0.5, line = l + ( g - 1 ) / 2.0; const std::pair<double, double> q( a.x + ( h ? at : line ), a.y + ( h ? line : at ) );
            ( ( s.second > 0 ) == fwd ? e.pos : e.neg ).push_back( q );
        }
    const Pts got = find<T>( i, a, p ); const double tol = 1e-4;
    CHECK( "value", close( sorted( got.pos ), sorted( e.pos ), tol ) && close( sorted( got.neg ), sorted( e.neg ), tol ), "%zu positive and %zu negative edge points reported for %zu and %zu steps", got.pos.size(), got.neg.size(), e.pos.size(), e.neg.size() );
}
void invalid( Rng & r )
{
    Area a = area( r, false ); Image i = image( r, a, false ); P p = params( r, a.w, a.h );
    switch ( r.below( 8 ) ) {
    case 0: i = Image(); break;
    case 1: i = Image( i.width(), i.height(), 3 ); break;
    case 2: a.w = r.chance( 50 ) ? 0 : 0xFFFFFFFFu - r.below( 4 ); a.x = a.w ? 1 + r.below( 6 ) : a.x; break;
    case 3: a.h = r.chance( 50 ) ? 0 : 0xFFFFFFFFu - r.below( 4 ); a.y = a.h ? 1 + r.below( 6 ) : a.y; break;
    case 4: a.x += i.width(); break;
    case 5: p.groupFactor = 0; break;
    case 6: p.skipFactor = 0; break;
    default: p.minimumContrast = 0; break;
    }
    note( "%s region %u,%u %ux%u %s; ", desc( i ).c_str(), a.x, a.y, a.w, a.h, show( p ).c_str() );
    bool thrown = false; try { find<double>( i, a, p ); } catch ( const penguinVException & ) { thrown = true; }
    CHECK( "reject", thrown, "invalid parameters accepted" );
}
const Reg a1( "edge.double", 3000, relations<double> ), a2( "edge.float", 1500, relations<float> ), a3( "edge.steps", 3000, steps<double> ), a4( "edge.stepsf", 800, steps<float> ), a5( "edge.invalid", 1200, invalid );
}
