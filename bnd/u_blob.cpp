// Blob detection against a flood fill, with the measurements recomputed from the points.
#include "core.h"
#include "blob_detection.h"
#include <algorithm>
#include <cmath>
#include <set>
namespace {
using namespace Blob_Detection;
using Pt = std::pair<int64_t, int64_t>; // y, x
using Set = std::set<Pt>;
struct Blob { Set points, edge, contour; int64_t l, r, t, b; double cx, cy, circularity, length; std::vector<double> elongation; };
bool near( double a, double b ) { return std::abs( a - b ) <= 1e-9 * std::max( 1.0, std::max( std::abs( a ), std::abs( b ) ) ); }
Set component( const Set & all, Pt from )
{
    Set done{ from }; std::vector<Pt> q{ from };
    while ( !q.empty() ) { const Pt p = q.back(); q.pop_back(); for ( int dy = -1; dy <= 1; ++dy ) for ( int dx = -1; dx <= 1; ++dx ) { const Pt n{ p.first + dy, p.second + dx }; if ( all.count( n ) && done.insert( n ).second ) q.push_back( n ); } }
    return done;
}
void measure( Blob & o, bool heavy )
{
    for ( auto & p : o.points ) { int n = 0; for ( int dy = -1; dy <= 1; ++dy ) for ( int dx = -1; dx <= 1; ++dx ) n += int( o.points.count( { p.first + dy, p.second + dx } ) ); if ( n != 9 ) o.edge.insert( p ); }
    o.contour = component( o.edge, *o.points.begin() );
    o.l = o.t = INT64_MAX; o.r = o.b = -1; double sx = 0, sy = 0;
    for ( auto & p : o.points ) { o.l = std::min( o.l, p.second ); o.r = std::max( o.r, p.second ); o.t = std::min( o.t, p.first ); o.b = std::max( o.b, p.first ); sx += double( p.second ); sy += double( p.first ); }
    o.cx = sx / double( o.points.size() ); o.cy = sy / double( o.points.size() );
    const double radius = std::sqrt( double( o.points.size() ) / M_PI ); double d = 0;
    for ( auto & p : o.contour ) d += std::abs( std::hypot( double( p.second ) - o.cx, double( p.first ) - o.cy ) - radius );
    o.circularity = 1 - d / ( double( o.contour.size() ) * radius );
    if ( !heavy ) return;
    int64_t best = 0;
    for ( auto & a : o.contour ) for ( auto & b : o.contour ) best = std::max( best, ( a.first - b.first ) * ( a.first - b.first ) + ( a.second - b.second ) * ( a.second - b.second ) );
    o.length = std::sqrt( double( best ) );
    if ( o.contour.size() == 1 ) { o.elongation = { 1 }; return; }
    for ( auto & a : o.contour ) for ( auto & b : o.contour ) { // every farthest pair is a valid axis
        if ( ( a.first - b.first ) * ( a.first - b.first ) + ( a.second - b.second ) * ( a.second - b.second ) != best ) continue;
        const double ux = double( b.second - a.second ) / o.length, uy = double( b.first - a.first ) / o.length; double mn = 0, mx = 0;
        for ( auto & p : o.contour ) { const double v = double( p.first - a.first ) * ux - double( p.second - a.second ) * uy; mn = std::min( mn, v ); mx = std::max( mx, v ); }
        o.elongation.push_back( o.length / std::max( 1.0, mx - mn ) );
    }
}
Set toSet( const std::vector<uint32_t> & x, const std::vector<uint32_t> & y, const char * what )
{
    CHECK( "value", x.size() == y.size(), "%s: %zu x and %zu y coordinates", what, x.size(), y.size() );
    Set s; for ( size_t i = 0; i < x.size(); ++i ) CHECK( "value", s.insert( { y[i], x[i] } ).second, "%s contains (%u,%u) twice", what, x[i], y[i] );
    return s;
}
template <typename T> bool pass( const Parameter<T> & p, double v ) { return !( p.checkMinimum && v < double( p.minimum ) ) && !( p.checkMaximum && v > double( p.maximum ) ); }
template <typename T> bool border( const Parameter<T> & p, double v ) { return ( p.checkMinimum && near( v, double( p.minimum ) ) ) || ( p.checkMaximum && near( v, double( p.maximum ) ) ); }
template <typename T> void limit( Rng & r, Parameter<T> & p, double lo, double hi )
{
    auto v = [&] { return T( lo + ( hi - lo ) * r.below( 1001 ) / 1000 ); };
    switch ( r.below( 3 ) ) { case 0: p.setMinimum( v() ); break; case 1: p.setMaximum( v() ); break; default: { T a = v(), b = v(); if ( a > b && r.chance( 97 ) ) std::swap( a, b ); p.set( a, b ); } }
    note( "[%s%g,%s%g] ", p.checkMinimum ? "" : "no ", double( p.minimum ), p.checkMaximum ? "" : "no ", double( p.maximum ) );
}
Image draw( Rng & r, uint32_t w, uint32_t h, uint8_t threshold )
{
    Image i( w, h, 1, r.pick<uint8_t>( { 1, 1, 2, 3, 4, 16 } ) ); randomise( r, i );
    const uint32_t mode = r.below( 5 );
    if ( mode == 0 ) return i;
    const uint8_t lo = uint8_t( threshold ? r.chance( 50 ) ? threshold - 1 : r.below( threshold ) : 0 ), hi = r.chance( 50 ) ? threshold : uint8_t( r.range( threshold, 255 ) );
    const uint32_t density = r.pick<uint32_t>( { 10, 30, 45, 60, 90, 100 } );
    for ( uint32_t y = 0; y < h; ++y ) for ( uint32_t x = 0; x < w; ++x ) i.data()[size_t( y ) * i.rowSize() + x] = mode == 1 ? ( r.chance( density ) ? hi : lo ) : mode == 2 && r.chance( 10 ) ? hi : lo;
    if ( mode >= 2 ) for ( uint32_t n = r.range( 1, 5 ); n; --n ) { // shapes: rectangles, rings, diagonals
        const uint32_t x = r.below( w ), y = r.below( h ), a = r.range( 1, 12 ), b = r.range( 1, 12 ), k = r.below( 4 );
        for ( uint32_t v = 0; v < b && y + v < h; ++v ) for ( uint32_t u = 0; u < a && x + u < w; ++u ) {
            const bool ring = u < 1 + k / 3 || v < 1 + k / 3 || u + 1 + k / 3 >= a || v + 1 + k / 3 >= b;
            if ( k == 0 || ( k == 1 && u == v ) || ( k >= 2 && ring ) ) i.data()[size_t( y + v ) * i.rowSize() + x + u] = hi; }
    }
    return i;
}
void run( Rng & r, bool limits )
{
    uint32_t w = r.chance( 70 ) ? r.range( 1, 14 ) : r.range( 1, 48 ), h = r.chance( 70 ) ? r.range( 1, 14 ) : r.range( 1, 48 );
    const bool whole = r.chance( 40 ); uint32_t x = whole ? 0 : r.below( 4 ), y = whole ? 0 : r.below( 4 );
    const uint8_t threshold = r.chance( 40 ) ? 1 : r.pick<uint8_t>( { 0, 1, 2, 127, 128, 254, 255, uint8_t( r.u64() ) } );
    const Image i = draw( r, x + w + ( whole ? 0 : r.below( 4 ) ), y + h + ( whole ? 0 : r.below( 4 ) ), threshold ); const Snap<uint8_t> s( i );
    note( "%s region %u,%u %ux%u threshold %u; ", desc( i ).c_str(), x, y, w, h, threshold );
    BlobParameters p;
    if ( limits ) {
        const uint32_t m = r.chance( 70 ) ? 1u << r.below( 6 ) : r.below( 64 );
        if ( m & 1 ) limit( r, p.circularity, -0.5, 1.2 ); if ( m & 2 ) limit( r, p.elongation, 0, 8 ); if ( m & 4 ) limit( r, p.height, 0, 14 );
        if ( m & 8 ) limit( r, p.length, 0, 16 ); if ( m & 16 ) limit( r, p.size, 0, 40 ); if ( m & 32 ) limit( r, p.width, 0, 14 );
    }
    auto bad = []( auto & q ) { return q.checkMinimum && q.checkMaximum && q.minimum > q.maximum; };
    const bool valid = !bad( p.circularity ) && !bad( p.elongation ) && !bad( p.height ) && !bad( p.length ) && !bad( p.size ) && !bad( p.width );
    BlobDetection d; bool thrown = false;
    if ( r.chance( 20 ) ) { Image other( 5, 5 ); other.fill( 200 ); d.find( other ); } // results of an earlier search must not stay
    try { if ( whole ) d.find( i, p, threshold ); else d.find( i, x, y, w, h, p, threshold ); } catch ( const penguinVException & ) { thrown = true; }
    compareSame( "image", i, s );
    CHECK( valid ? "value" : "reject", thrown == !valid, valid ? "valid parameters rejected" : "contradicting limits accepted" );
    if ( !valid ) return;
    Set all; for ( uint32_t b = 0; b < h; ++b ) for ( uint32_t a = 0; a < w; ++a ) if ( s.at( x + a, y + b, 0 ) >= threshold ) all.insert( { y + b, x + a } );
    std::map<Pt, Blob> exp; std::set<Pt> optional;
    while ( !all.empty() ) {
        Blob o; o.points = component( all, *all.begin() ); for ( auto & q : o.points ) all.erase( q );
        measure( o, true ); const Pt key = *o.points.begin(); const double W = double( o.r - o.l + 1 ), H = double( o.b - o.t + 1 ), N = double( o.points.size() );
        bool ok = pass( p.circularity, o.circularity ) && pass( p.height, H ) && pass( p.length, o.length ) && pass( p.size, N ) && pass( p.width, W );
        bool unclear = border( p.circularity, o.circularity ) || border( p.length, o.length );
        size_t n = 0; for ( double e : o.elongation ) { n += pass( p.elongation, e ); unclear |= border( p.elongation, e ); }
        if ( n == 0 ) ok = false; else if ( n != o.elongation.size() ) unclear = true;
        if ( unclear ) optional.insert( key );
        if ( ok || unclear ) exp[key] = o;
    }
    std::vector<BlobInfo> found = r.chance( 50 ) ? d.get() : d();
    for ( auto & b : found ) {
        const Set pts = toSet( b.pointX(), b.pointY(), "points" ); CHECK( "value", !pts.empty(), "a blob without points" );
        const Pt key = *pts.begin(); auto it = exp.find( key );
        CHECK( "value", it != exp.end(), "a blob starting at (%lld,%lld) with %zu points is not a component within the limits", (long long)key.second, (long long)key.first, pts.size() );
        const Blob & o = it->second;
        CHECK( "value", pts == o.points, "the blob at (%lld,%lld) has %zu points instead of %zu", (long long)key.second, (long long)key.first, pts.size(), o.points.size() );
        CHECK( "value", toSet( b.edgeX(), b.edgeY(), "edge" ) == o.edge, "the blob at (%lld,%lld) has %zu edge points instead of %zu", (long long)key.second, (long long)key.first, b.edgeX().size(), o.edge.size() );
        CHECK( "value", toSet( b.contourX(), b.contourY(), "contour" ) == o.contour, "the blob at (%lld,%lld) has %zu contour points instead of %zu", (long long)key.second, (long long)key.first, b.contourX().size(), o.contour.size() );
        CHECK( "value", b.size() == o.points.size() && b.isSolid() == ( o.contour.size() == o.edge.size() ), "size %zu or solidity of the blob is wrong", b.size() );
        const Area a = b.area();
        CHECK( "value", a.left == o.l && a.right == o.r + 1 && a.top == o.t && a.bottom == o.b + 1, "area %u..%u, %u..%u instead of %lld..%lld, %lld..%lld", a.left, a.right, a.top, a.bottom, (long long)o.l, (long long)o.r + 1, (long long)o.t, (long long)o.b + 1 );
        CHECK( "value", b.width() == o.r - o.l + 1 && b.height() == o.b - o.t + 1, "width %u or height %u is wrong", b.width(), b.height() );
        CHECK( "value", near( b.center().x, o.cx ) && near( b.center().y, o.cy ), "center (%g,%g) instead of (%g,%g)", b.center().x, b.center().y, o.cx, o.cy );
        CHECK( "value", near( b.length(), o.length ), "length %g instead of %g", b.length(), o.length );
        CHECK( "value", near( b.circularity(), o.circularity ), "circularity %g instead of %g", b.circularity(), o.circularity );
        const double e = b.elongation(); bool any = false; for ( double q : o.elongation ) any |= near( e, q );
        CHECK( "value", any, "elongation %g instead of %g", e, o.elongation.front() );
        exp.erase( it );
    }
    for ( auto & e : exp ) CHECK( "value", optional.count( e.first ), "the component at (%lld,%lld) of %zu points is missing", (long long)e.first.second, (long long)e.first.first, e.second.points.size() );
}
void order( Rng & r )
{
    const Image i = draw( r, r.range( 8, 40 ), r.range( 8, 40 ), 1 ); BlobDetection d; BlobParameters p; const int c = int( r.below( 6 ) );
    p.circularity.setMinimum( -1e9 ); p.elongation.setMinimum( 0 ); p.height.setMinimum( 0 ); p.length.setMinimum( 0 ); p.size.setMinimum( 0 ); p.width.setMinimum( 0 );
    d.find( i, p ); note( "%s %zu blobs by criterion %d; ", desc( i ).c_str(), d.get().size(), c );
    if ( d.get().empty() ) return;
    auto key = [c]( const BlobInfo & b ) { switch ( c ) { case 0: return b.circularity(); case 1: return b.elongation(); case 2: return double( b.height() ); case 3: return b.length(); case 4: return double( b.size() ); default: return double( b.width() ); } };
    auto ids = [&] { std::multiset<std::pair<uint32_t, uint32_t>> s; for ( auto & b : d.get() ) s.insert( { b.pointX()[0], b.pointY()[0] } ); return s; };
    const auto before = ids(); double mx = -1e300; for ( auto & b : d.get() ) mx = std::max( mx, key( b ) );
    CHECK( "value", key( d.getBestBlob( BlobDetection::BlobCriterion( c ) ) ) == mx, "the best blob does not have the largest value" );
    d.sort( BlobDetection::BlobCriterion( c ) );
    CHECK( "value", ids() == before, "sorting changed the set of blobs" );
    for ( size_t k = 1; k < d.get().size(); ++k ) CHECK( "value", key( d.get()[k - 1] ) >= key( d.get()[k] ), "blobs are not sorted" );
}
void big( Rng & r ) // sums and distances beyond 32 bits
{
    const bool line = r.chance( 50 );
    if ( line ) {
        const uint32_t n = r.range( 46342, 70000 ); const bool v = r.chance( 50 ); Image i( v ? 1 : n, v ? n : 1 ); i.fill( 0 ); for ( uint32_t k = 0; k < n; ++k ) i.data()[v ? size_t( k ) * i.rowSize() : k] = 9;
        note( "line of %u; ", n ); BlobDetection d; d.find( i ); CHECK( "value", d.get().size() == 1 && d.get()[0].size() == n, "a line of %u pixels is not found", n );
        const double c = ( n - 1 ) / 2.0; CHECK( "value", near( v ? d.get()[0].center().y : d.get()[0].center().x, c ), "center of a line of %u pixels is %g,%g", n, d.get()[0].center().x, d.get()[0].center().y );
    }
    else {
        const uint32_t w = r.range( 1700, 2200 ), h = r.range( 1700, 2200 ); Image i( w, h ); i.fill( 255 ); note( "square %ux%u; ", w, h );
        BlobDetection d; d.find( i ); CHECK( "value", d.get().size() == 1, "%zu blobs", d.get().size() ); BlobInfo & b = d.get()[0];
        CHECK( "value", near( b.center().x, ( w - 1 ) / 2.0 ) && near( b.center().y, ( h - 1 ) / 2.0 ), "center of %ux%u pixels is %g,%g", w, h, b.center().x, b.center().y );
    }
    Image i( 50000, 50000 / 20 ); // two far corners joined by a thin path
    if ( r.chance( 30 ) ) {
        i.fill( 0 ); for ( uint32_t k = 0; k < i.width(); ++k ) i.data()[size_t( k ) * ( i.height() - 1 ) / ( i.width() - 1 ) * i.rowSize() + k] = 1;
        const uint32_t keep = 3; (void)keep; BlobDetection d; d.find( i ); CHECK( "value", d.get().size() == 1 && d.get()[0].width() == 50000, "thin path not found" );
    }
}
void farPoints( Rng & r ) // distance of two contour points above 2^15.5: the contour is short because the blob is a line
{
    const uint32_t n = r.range( 46341, 47500 ); Image i( n, 1 ); i.fill( 1 ); note( "line of %u; ", n );
    BlobDetection d; d.find( i ); CHECK( "value", d.get().size() == 1, "%zu blobs", d.get().size() ); CHECK( "value", near( d.get()[0].length(), n - 1 ), "length of a line of %u pixels is %g", n, d.get()[0].length() );
}
void invalid( Rng & r )
{
    Image i = draw( r, r.range( 1, 9 ), r.range( 1, 9 ), 1 ); uint32_t x = 0, y = 0, w = i.width(), h = i.height();
    switch ( r.below( 6 ) ) { case 0: i = Image(); break; case 1: i = Image( i.width(), i.height(), 3 ); break; case 2: w = r.chance( 50 ) ? 0 : w + r.range( 1, 3 ); break; case 3: h = r.chance( 50 ) ? 0 : h + r.range( 1, 3 ); break; case 4: x = 1; w = 0xFFFFFFFFu - r.below( 3 ); break; default: y = 2; h = 0xFFFFFFFFu - r.below( 3 ); break; }
    note( "%s region %u,%u %ux%u; ", desc( i ).c_str(), x, y, w, h ); BlobDetection d; bool thrown = false;
    try { d.find( i, x, y, w, h ); } catch ( const penguinVException & ) { thrown = true; }
    CHECK( "reject", thrown, "invalid parameters accepted" );
}
const Reg a1( "blob.all", 1500, []( Rng & r ) { run( r, false ); } ), a2( "blob.limits", 2500, []( Rng & r ) { run( r, true ); } ), a3( "blob.order", 600, order ), a4( "blob.big", 2, big ), a5( "blob.invalid", 600, invalid ), a6( "blob.far", 1, farPoints );
}
