#include "ops.h"
#include <cmath>

namespace {
bool g( int c ) { return c == 1; }
int anycc( Rng & r ) { return r.pick( { 1, 1, 3, 4 } ); }
OpDef binary( const char * n, std::function<int( int, int )> fn )
{
    OpDef o; o.name = n; o.nin = 2; o.inplace = true;
    o.valid = []( const int * ci, const int * co, const A & ) { return ci[0] == ci[1] && ci[0] == co[0]; };
    o.pick = []( Rng & r, int * ci, int * co, A & ) { ci[0] = ci[1] = co[0] = anycc( r ); };
    o.rcc = []( const A & a ) { return a.in[0]->colorCount(); };
    o.f = [fn]( const Ref & q, int, uint32_t x, uint32_t y, uint32_t c ) { return fn( q.I( 0, x, y, c ), q.I( 1, x, y, c ) ); };
    return o;
}
OpDef unary( const char * n, std::function<int( int, const A & )> fn )
{
    OpDef o; o.name = n; o.inplace = true;
    o.valid = []( const int * ci, const int * co, const A & ) { return ci[0] == co[0]; };
    o.pick = []( Rng & r, int * ci, int * co, A & ) { ci[0] = co[0] = anycc( r ); };
    o.rcc = []( const A & a ) { return a.in[0]->colorCount(); };
    o.f = [fn]( const Ref & q, int, uint32_t x, uint32_t y, uint32_t c ) { return fn( q.I( 0, x, y, c ), q.a ); };
    return o;
}
OpDef conv( const char * n, std::function<bool( int, int )> okcc, std::function<void( Rng &, int &, int & )> pk, int rcc, std::function<int( const Ref &, uint32_t, uint32_t, uint32_t )> fn )
{
    OpDef o; o.name = n;
    o.valid = [okcc]( const int * ci, const int * co, const A & ) { return okcc( ci[0], co[0] ); };
    o.pick = [pk]( Rng & r, int * ci, int * co, A & ) { pk( r, ci[0], co[0] ); };
    o.rcc = [rcc]( const A & ) { return rcc; };
    o.f = [fn]( const Ref & q, int, uint32_t x, uint32_t y, uint32_t c ) { return fn( q, x, y, c ); };
    return o;
}
}
std::vector<OpDef> opDefinitions()
{
    std::vector<OpDef> v;
    v.push_back( binary( "AbsoluteDifference", []( int a, int b ) { return a > b ? a - b : b - a; } ) );
    v.push_back( binary( "BitwiseAnd", []( int a, int b ) { return a & b; } ) );
    v.push_back( binary( "BitwiseOr", []( int a, int b ) { return a | b; } ) );
    v.push_back( binary( "BitwiseXor", []( int a, int b ) { return a ^ b; } ) );
    v.push_back( binary( "Maximum", []( int a, int b ) { return a > b ? a : b; } ) );
    v.push_back( binary( "Minimum", []( int a, int b ) { return a < b ? a : b; } ) );
    v.push_back( binary( "Subtract", []( int a, int b ) { return a > b ? a - b : 0; } ) );
    v.push_back( unary( "Invert", []( int a, const A & ) { return 255 - a; } ) );
    {
        OpDef o = unary( "Copy", []( int a, const A & ) { return a; } );
        o.inplace = false;
        o.sameSizeWhole = false;
        v.push_back( o );
    }
    {
        OpDef o = unary( "Threshold", []( int x, const A & a ) { return x < a.p1 ? 0 : 255; } );
        o.valid = []( const int * ci, const int * co, const A & ) { return g( ci[0] ) && g( co[0] ); };
        o.pick = []( Rng & r, int * ci, int * co, A & a ) { ci[0] = co[0] = 1; a.p1 = r.chance( 50 ) ? r.pick<uint8_t>( { 0, 1, 127, 128, 254, 255 } ) : static_cast<uint8_t>( r.u64() ); };
        v.push_back( o );
    }
    {
        OpDef o = unary( "Threshold2", []( int x, const A & a ) { return ( x < a.p1 || x > a.p2 ) ? 0 : 255; } );
        o.valid = []( const int * ci, const int * co, const A & a ) { return g( ci[0] ) && g( co[0] ) && a.p1 <= a.p2; };
        o.pick = []( Rng & r, int * ci, int * co, A & a ) {
            ci[0] = co[0] = 1;
            a.p1 = r.chance( 50 ) ? r.pick<uint8_t>( { 0, 1, 127, 128, 254, 255 } ) : static_cast<uint8_t>( r.u64() );
            a.p2 = r.chance( 50 ) ? r.pick<uint8_t>( { 0, 1, 127, 128, 254, 255 } ) : static_cast<uint8_t>( r.u64() );
            if ( a.p1 > a.p2 && r.chance( 90 ) ) std::swap( a.p1, a.p2 );
        };
        v.push_back( o );
    }
    {
        OpDef o = unary( "LookupTable", []( int x, const A & a ) { return a.tab[static_cast<size_t>( x )]; } );
        o.valid = []( const int * ci, const int * co, const A & a ) { return ci[0] == co[0] && a.tab.size() == 256; };
        o.pick = []( Rng & r, int * ci, int * co, A & a ) { ci[0] = co[0] = anycc( r ); a.tab.resize( 256 ); for ( auto & t : a.tab ) t = static_cast<uint8_t>( r.u64() ); };
        v.push_back( o );
    }
    {
        OpDef o = unary( "GammaCorrection", []( int x, const A & a ) {
            const double d = a.d1 * std::pow( x / 255.0, a.d2 ) * 255.0 + 0.5;
            return d < 256 ? static_cast<uint8_t>( d ) : 255; } );
        o.valid = []( const int * ci, const int * co, const A & a ) { return ci[0] == co[0] && a.d1 >= 0 && a.d2 >= 0; };
        o.pick = []( Rng & r, int * ci, int * co, A & a ) { ci[0] = co[0] = anycc( r ); a.d1 = r.pick( { 0.5, 1.0, 2.0, 0.0, 1.7 } ); a.d2 = r.pick( { 0.5, 1.0, 2.0, 0.0, 3.1 } ); };
        v.push_back( o );
    }
    {
        OpDef o = unary( "Normalize", []( int, const A & ) { return 0; } );
        o.f = []( const Ref & q, int, uint32_t x, uint32_t y, uint32_t c ) {
            static const void * key = nullptr; static int mn, mx;
            if ( ( x == 0 && y == 0 && c == 0 ) || key != &q.b ) {
                key = &q.b; mn = 255; mx = 0;
                for ( uint32_t j = 0; j < q.a.h; ++j ) for ( uint32_t i = 0; i < q.a.w; ++i ) for ( int k = 0; k < q.ccIn( 0 ); ++k ) {
                    const int t = q.I( 0, i, j, static_cast<uint32_t>( k ) ); if ( t < mn ) mn = t; if ( t > mx ) mx = t; }
            }
            const int t = q.I( 0, x, y, c );
            if ( mn == mx || ( mn == 0 && mx == 255 ) ) return t;
            const double corr = 255.0 / ( mx - mn );
            return static_cast<int>( static_cast<uint8_t>( ( t - mn ) * corr + 0.5 ) );
        };
        v.push_back( o );
    }
    v.push_back( conv( "ConvertToGrayScale", []( int, int b ) { return b == 1; }, []( Rng & r, int & a, int & b ) { a = r.pick( { 1, 3, 3, 4 } ); b = 1; }, 1,
        []( const Ref & q, uint32_t x, uint32_t y, uint32_t ) { return q.ccIn( 0 ) == 1 ? q.I( 0, x, y, 0 ) : ( q.I( 0, x, y, 0 ) + q.I( 0, x, y, 1 ) + q.I( 0, x, y, 2 ) ) / 3; } ) );
    v.push_back( conv( "ConvertToRgb", []( int, int b ) { return b == 3; }, []( Rng & r, int & a, int & b ) { a = r.pick( { 1, 1, 3, 4 } ); b = 3; }, 3,
        []( const Ref & q, uint32_t x, uint32_t y, uint32_t c ) { return q.ccIn( 0 ) == 1 ? q.I( 0, x, y, 0 ) : q.I( 0, x, y, c ); } ) );
    v.push_back( conv( "RgbToBgr", []( int a, int b ) { return a == 3 && b == 3; }, []( Rng &, int & a, int & b ) { a = b = 3; }, 3,
        []( const Ref & q, uint32_t x, uint32_t y, uint32_t c ) { return q.I( 0, x, y, 2 - c ); } ) );
    v.push_back( conv( "RgbToRgba", []( int a, int b ) { return a == 3 && b == 4; }, []( Rng &, int & a, int & b ) { a = 3; b = 4; }, 4,
        []( const Ref & q, uint32_t x, uint32_t y, uint32_t c ) { return c == 3 ? 255 : q.I( 0, x, y, c ); } ) );
    v.push_back( conv( "RgbaToRgb", []( int a, int b ) { return a == 4 && b == 3; }, []( Rng &, int & a, int & b ) { a = 4; b = 3; }, 3,
        []( const Ref & q, uint32_t x, uint32_t y, uint32_t c ) { return q.I( 0, x, y, c ); } ) );
    {
        OpDef o = conv( "ExtractChannel", []( int, int ) { return true; }, []( Rng &, int &, int & ) {}, 1,
                        []( const Ref & q, uint32_t x, uint32_t y, uint32_t ) { return q.I( 0, x, y, q.a.p1 ); } );
        o.valid = []( const int * ci, const int * co, const A & a ) { return co[0] == 1 && a.p1 < ci[0]; };
        o.pick = []( Rng & r, int * ci, int * co, A & a ) { ci[0] = anycc( r ); co[0] = 1; a.p1 = static_cast<uint8_t>( r.below( static_cast<uint32_t>( ci[0] ) ) ); };
        v.push_back( o );
        o = conv( "ReplaceChannel", []( int, int ) { return true; }, []( Rng &, int &, int & ) {}, 1,
                  []( const Ref & q, uint32_t x, uint32_t y, uint32_t c ) { return c == q.a.p1 ? q.I( 0, x, y, 0 ) : -1; } );
        o.valid = []( const int * ci, const int * co, const A & a ) { return ci[0] == 1 && co[0] == 3 && a.p1 < 3; };
        o.pick = []( Rng & r, int * ci, int * co, A & a ) { ci[0] = 1; co[0] = 3; a.p1 = static_cast<uint8_t>( r.below( 3 ) ); };
        v.push_back( o );
    }
    {
        OpDef o; o.name = "Merge"; o.nin = 3;
        o.valid = []( const int * ci, const int * co, const A & ) { return g( ci[0] ) && g( ci[1] ) && g( ci[2] ) && co[0] == 3; };
        o.pick = []( Rng &, int * ci, int * co, A & ) { ci[0] = ci[1] = ci[2] = 1; co[0] = 3; };
        o.rcc = []( const A & ) { return 3; };
        o.f = []( const Ref & q, int, uint32_t x, uint32_t y, uint32_t c ) { return q.I( static_cast<int>( c ), x, y, 0 ); };
        v.push_back( o );
    }
    {
        OpDef o; o.name = "Split"; o.nout = 3;
        o.valid = []( const int * ci, const int * co, const A & ) { return g( co[0] ) && g( co[1] ) && g( co[2] ) && ci[0] == 3; };
        o.pick = []( Rng &, int * ci, int * co, A & ) { ci[0] = 3; co[0] = co[1] = co[2] = 1; };
        o.f = []( const Ref & q, int k, uint32_t x, uint32_t y, uint32_t ) { return q.I( 0, x, y, static_cast<uint32_t>( k ) ); };
        v.push_back( o );
    }
    {
        OpDef o = conv( "Flip", []( int a, int b ) { return a == 1 && b == 1; }, []( Rng &, int &, int & ) {}, 1,
                        []( const Ref & q, uint32_t x, uint32_t y, uint32_t ) { return q.I( 0, q.a.b1 ? q.a.w - 1 - x : x, q.a.b2 ? q.a.h - 1 - y : y, 0 ); } );
        o.pick = []( Rng & r, int * ci, int * co, A & a ) { ci[0] = co[0] = 1; a.b1 = r.chance( 50 ); a.b2 = r.chance( 50 ); };
        v.push_back( o );
        o = conv( "Transpose", []( int a, int b ) { return a == 1 && b == 1; }, []( Rng &, int & a, int & b ) { a = b = 1; }, 1,
                  []( const Ref & q, uint32_t x, uint32_t y, uint32_t ) { return q.I( 0, y, x, 0 ); } );
        o.sameSizeWhole = false;
        v.push_back( o );
        o = unary( "Resize", []( int, const A & ) { return 0; } );
        o.inplace = false;
        o.sameSizeWhole = false;
        o.f = []( const Ref & q, int, uint32_t x, uint32_t y, uint32_t c ) {
            return q.I( 0, static_cast<uint32_t>( uint64_t( x ) * q.a.w / q.a.wo ), static_cast<uint32_t>( uint64_t( y ) * q.a.h / q.a.ho ), c ); };
        v.push_back( o );
    }
    {
        OpDef o; o.name = "ConvertTo16Bit"; o.out16 = true; o.sameSizeWhole = false;
        o.valid = []( const int * ci, const int * co, const A & ) { return ci[0] == co[0]; };
        o.pick = []( Rng & r, int * ci, int * co, A & ) { ci[0] = co[0] = anycc( r ); };
        o.rcc = []( const A & a ) { return a.in[0]->colorCount(); };
        o.f = []( const Ref & q, int, uint32_t x, uint32_t y, uint32_t c ) { return q.I( 0, x, y, c ) << 8; };
        v.push_back( o );
        o.name = "ConvertTo8Bit"; o.out16 = false; o.in16 = true;
        o.rcc = []( const A & a ) { return a.in16->colorCount(); };
        o.f = []( const Ref & q, int, uint32_t x, uint32_t y, uint32_t c ) { return q.I16( x, y, c ) >> 8; };
        v.push_back( o );
    }
    return v;
}

int tallBias = 3;
namespace {
uint32_t pickWidth( Rng & r )
{
    switch ( r.below( 4 ) ) {
    case 0: return r.range( 1, 9 );
    case 1: return r.pick<uint32_t>( { 7, 8, 9, 10, 11, 15, 16, 17, 21, 22, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 130, 160, 192, 193 } );
    case 2: return r.range( 1, 140 );
    default: return r.range( 10, 70 );
    }
}
uint8_t pickAlign( Rng & r ) { return r.chance( 40 ) ? uint8_t( 1 ) : r.pick<uint8_t>( { 2, 3, 4, 8, 16, 32, 64, 5 } ); }
bool sameShape( const Image & x, const Image & y )
{
    return x.width() == y.width() && x.height() == y.height() && x.colorCount() == y.colorCount() && x.alignment() == y.alignment() && !y.empty();
}
template <typename T> bool regionOk( const penguinV::ImageTemplate<T> & i, uint32_t x, uint32_t y, uint32_t w, uint32_t h )
{
    const int c = i.colorCount();
    return !i.empty() && ( c == 1 || c == 3 || c == 4 ) && w > 0 && h > 0 && uint64_t( x ) + w <= i.width() && uint64_t( y ) + h <= i.height();
}
}

void runOp( Rng & r, const OpDef & op, int form, const std::function<void()> & before )
{
    A a;
    int ci[3] = { 1, 1, 1 }, co[3] = { 1, 1, 1 };
    op.pick( r, ci, co, a );
    const bool transpose = op.name == "Transpose", resize = op.name == "Resize";
    const bool whole = form == 1 || form == 2, ret = form == 1 || form == 3;
    const int total = op.nin + ( ret ? 0 : op.nout );

    a.w = pickWidth( r );
    a.h = r.pick<uint32_t>( { 1, 1, 2, 3, 4, 5, 8, 17 } );
    if ( r.chance( tallBias ) ) { a.h = r.range( 18, tallBias > 3 ? 60 : 400 ); a.w = r.range( 1, 30 ); }            // tall
    else if ( r.chance( 1 ) ) { a.h = r.range( 1, 2 ); a.w = r.chance( 10 ) ? r.range( 65530, 65800 ) : r.range( 200, 4200 ); } // wide
    else if ( r.chance( 1 ) ) { a.h = r.range( 60, 300 ); a.w = r.range( 60, 300 ); }
    if ( transpose && r.chance( 50 ) ) std::swap( a.w, a.h );
    a.wo = transpose ? a.h : a.w;
    a.ho = transpose ? a.w : a.h;
    if ( resize ) {
        a.wo = r.chance( 20 ) ? a.w : r.range( 1, 90 );
        a.ho = r.range( 1, 12 );
    }
    // images 0..nin-1 inputs, then outputs
    const int mode = static_cast<int>( r.below( 4 ) ); // 0: every region full rows without padding
    std::vector<std::unique_ptr<Image>> pool;
    std::unique_ptr<Image16Bit> i16;
    const int bad = r.chance( 25 ) ? static_cast<int>( r.range( 1, 14 ) ) : 0;
    const int badWhich = static_cast<int>( r.below( static_cast<uint32_t>( total ) ) );
    bool alias = !ret && op.inplace && !bad && r.chance( 25 );
    const int aliasWith = static_cast<int>( r.below( static_cast<uint32_t>( op.nin ) ) );
    uint32_t X[6], Y[6];
    Image * imgs[6] = {};
    for ( int k = 0; k < total; ++k ) {
        const bool isOut = k >= op.nin;
        const uint32_t rw = isOut ? a.wo : a.w, rh = isOut ? a.ho : a.h;
        if ( isOut && alias ) { imgs[k] = imgs[aliasWith]; X[k] = X[aliasWith]; Y[k] = Y[aliasWith]; continue; }
        uint32_t left = 0, right = 0, top = 0, bottom = 0;
        uint8_t al = 1;
        if ( mode ) {
            al = pickAlign( r );
            if ( !whole ) {
                if ( mode != 1 ) { left = r.below( 6 ); right = r.below( 6 ); }
                top = r.below( 4 ); bottom = r.below( 4 );
            }
            if ( r.chance( 20 ) ) { left = right = 0; al = 1; } // one image without padding among padded ones
        }
        int cc = isOut ? co[k - op.nin] : ci[k];
        uint32_t iw = rw + left + right, ih = rh + top + bottom;
        X[k] = left; Y[k] = top;
        if ( whole && !op.sameSizeWhole && !resize && isOut && r.chance( 30 ) ) { iw += r.below( 3 ); ih += r.below( 3 ); }
        if ( bad && k == badWhich ) {
            switch ( bad ) {
            case 1: iw = 0; break;                                 // empty image
            case 2: cc = 2; break;
            case 3: cc = 5; break;
            case 4: cc = cc == 1 ? 3 : ( cc == 3 ? 4 : 1 ); break; // another valid channel count
            case 5: if ( whole ) iw += 1; break;
            case 6: if ( whole ) ih += 1; break;
            default: break;
            }
        }
        if ( ( op.in16 && k == 0 ) || ( op.out16 && isOut ) ) {
            i16.reset( new Image16Bit( iw, ih, static_cast<uint8_t>( cc ), al ) );
            randomise( r, *i16 );
            if ( isOut ) a.out16 = i16.get(); else a.in16 = i16.get();
        }
        else {
            pool.emplace_back( new Image( iw, ih, static_cast<uint8_t>( cc ), al ) );
            imgs[k] = pool.back().get();
            randomise( r, *imgs[k] );
        }
    }
    if ( bad >= 7 && !whole ) { // bad region or parameter
        const uint32_t big = 0xFFFFFFFFu;
        switch ( bad ) {
        case 7: a.w = 0; break;
        case 8: a.h = 0; break;
        case 9: X[badWhich] += r.range( 1, 12 ); break;
        case 10: Y[badWhich] += r.range( 1, 9 ); break;
        case 11: X[badWhich] = big - r.below( a.w + 2 ); break;
        case 12: Y[badWhich] = big - r.below( a.h + 2 ); break;
        case 13: if ( r.chance( 50 ) ) a.w = big - r.below( 12 ); else a.h = big - r.below( 12 ); break;
        default: break;
        }
        if ( !resize ) { a.wo = transpose ? a.h : a.w; a.ho = transpose ? a.w : a.h; }
        else if ( bad <= 8 && r.chance( 50 ) ) { std::swap( a.w, a.wo ); std::swap( a.h, a.ho ); }
    }
    if ( bad == 14 ) {
        if ( op.name == "LookupTable" ) a.tab.resize( r.pick<uint32_t>( { 0, 255, 257, 512 } ) );
        if ( op.name == "ExtractChannel" || op.name == "ReplaceChannel" ) a.p1 = r.pick<uint8_t>( { 1, 3, 4, 5, 255 } );
        if ( op.name == "GammaCorrection" ) { if ( r.chance( 50 ) ) a.d1 = -1; else a.d2 = -0.5; }
    }
    for ( int k = 0; k < op.nin; ++k ) { a.in[k] = imgs[k]; a.xi[k] = X[k]; a.yi[k] = Y[k]; }
    if ( !ret ) for ( int k = 0; k < op.nout; ++k ) { a.out[k] = imgs[op.nin + k]; a.xo[k] = X[op.nin + k]; a.yo[k] = Y[op.nin + k]; }

    // are the parameters valid?
    bool ok = true, either = false; // either: both accepting and rejecting are right
    int vi[3], vo[3];
    for ( int k = 0; k < op.nin; ++k ) {
        const bool s = op.in16;
        const uint32_t iw = s ? a.in16->width() : a.in[k]->width(), ih = s ? a.in16->height() : a.in[k]->height();
        if ( whole && k == 0 ) { a.w = iw; a.h = ih; }
        if ( whole && ( iw != a.w || ih != a.h ) ) ok = false;
        if ( whole ) a.xi[k] = a.yi[k] = 0;
        vi[k] = s ? a.in16->colorCount() : a.in[k]->colorCount();
    }
    if ( whole ) {
        if ( !resize ) { a.wo = transpose ? a.h : a.w; a.ho = transpose ? a.w : a.h; }
        else if ( form == 2 ) { a.wo = a.out[0]->width(); a.ho = a.out[0]->height(); }
    }
    for ( int k = 0; k < op.nin; ++k )
        if ( op.in16 ? !regionOk( *a.in16, a.xi[k], a.yi[k], a.w, a.h ) : !regionOk( *a.in[k], a.xi[k], a.yi[k], a.w, a.h ) ) ok = false;
    for ( int k = 0; k < op.nout; ++k ) {
        if ( ret ) { vo[k] = op.rcc( a ); if ( a.wo == 0 || a.ho == 0 ) ok = false; continue; }
        if ( whole ) a.xo[k] = a.yo[k] = 0;
        if ( op.name == "Copy" && form == 2 ) { vo[k] = 0; if ( !sameShape( *a.in[0], *a.out[0] ) ) either = true; continue; } // an assignment: the output may be any image
        if ( op.out16 ? !regionOk( *a.out16, a.xo[k], a.yo[k], a.wo, a.ho ) : !regionOk( *a.out[k], a.xo[k], a.yo[k], a.wo, a.ho ) ) ok = false;
        if ( whole && op.sameSizeWhole && ( a.out[k]->width() != a.wo || a.out[k]->height() != a.ho ) ) ok = false;
        vo[k] = op.out16 ? a.out16->colorCount() : a.out[k]->colorCount();
    }
    if ( ok && !( op.name == "Copy" && form == 2 ) && !op.valid( vi, vo, a ) ) ok = false; // the whole-image copy is an assignment

    note( "%s form %d region %ux%u -> %ux%u p1=%u p2=%u b=%d%d", op.name.c_str(), form, a.w, a.h, a.wo, a.ho, a.p1, a.p2, a.b1, a.b2 );
    for ( int k = 0; k < total; ++k )
        note( " %s%s@%u,%u", k >= op.nin ? "out" : "in", imgs[k] ? desc( *imgs[k] ).c_str() : desc( *i16 ).c_str(), X[k], Y[k] );
    if ( alias ) note( " out is in%d", aliasWith + 1 );
    if ( !ok ) note( " (parameters invalid)" );

    Before b;
    for ( int k = 0; k < op.nin; ++k ) if ( a.in[k] ) b.in[k] = Snap<uint8_t>( *a.in[k] );
    if ( a.in16 ) b.in16 = Snap<uint16_t>( *a.in16 );
    for ( int k = 0; k < op.nout && !ret; ++k ) if ( a.out[k] ) b.out[k] = Snap<uint8_t>( *a.out[k] );
    if ( a.out16 ) b.out16 = Snap<uint16_t>( *a.out16 );

    before();
    bool thrown = false;
    try { op.forms.at( form )( a ); }
    catch ( const penguinVException & ) { thrown = true; }
    if ( thrown && ok && !either ) FAILK( "reject", "valid parameters rejected" );
    if ( !thrown && !ok ) FAILK( "reject", "invalid parameters accepted" );

    for ( int k = 0; k < op.nin; ++k )
        if ( a.in[k] && !( alias && k == aliasWith ) ) compareSame( thrown ? "input after rejected call" : "input", *a.in[k], b.in[k] );
    if ( a.in16 ) compareSame( "input", *a.in16, b.in16 );
    if ( thrown ) {
        for ( int k = 0; k < op.nout && !ret; ++k ) if ( a.out[k] && !alias ) {
            try { compareSame( "output after rejected call", *a.out[k], b.out[k] ); } catch ( Fail & f ) { f.kind = "reject"; throw f; }
        }
        if ( a.out16 ) { try { compareSame( "output after rejected call", *a.out16, b.out16 ); } catch ( Fail & f ) { f.kind = "reject"; throw f; } }
        return;
    }
    if ( ret && op.out16 ) {
        CHECK( "overload", a.rimg16.width() == a.wo && a.rimg16.height() == a.ho && a.rimg16.colorCount() == vo[0] && !a.rimg16.empty(), "returned image is %s", desc( a.rimg16 ).c_str() );
        b.out16 = Snap<uint16_t>( a.rimg16 ); a.out16 = &a.rimg16;
    }
    else if ( ret ) {
        CHECK( "overload", a.rimg.width() == a.wo && a.rimg.height() == a.ho && a.rimg.colorCount() == vo[0] && !a.rimg.empty(), "returned image is %s", desc( a.rimg ).c_str() );
        b.out[0] = Snap<uint8_t>( a.rimg ); a.out[0] = &a.rimg;
    }
    const Ref q{ a, b };
    if ( op.name == "Copy" && form == 2 ) { // assigns the image
        CHECK( "value", a.out[0]->width() == a.w && a.out[0]->height() == a.h && a.out[0]->colorCount() == a.in[0]->colorCount(), "copy has another size" );
        for ( uint32_t y = 0; y < a.h; ++y ) for ( uint32_t x = 0; x < a.w * static_cast<uint32_t>( vi[0] ); ++x )
            CHECK( "value", a.out[0]->data()[size_t( y ) * a.out[0]->rowSize() + x] == b.in[0].b[size_t( y ) * b.in[0].rs + x], "row %u element %u", y, x );
        return;
    }
    for ( int k = 0; k < op.nout; ++k ) {
        if ( op.out16 ) {
            Snap<uint16_t> e = b.out16;
            for ( uint32_t y = 0; y < a.ho; ++y ) for ( uint32_t x = 0; x < a.wo; ++x ) for ( uint32_t c = 0; c < e.cc; ++c ) {
                const int v = op.f( q, k, x, y, c ); if ( v >= 0 ) e.at( a.xo[k] + x, a.yo[k] + y, c ) = static_cast<uint16_t>( v ); }
            compareImage( "output", *a.out16, e, [&]( uint32_t x, uint32_t y ) { return y >= a.yo[k] && y < a.yo[k] + a.ho && x >= a.xo[k] * e.cc && x < ( a.xo[k] + a.wo ) * e.cc; } );
        }
        else {
            Snap<uint8_t> e = b.out[k];
            for ( uint32_t y = 0; y < a.ho; ++y ) for ( uint32_t x = 0; x < a.wo; ++x ) for ( uint32_t c = 0; c < e.cc; ++c ) {
                const int v = op.f( q, k, x, y, c ); if ( v >= 0 ) e.at( a.xo[k] + x, a.yo[k] + y, c ) = static_cast<uint8_t>( v ); }
            compareImage( "output", *a.out[k], e, [&]( uint32_t x, uint32_t y ) { return y >= a.yo[k] && y < a.yo[k] + a.ho && x >= a.xo[k] * e.cc && x < ( a.xo[k] + a.wo ) * e.cc; } );
        }
    }
}
