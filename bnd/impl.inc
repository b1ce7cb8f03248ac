// Included with NS (namespace), IMPL (name prefix), BEFORE (statement run before each call) and HAS_x switches.
#define I0 *a.in[0]
#define I1 *a.in[1]
#define I2 *a.in[2]
#define O0 *a.out[0]
#define R( k ) a.xi[k], a.yi[k]
#define Q( k ) a.xo[k], a.yo[k]
#define WH a.w, a.h
#define BIN( OP ) m[#OP] = { { 1, []( A & a ) { a.rimg = NS::OP( I0, I1 ); } }, { 2, []( A & a ) { NS::OP( I0, I1, O0 ); } }, \
    { 3, []( A & a ) { a.rimg = NS::OP( I0, R( 0 ), I1, R( 1 ), WH ); } }, { 4, []( A & a ) { NS::OP( I0, R( 0 ), I1, R( 1 ), O0, Q( 0 ), WH ); } } };
#define UNA( NAME, OP, ... ) m[NAME] = { { 1, []( A & a ) { a.rimg = NS::OP( I0 __VA_ARGS__ ); } }, { 2, []( A & a ) { NS::OP( I0, O0 __VA_ARGS__ ); } }, \
    { 3, []( A & a ) { a.rimg = NS::OP( I0, R( 0 ), WH __VA_ARGS__ ); } }, { 4, []( A & a ) { NS::OP( I0, R( 0 ), O0, Q( 0 ), WH __VA_ARGS__ ); } } };
#define CM ,

#ifdef IS_OPENCL // these OpenCL functions are defined for gray-scale images only
#define GRAYONLY( i ) ( ( i ).colorCount() == 1 )
#else
#define GRAYONLY( i ) true
#endif
namespace {
std::map<std::string, FormMap> table()
{
    std::map<std::string, FormMap> m;
    BIN( AbsoluteDifference ) BIN( BitwiseAnd ) BIN( BitwiseOr ) BIN( BitwiseXor ) BIN( Maximum ) BIN( Minimum ) BIN( Subtract )
    UNA( "Invert", Invert ) UNA( "Threshold", Threshold, CM a.p1 ) UNA( "Threshold2", Threshold, CM a.p1 CM a.p2 )
    UNA( "ConvertToRgb", ConvertToRgb ) UNA( "Flip", Flip, CM a.b1 CM a.b2 )
#ifndef IS_OPENCL
    UNA( "RgbToBgr", RgbToBgr )
#endif
#ifndef IS_SIMD
    UNA( "ConvertToGrayScale", ConvertToGrayScale ) UNA( "ExtractChannel", ExtractChannel, CM a.p1 ) UNA( "GammaCorrection", GammaCorrection, CM a.d1 CM a.d2 )
    UNA( "LookupTable", LookupTable, CM a.tab ) UNA( "Normalize", Normalize )
#ifndef IS_OPENCL
    UNA( "Transpose", Transpose )
    m["Merge"] = { { 1, []( A & a ) { a.rimg = NS::Merge( I0, I1, I2 ); } }, { 2, []( A & a ) { NS::Merge( I0, I1, I2, O0 ); } },
                   { 3, []( A & a ) { a.rimg = NS::Merge( I0, R( 0 ), I1, R( 1 ), I2, R( 2 ), WH ); } },
                   { 4, []( A & a ) { NS::Merge( I0, R( 0 ), I1, R( 1 ), I2, R( 2 ), O0, Q( 0 ), WH ); } } };
    m["Split"] = { { 2, []( A & a ) { NS::Split( I0, O0, *a.out[1], *a.out[2] ); } },
                   { 4, []( A & a ) { NS::Split( I0, R( 0 ), O0, Q( 0 ), *a.out[1], Q( 1 ), *a.out[2], Q( 2 ), WH ); } } };
    m["Resize"] = { { 1, []( A & a ) { a.rimg = NS::Resize( I0, a.wo, a.ho ); } }, { 2, []( A & a ) { NS::Resize( I0, O0 ); } },
                    { 3, []( A & a ) { a.rimg = NS::Resize( I0, R( 0 ), WH, a.wo, a.ho ); } }, { 4, []( A & a ) { NS::Resize( I0, R( 0 ), WH, O0, Q( 0 ), a.wo, a.ho ); } } };
#endif
#endif
#ifdef HAS_COPY
    m["Copy"] = { { 2, []( A & a ) { NS::Copy( I0, O0 ); } }, { 3, []( A & a ) { a.rimg = NS::Copy( I0, R( 0 ), WH ); } }, { 4, []( A & a ) { NS::Copy( I0, R( 0 ), O0, Q( 0 ), WH ); } } };
#endif
#ifdef HAS_RGBA
    UNA( "RgbToRgba", RgbToRgba ) UNA( "RgbaToRgb", RgbaToRgb )
    m["ReplaceChannel"] = { { 2, []( A & a ) { NS::ReplaceChannel( I0, O0, a.p1 ); } }, { 4, []( A & a ) { NS::ReplaceChannel( I0, R( 0 ), O0, Q( 0 ), WH, a.p1 ); } } };
#endif
#ifdef HAS_16
    m["ConvertTo16Bit"] = { { 1, []( A & a ) { a.rimg16 = NS::ConvertTo16Bit( I0 ); } }, { 2, []( A & a ) { NS::ConvertTo16Bit( I0, *a.out16 ); } },
                            { 3, []( A & a ) { a.rimg16 = NS::ConvertTo16Bit( I0, R( 0 ), WH ); } }, { 4, []( A & a ) { NS::ConvertTo16Bit( I0, R( 0 ), *a.out16, Q( 0 ), WH ); } } };
    m["ConvertTo8Bit"] = { { 1, []( A & a ) { a.rimg = NS::ConvertTo8Bit( *a.in16 ); } }, { 2, []( A & a ) { NS::ConvertTo8Bit( *a.in16, O0 ); } },
                           { 3, []( A & a ) { a.rimg = NS::ConvertTo8Bit( *a.in16, R( 0 ), WH ); } }, { 4, []( A & a ) { NS::ConvertTo8Bit( *a.in16, R( 0 ), O0, Q( 0 ), WH ); } } };
#endif
    return m;
}

// ---- reductions and queries -------------------------------------------------------------------------------------
struct Red {
    std::unique_ptr<Image> i1, i2;
    uint32_t x1 = 0, y1 = 0, x2 = 0, y2 = 0, w = 0, h = 0;
    bool ok = true;
};
bool regOk( const Image & i, uint32_t x, uint32_t y, uint32_t w, uint32_t h )
{
    const int c = i.colorCount();
    return !i.empty() && ( c == 1 || c == 3 || c == 4 ) && w && h && uint64_t( x ) + w <= i.width() && uint64_t( y ) + h <= i.height();
}
// two: also a second image; whole: whole-image form
Red makeRed( Rng & r, int cc1, bool two, int cc2, bool whole, bool tall )
{
    Red d;
    d.w = r.chance( 30 ) ? r.range( 1, 9 ) : ( r.chance( 50 ) ? r.pick<uint32_t>( { 10, 15, 16, 17, 21, 22, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 192 } ) : r.range( 1, 140 ) );
    d.h = r.pick<uint32_t>( { 1, 1, 2, 3, 4, 7, 13 } );
    if ( r.chance( tallBias ) ) { d.h = r.range( 14, tallBias > 3 ? 60 : 300 ); d.w = r.range( 1, 40 ); }
    if ( tall ) { if ( r.chance( 50 ) ) d.w = r.range( 1000, 5000 ); else { d.h = r.range( 300, 700 ); d.w = r.range( 1, 70 ); } }
    const int bad = r.chance( 25 ) ? static_cast<int>( r.range( 1, 12 ) ) : 0;
    const int which = two ? static_cast<int>( r.below( 2 ) ) : 0;
    for ( int k = 0; k < ( two ? 2 : 1 ); ++k ) {
        uint32_t l = 0, rr = 0, t = 0, bo = 0;
        uint8_t al = 1;
        if ( r.chance( 70 ) ) {
            al = r.pick<uint8_t>( { 1, 1, 2, 4, 8, 16, 32, 3 } );
            if ( !whole ) { l = r.below( 5 ); rr = r.below( 5 ); t = r.below( 3 ); bo = r.below( 3 ); }
        }
        int cc = k ? cc2 : cc1;
        uint32_t iw = d.w + l + rr, ih = d.h + t + bo;
        if ( bad && which == k ) {
            if ( bad == 1 ) iw = 0;
            if ( bad == 2 ) cc = r.pick( { 2, 5 } );
            if ( bad == 3 ) cc = cc == 1 ? 3 : 1;
            if ( bad == 4 ) iw += whole ? 1 : 0;
            if ( bad == 5 ) ih += whole ? 1 : 0;
        }
        ( k ? d.i2 : d.i1 ).reset( new Image( iw, ih, static_cast<uint8_t>( cc ), al ) );
        randomise( r, k ? *d.i2 : *d.i1 );
        ( k ? d.x2 : d.x1 ) = l;
        ( k ? d.y2 : d.y1 ) = t;
    }
    if ( tall ) d.i1->fill( static_cast<uint8_t>( 255 - r.below( 2 ) ) );
    if ( !whole ) {
        const uint32_t big = 0xFFFFFFFFu;
        uint32_t & X = which ? d.x2 : d.x1; uint32_t & Y = which ? d.y2 : d.y1;
        switch ( bad ) {
        case 6: d.w = 0; break;
        case 7: d.h = 0; break;
        case 8: X += r.range( 1, 10 ); break;
        case 9: Y += r.range( 1, 6 ); break;
        case 10: X = big - r.below( d.w + 2 ); break;
        case 11: Y = big - r.below( d.h + 2 ); break;
        case 12: if ( r.chance( 50 ) ) d.w = big - r.below( 9 ); else d.h = big - r.below( 9 ); break;
        default: break;
        }
    }
    else { d.w = d.i1->width(); d.h = d.i1->height(); d.x1 = d.y1 = d.x2 = d.y2 = 0; }
    d.ok = regOk( *d.i1, d.x1, d.y1, d.w, d.h ) && ( !two || regOk( *d.i2, d.x2, d.y2, d.w, d.h ) );
    if ( whole && two && ( d.i2->width() != d.w || d.i2->height() != d.h ) ) d.ok = false;
    note( "region %ux%u in1%s@%u,%u", d.w, d.h, desc( *d.i1 ).c_str(), d.x1, d.y1 );
    if ( two ) note( " in2%s@%u,%u", desc( *d.i2 ).c_str(), d.x2, d.y2 );
    return d;
}
template <typename F> bool attempt( const Red & d, bool ok, F call )
{
    if ( !ok ) note( " (parameters invalid)" );
    const Snap<uint8_t> s1( *d.i1 ), s2 = d.i2 ? Snap<uint8_t>( *d.i2 ) : Snap<uint8_t>();
    bool thrown = false;
    BEFORE;
    try { call(); } catch ( const penguinVException & ) { thrown = true; }
    if ( thrown && ok ) FAILK( "reject", "valid parameters rejected" );
    if ( !thrown && !ok ) FAILK( "reject", "invalid parameters accepted" );
    compareSame( "input", *d.i1, s1 );
    if ( d.i2 ) compareSame( "second input", *d.i2, s2 );
    return !thrown;
}
int px( const Image & i, uint32_t x, uint32_t y, uint32_t c ) { return i.data()[size_t( y ) * i.rowSize() + size_t( x ) * i.colorCount() + c]; }
void sameVec( const std::vector<uint32_t> & g, const std::vector<uint32_t> & e )
{
    CHECK( "value", g.size() == e.size(), "result has %zu elements, expected %zu", g.size(), e.size() );
    for ( size_t k = 0; k < e.size(); ++k ) CHECK( "value", g[k] == e[k], "element %zu is %u, expected %u", k, g[k], e[k] );
}
int anyc( Rng & r ) { return r.pick( { 1, 1, 3, 4 } ); }

#ifndef IS_OPENCL
void tSum( Rng & r, bool whole )
{
    Red d = makeRed( r, 1, false, 1, whole, r.chance( 5 ) );
    uint32_t got = 0;
    if ( !attempt( d, d.ok && d.i1->colorCount() == 1, [&]() { got = whole ? NS::Sum( *d.i1 ) : NS::Sum( *d.i1, d.x1, d.y1, d.w, d.h ); } ) ) return;
    uint32_t e = 0;
    for ( uint32_t y = 0; y < d.h; ++y ) for ( uint32_t x = 0; x < d.w; ++x ) e += static_cast<uint32_t>( px( *d.i1, d.x1 + x, d.y1 + y, 0 ) );
    CHECK( "value", got == e, "Sum is %u, expected %u", got, e );
}
#endif
void tProjection( Rng & r, int form )
{
    const bool whole = form < 3, hor = r.chance( 50 );
    Red d = makeRed( r, anyc( r ), false, 1, whole, r.chance( 5 ) );
    note( " horizontal=%d", hor );
    std::vector<uint32_t> p( r.below( 4 ) * 37, 7u );
    if ( !attempt( d, d.ok, [&]() {
        switch ( form ) {
        case 1: p = NS::ProjectionProfile( *d.i1, hor ); break;
        case 2: NS::ProjectionProfile( *d.i1, hor, p ); break;
        case 3: p = NS::ProjectionProfile( *d.i1, d.x1, d.y1, d.w, d.h, hor ); break;
        default: NS::ProjectionProfile( *d.i1, d.x1, d.y1, d.w, d.h, hor, p );
        } } ) ) return;
    const uint32_t cc = d.i1->colorCount();
    std::vector<uint32_t> e( hor ? d.w * cc : d.h, 0u );
    for ( uint32_t y = 0; y < d.h; ++y ) for ( uint32_t x = 0; x < d.w; ++x ) for ( uint32_t c = 0; c < cc; ++c )
        e[hor ? x * cc + c : y] += static_cast<uint32_t>( px( *d.i1, d.x1 + x, d.y1 + y, c ) );
    sameVec( p, e );
}
#ifndef IS_SIMD
void tHistogram( Rng & r, int form )
{
    const bool whole = form < 3;
    Red d = makeRed( r, anyc( r ), false, 1, whole, false );
    std::vector<uint32_t> p( r.below( 4 ) * 111, 9u );
    if ( !attempt( d, d.ok && GRAYONLY( *d.i1 ), [&]() {
        switch ( form ) {
        case 1: p = NS::Histogram( *d.i1 ); break;
        case 2: NS::Histogram( *d.i1, p ); break;
        case 3: p = NS::Histogram( *d.i1, d.x1, d.y1, d.w, d.h ); break;
        default: NS::Histogram( *d.i1, d.x1, d.y1, d.w, d.h, p );
        } } ) ) return;
    const uint32_t cc = d.i1->colorCount();
    std::vector<uint32_t> e( 256 * cc, 0u );
    for ( uint32_t y = 0; y < d.h; ++y ) for ( uint32_t x = 0; x < d.w; ++x ) for ( uint32_t c = 0; c < cc; ++c )
        ++e[static_cast<uint32_t>( px( *d.i1, d.x1 + x, d.y1 + y, c ) ) * cc + c];
    sameVec( p, e );
}
void tIsEqual( Rng & r, bool whole )
{
    const int c = anyc( r );
    Red d = makeRed( r, c, true, c, whole, false );
    const int mode = static_cast<int>( r.below( 4 ) );
    if ( d.ok && d.i1->colorCount() == d.i2->colorCount() && mode ) {
        for ( uint32_t y = 0; y < d.h; ++y )
            memcpy( d.i2->data() + size_t( d.y2 + y ) * d.i2->rowSize() + d.x2 * d.i2->colorCount(), d.i1->data() + size_t( d.y1 + y ) * d.i1->rowSize() + d.x1 * d.i1->colorCount(), d.w * d.i1->colorCount() );
        if ( mode == 1 ) {
            const uint32_t x = r.chance( 40 ) ? d.w * d.i1->colorCount() - 1 : r.below( d.w * d.i1->colorCount() ), y = r.chance( 40 ) ? d.h - 1 : r.below( d.h );
            d.i2->data()[size_t( d.y2 + y ) * d.i2->rowSize() + d.x2 * d.i2->colorCount() + x] ^= static_cast<uint8_t>( 1u << r.below( 8 ) );
        }
    }
    bool got = false;
    if ( !attempt( d, d.ok && d.i1->colorCount() == d.i2->colorCount(), [&]() {
        got = whole ? NS::IsEqual( *d.i1, *d.i2 ) : NS::IsEqual( *d.i1, d.x1, d.y1, *d.i2, d.x2, d.y2, d.w, d.h ); } ) ) return;
    bool e = true;
    for ( uint32_t y = 0; y < d.h; ++y ) for ( uint32_t x = 0; x < d.w; ++x ) for ( uint32_t k = 0; k < d.i1->colorCount(); ++k )
        if ( px( *d.i1, d.x1 + x, d.y1 + y, k ) != px( *d.i2, d.x2 + x, d.y2 + y, k ) ) e = false;
    CHECK( "value", got == e, "IsEqual is %d, expected %d", got, e );
}
#endif
#if defined( HAS_ACC )
void tAccumulate( Rng & r, bool whole )
{
    Red d = makeRed( r, anyc( r ), false, 1, whole, false );
    const size_t need = size_t( d.w ) * d.h * d.i1->colorCount();
    const bool badSize = r.chance( 10 );
    std::vector<uint32_t> v( d.ok ? need + ( badSize ? ( r.chance( 50 ) ? 1u : ( need ? ~size_t( 0 ) : 1u ) ) : 0u ) : 5u );
    for ( auto & t : v ) t = r.chance( 5 ) ? 0xFFFFFFFFu - r.below( 3 ) : r.below( 1000 );
    const std::vector<uint32_t> old = v;
    if ( !attempt( d, d.ok && v.size() == need, [&]() { if ( whole ) NS::Accumulate( *d.i1, v ); else NS::Accumulate( *d.i1, d.x1, d.y1, d.w, d.h, v ); } ) ) {
        if ( v != old ) FAILK( "reject", "accumulator changed by a rejected call" );
        return;
    }
    std::vector<uint32_t> e = old;
    const uint32_t cc = d.i1->colorCount();
    for ( uint32_t y = 0; y < d.h; ++y ) for ( uint32_t x = 0; x < d.w * cc; ++x )
        e[size_t( y ) * d.w * cc + x] += static_cast<uint32_t>( d.i1->data()[size_t( d.y1 + y ) * d.i1->rowSize() + d.x1 * cc + x] );
    sameVec( v, e );
}
#endif
#ifdef HAS_PIXEL
void tFill( Rng & r, bool whole )
{
    Red d = makeRed( r, anyc( r ), false, 1, whole, false );
    const uint8_t v = static_cast<uint8_t>( r.u64() );
    Snap<uint8_t> e( *d.i1 );
    bool thrown = false;
    if ( whole ) d.ok = true; // Image::fill
    else if ( !GRAYONLY( *d.i1 ) ) d.ok = false;
    if ( !d.ok ) note( " (parameters invalid)" );
    try { if ( whole ) NS::Fill( *d.i1, v ); else NS::Fill( *d.i1, d.x1, d.y1, d.w, d.h, v ); } catch ( const penguinVException & ) { thrown = true; }
    if ( thrown != !d.ok ) FAILK( "reject", thrown ? "valid parameters rejected" : "invalid parameters accepted" );
    const uint32_t cc = d.i1->colorCount();
    if ( !thrown && !d.i1->empty() )
        for ( uint32_t y = 0; y < d.h; ++y ) for ( uint32_t x = 0; x < d.w; ++x ) for ( uint32_t c = 0; c < cc; ++c ) e.at( d.x1 + x, d.y1 + y, c ) = v;
    if ( whole && !d.i1->empty() ) { // padding is filled as well
        for ( uint32_t y = 0; y < d.h; ++y ) for ( uint32_t x = 0; x < d.w; ++x ) for ( uint32_t c = 0; c < cc; ++c )
            CHECK( "value", d.i1->data()[size_t( y ) * d.i1->rowSize() + x * cc + c] == v, "pixel %u,%u not filled", x, y );
        return;
    }
    compareImage( "image", *d.i1, e, [&]( uint32_t x, uint32_t y ) { return !thrown && y >= d.y1 && y < d.y1 + d.h && x >= d.x1 * cc && x < ( d.x1 + d.w ) * cc; } );
}
#ifdef IS_OPENCL
#define GETPIXEL
#else
#define GETPIXEL if ( form == 1 ) got = NS::GetPixel( i, x, y ); else
#endif
void tPixel( Rng & r, int form ) // 1 GetPixel 2 SetPixel 3 SetPixel list
{
    Image i( r.below( 20 ) ? r.range( 1, 30 ) : 0, r.range( 1, 12 ), r.chance( 85 ) ? 1 : r.pick<uint8_t>( { 2, 3, 4 } ), r.pick<uint8_t>( { 1, 4, 8 } ) );
    randomise( r, i );
    auto c = [&]( uint32_t n ) { return r.chance( 95 ) && n ? r.below( n ) : ( r.chance( 50 ) ? n : 0xFFFFFFFFu - r.below( 3 ) ); };
    const uint8_t v = static_cast<uint8_t>( r.u64() );
    Snap<uint8_t> s( i );
    note( "%s", desc( i ).c_str() );
    if ( form < 3 ) {
        const uint32_t x = c( i.width() ), y = c( i.height() );
        const bool ok = !i.empty() && i.colorCount() == 1 && x < i.width() && y < i.height();
        note( " x=%u y=%u value=%u", x, y, v );
        bool thrown = false; uint8_t got = 0;
        try { GETPIXEL NS::SetPixel( i, x, y, v ); } catch ( const penguinVException & ) { thrown = true; }
        if ( thrown != !ok ) FAILK( "reject", thrown ? "valid parameters rejected" : "invalid parameters accepted" );
        if ( ok && form == 1 ) CHECK( "value", got == s.at( x, y, 0 ), "GetPixel is %u, expected %u", got, s.at( x, y, 0 ) );
        if ( ok && form == 2 ) s.at( x, y, 0 ) = v;
        compareImage( "image", i, s, [&]( uint32_t a, uint32_t b ) { return ok && a == x && b == y; } );
    }
    else {
        const uint32_t n = r.below( 8 );
        std::vector<uint32_t> X( n ), Y( r.chance( 92 ) ? n : n + 1 );
        for ( auto & t : X ) t = r.chance( 97 ) && i.width() ? r.below( i.width() ) : i.width() + r.below( 2 );
        for ( auto & t : Y ) t = r.chance( 97 ) && i.height() ? r.below( i.height() ) : i.height() + r.below( 2 );
        bool ok = !i.empty() && i.colorCount() == 1 && n && X.size() == Y.size();
        for ( uint32_t k = 0; ok && k < n; ++k ) if ( X[k] >= i.width() || Y[k] >= i.height() ) ok = false;
        note( " %u points", n );
        for ( uint32_t k = 0; k < n && k < Y.size(); ++k ) note( " (%u,%u)", X[k], Y[k] );
        bool thrown = false;
        try { NS::SetPixel( i, X, Y, v ); } catch ( const penguinVException & ) { thrown = true; }
        if ( thrown != !ok ) FAILK( "reject", thrown ? "valid parameters rejected" : "invalid parameters accepted" );
        if ( thrown ) { try { compareSame( "image after rejected call", i, s ); } catch ( Fail & f ) { f.kind = "reject"; throw f; } return; }
        for ( uint32_t k = 0; k < n; ++k ) s.at( X[k], Y[k], 0 ) = v;
        compareImage( "image", i, s, [&]( uint32_t a, uint32_t b ) { for ( uint32_t k = 0; k < n; ++k ) if ( X[k] == a && Y[k] == b ) return true; return false; } );
    }
}
#endif
#ifdef HAS_MASK
void tMaskHistogram( Rng & r, int form )
{
    const bool whole = form < 3;
    Red d = makeRed( r, anyc( r ), true, 1, whole, false );
    for ( size_t k = 0; k < size_t( d.i2->rowSize() ) * d.i2->height(); ++k ) if ( r.chance( 50 ) ) d.i2->data()[k] = 0;
    std::vector<uint32_t> p( r.below( 4 ) * 111, 9u );
    if ( !attempt( d, d.ok && d.i2->colorCount() == 1, [&]() {
        switch ( form ) {
        case 1: p = NS::Histogram( *d.i1, *d.i2 ); break;
        case 2: NS::Histogram( *d.i1, *d.i2, p ); break;
        case 3: p = NS::Histogram( *d.i1, d.x1, d.y1, *d.i2, d.x2, d.y2, d.w, d.h ); break;
        default: NS::Histogram( *d.i1, d.x1, d.y1, *d.i2, d.x2, d.y2, d.w, d.h, p );
        } } ) ) return;
    const uint32_t cc = d.i1->colorCount();
    std::vector<uint32_t> e( 256 * cc, 0u );
    for ( uint32_t y = 0; y < d.h; ++y ) for ( uint32_t x = 0; x < d.w; ++x ) if ( px( *d.i2, d.x2 + x, d.y2 + y, 0 ) ) for ( uint32_t c = 0; c < cc; ++c )
        ++e[static_cast<uint32_t>( px( *d.i1, d.x1 + x, d.y1 + y, c ) ) * cc + c];
    sameVec( p, e );
}
void tIsBinary( Rng & r, bool whole )
{
    Red d = makeRed( r, 1, false, 1, whole, false );
    if ( d.ok && r.chance( 70 ) ) {
        const uint8_t p = static_cast<uint8_t>( r.u64() ), q = r.chance( 50 ) ? 0 : static_cast<uint8_t>( r.u64() );
        for ( uint32_t y = 0; y < d.h; ++y ) for ( uint32_t x = 0; x < d.w; ++x ) d.i1->data()[size_t( d.y1 + y ) * d.i1->rowSize() + ( d.x1 + x ) * d.i1->colorCount()] = r.chance( 50 ) ? p : q;
    }
    bool got = false;
    if ( !attempt( d, d.ok && d.i1->colorCount() == 1, [&]() { got = whole ? NS::IsBinary( *d.i1 ) : NS::IsBinary( *d.i1, d.x1, d.y1, d.w, d.h ); } ) ) return;
    bool seen[256] = {}; int n = 0;
    for ( uint32_t y = 0; y < d.h; ++y ) for ( uint32_t x = 0; x < d.w; ++x ) { bool & s = seen[px( *d.i1, d.x1 + x, d.y1 + y, 0 )]; if ( !s ) ++n; s = true; }
    CHECK( "value", got == ( n < 3 ), "IsBinary is %d with %d different values", got, n );
}
#endif

void regAll( const std::string & impl, std::function<void( Rng & )> before, int cases )
{
    auto defs = std::make_shared<std::vector<OpDef>>( opDefinitions() );
    const auto t = table();
#ifdef IS_OPENCL // gray-scale images only
    for ( auto & d : *defs ) if ( d.name == "GammaCorrection" ) {
        const auto v = d.valid; const auto p = d.pick;
        d.valid = [v]( const int * ci, const int * co, const A & a ) { return ci[0] == 1 && ( !v || v( ci, co, a ) ); };
        d.pick = [p]( Rng & r, int * ci, int * co, A & a ) { p( r, ci, co, a ); ci[0] = co[0] = 1; };
    }
#endif
    for ( auto & d : *defs ) {
        auto it = t.find( d.name );
        if ( it == t.end() ) continue;
        d.forms = it->second;
        for ( auto & f : d.forms ) {
            const OpDef * p = &d; const int form = f.first;
            units().push_back( { impl + "." + d.name + "." + std::to_string( form ), form == 4 ? cases : cases / 3, [defs, p, form, before]( Rng & r ) { before( r ); runOp( r, *p, form, []() { BEFORE; } ); } } );
        }
    }
    auto add = [&]( const char * n, int form, std::function<void( Rng & )> fn, int c ) { units().push_back( { impl + "." + n + "." + std::to_string( form ), c, [before, fn]( Rng & r ) { before( r ); fn( r ); } } ); };
#ifndef IS_OPENCL
    add( "Sum", 1, []( Rng & r ) { tSum( r, true ); }, cases / 3 );
    add( "Sum", 4, []( Rng & r ) { tSum( r, false ); }, cases );
#endif
    for ( int f = 1; f <= 4; ++f ) add( "ProjectionProfile", f, [f]( Rng & r ) { tProjection( r, f ); }, f == 4 ? cases : cases / 3 );
#ifndef IS_SIMD
    for ( int f = 1; f <= 4; ++f ) add( "Histogram", f, [f]( Rng & r ) { tHistogram( r, f ); }, f == 4 ? cases : cases / 3 );
    add( "IsEqual", 1, []( Rng & r ) { tIsEqual( r, true ); }, cases / 2 );
    add( "IsEqual", 4, []( Rng & r ) { tIsEqual( r, false ); }, cases );
#endif
#ifdef HAS_ACC
    add( "Accumulate", 1, []( Rng & r ) { tAccumulate( r, true ); }, cases / 3 );
    add( "Accumulate", 4, []( Rng & r ) { tAccumulate( r, false ); }, cases );
#endif
#ifdef HAS_PIXEL
    add( "Fill", 1, []( Rng & r ) { tFill( r, true ); }, cases / 2 );
    add( "Fill", 4, []( Rng & r ) { tFill( r, false ); }, cases );
#ifndef IS_OPENCL
    add( "GetPixel", 4, []( Rng & r ) { tPixel( r, 1 ); }, cases );
#endif
    add( "SetPixel", 4, []( Rng & r ) { tPixel( r, 2 ); }, cases );
    add( "SetPixel", 5, []( Rng & r ) { tPixel( r, 3 ); }, cases );
#endif
#ifdef HAS_MASK
    for ( int f = 1; f <= 4; ++f ) add( "MaskHistogram", f, [f]( Rng & r ) { tMaskHistogram( r, f ); }, f == 4 ? cases : cases / 3 );
    add( "IsBinary", 1, []( Rng & r ) { tIsBinary( r, true ); }, cases / 3 );
    add( "IsBinary", 4, []( Rng & r ) { tIsBinary( r, false ); }, cases );
#endif
}
}
