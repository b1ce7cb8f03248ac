// Bitmap files: round trips of regions, and generated files against an independent reading of the headers.
#include "core.h"
#include "file/bmp_image.h"
#include <fstream>
#include <stdlib.h>
#include <unistd.h>
namespace {
struct Dir { std::string p; Dir() { char t[] = "/tmp/bmpXXXXXX"; if ( mkdtemp( t ) ) p = t; } ~Dir() { unlink( ( p + "/a.bmp" ).c_str() ); rmdir( p.c_str() ); } std::string file() const { return p + "/a.bmp"; } };
const std::string & path() { static Dir d; static std::string f = d.file(); return f; }
using Bytes = std::vector<uint8_t>;
void put( Bytes & b, size_t o, uint64_t v, int n ) { if ( b.size() < o + n ) b.resize( o + n ); for ( int i = 0; i < n; ++i ) b[o + i] = uint8_t( v >> ( 8 * i ) ); }
uint64_t get( const Bytes & b, size_t o, int n ) { uint64_t v = 0; for ( int i = 0; i < n; ++i ) v |= uint64_t( b[o + i] ) << ( 8 * i ); return v; }
void writeFile( const Bytes & b ) { std::ofstream f( path(), std::ios::binary | std::ios::trunc ); f.write( reinterpret_cast<const char *>( b.data() ), std::streamsize( b.size() ) ); }
Bytes readFile() { std::ifstream f( path(), std::ios::binary ); return Bytes( std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() ); }
Bytes grayPalette() { Bytes p( 1024 ); for ( int i = 0; i < 256; ++i ) p[4 * i] = p[4 * i + 1] = p[4 * i + 2] = uint8_t( i ); return p; }

// what the headers say; ok = a file this library has to load, maybe = well formed in the parts the library looks at
struct Meaning { bool maybe = false, ok = false, topDown = false, palette = false; uint32_t w = 0, h = 0; int bytes = 0; size_t off = 0, row = 0; };
Meaning parse( const Bytes & b )
{
    Meaning m;
    if ( b.size() < 26 || get( b, 0, 2 ) != 0x4D42 ) return m;
    m.off = size_t( get( b, 10, 4 ) );
    const uint64_t dib = get( b, 14, 4 );
    uint64_t bits = 0, planes = 0; int64_t w = 0, h = 0; uint64_t imageSize = 0, compress = 0;
    if ( dib == 12 ) { w = int64_t( get( b, 18, 2 ) ); h = int64_t( get( b, 20, 2 ) ); planes = get( b, 22, 2 ); bits = get( b, 24, 2 ); }
    else if ( dib == 40 && b.size() >= 54 ) {
        w = int32_t( get( b, 18, 4 ) ); h = int32_t( get( b, 22, 4 ) ); planes = get( b, 26, 2 ); bits = get( b, 28, 2 ); compress = get( b, 30, 4 ); imageSize = get( b, 34, 4 );
    }
    else return m;
    if ( h < 0 ) { m.topDown = true; h = -h; }
    if ( w <= 0 || h <= 0 || planes != 1 || ( bits != 8 && bits != 24 && bits != 32 ) || m.off < 14 + dib || m.off >= b.size() ) return m;
    m.bytes = int( bits / 8 ); m.w = uint32_t( w ); m.h = uint32_t( h );
    const unsigned __int128 row = ( ( unsigned __int128 )( w ) * ( bits / 8 ) + 3 ) / 4 * 4;
    if ( row * h + m.off != b.size() ) return m;
    m.row = size_t( row );
    if ( imageSize != 0 && imageSize != uint64_t( row * h ) ) return m;
    m.maybe = true; m.ok = compress == 0;
    if ( bits == 8 && m.off - 14 - dib == 1024 ) m.palette = !std::equal( b.begin() + 14 + long( dib ), b.begin() + 14 + long( dib ) + 1024, grayPalette().begin() );
    return m;
}
void checkLoaded( const Bytes & b, const Image & i, bool mustLoad )
{
    const Meaning m = parse( b );
    if ( i.empty() ) { CHECK( "value", !( mustLoad && m.ok ), "valid file %ux%u %d bits of %zu bytes is not loaded", m.w, m.h, m.bytes * 8, b.size() ); return; }
    CHECK( "value", m.maybe, "malformed file of %zu bytes loaded as %s", b.size(), desc( i ).c_str() );
    const int cc = m.palette ? 3 : m.bytes;
    CHECK( "value", i.width() == m.w && i.height() == m.h && i.colorCount() == cc, "loaded %s, the headers say %ux%u with %d channels", desc( i ).c_str(), m.w, m.h, cc );
    CHECK( "value", i.rowSize() >= m.w * cc, "row size %u too small", i.rowSize() );
    const size_t pal = 14 + size_t( get( b, 14, 4 ) );
    for ( uint32_t y = 0; y < m.h; ++y ) {
        const uint8_t * src = b.data() + m.off + m.row * ( m.topDown ? y : m.h - 1 - y );
        const uint8_t * got = i.data() + size_t( i.rowSize() ) * y;
        for ( uint32_t x = 0; x < m.w; ++x )
            for ( int c = 0; c < cc; ++c ) {
                const uint8_t e = m.palette ? b[pal + 4u * src[x] + c] : src[size_t( x ) * cc + c];
                CHECK( "value", got[size_t( x ) * cc + c] == e, "pixel (%u,%u) channel %d is %u, the file says %u", x, y, c, got[size_t( x ) * cc + c], e );
            }
    }
}
Image load( Rng & r )
{
    if ( r.chance( 50 ) ) return Bitmap_Operation::Load( path() );
    Image i( r.below( 4 ), r.below( 4 ) ); Bitmap_Operation::Load( path(), i ); return i;
}
uint32_t dim( Rng & r ) { return r.chance( 60 ) ? r.range( 1, 6 ) : r.range( 1, 70 ); }
void roundTrip( Rng & r )
{
    const uint8_t cc = r.pick<uint8_t>( { 1, 1, 3, 3, 4 } );
    const bool whole = r.chance( 30 );
    uint32_t w = dim( r ), h = dim( r ); if ( r.chance( 2 ) ) h = r.range( 100, 700 ); if ( r.chance( 2 ) ) w = r.range( 100, 3000 );
    const uint32_t l = whole ? 0 : r.below( 5 ), t = whole ? 0 : r.below( 5 );
    Image in( w + l + ( whole ? 0 : r.below( 4 ) ), h + t + ( whole ? 0 : r.below( 4 ) ), cc, r.pick<uint8_t>( { 1, 1, 2, 4, 8, 16, 32, 3 } ) );
    randomise( r, in );
    Snap<uint8_t> s( in );
    note( "%s region %u,%u %ux%u; ", desc( in ).c_str(), l, t, w, h );
    if ( whole && r.chance( 50 ) ) Bitmap_Operation::Save( path(), in ); else Bitmap_Operation::Save( path(), in, l, t, w, h );
    compareSame( "saved image", in, s );
    const Image out = load( r );
    CHECK( "value", !out.empty(), "the saved file is not loaded" );
    CHECK( "value", out.width() == w && out.height() == h && out.colorCount() == cc, "loaded %s after saving %ux%u with %u channels", desc( out ).c_str(), w, h, cc );
    for ( uint32_t y = 0; y < h; ++y )
        for ( uint32_t e = 0; e < w * cc; ++e )
            CHECK( "value", out.data()[size_t( y ) * out.rowSize() + e] == s.b[size_t( y + t ) * s.rs + size_t( l ) * cc + e], "row %u element %u is %u after the round trip, %u before", y, e,
                   out.data()[size_t( y ) * out.rowSize() + e], s.b[size_t( y + t ) * s.rs + size_t( l ) * cc + e] );
    checkLoaded( readFile(), out, true );
}
void badSave( Rng & r )
{
    const uint8_t cc = r.pick<uint8_t>( { 1, 3, 4 } );
    Image in( dim( r ), dim( r ), cc ); randomise( r, in );
    if ( r.chance( 10 ) ) in = Image();
    uint32_t x = 0, y = 0, w = in.width(), h = in.height();
    switch ( r.below( 8 ) ) {
    case 0: w = 0; break;
    case 1: h = 0; break;
    case 2: x = w; break;
    case 3: y = h; break;
    case 4: w += r.range( 1, 3 ); break;
    case 5: h += r.range( 1, 3 ); break;
    case 6: x = 2; w = 0xFFFFFFFFu - r.below( 4 ); break;
    default: y = 3; h = 0xFFFFFFFFu - r.below( 5 ); break;
    }
    note( "%s region %u,%u %ux%u; ", desc( in ).c_str(), x, y, w, h );
    bool thrown = false;
    try { Bitmap_Operation::Save( path(), in, x, y, w, h ); } catch ( const penguinVException & ) { thrown = true; }
    CHECK( "reject", thrown, "invalid region accepted" );
}
Bytes generate( Rng & r )
{
    Bytes b( 14, 0 );
    const bool core = r.chance( 25 );
    const int bits = r.pick<int>( { 8, 8, 8, 24, 24, 32 } );
    uint32_t w = dim( r ), h = dim( r ); if ( r.chance( 3 ) ) w = r.range( 100, 900 );
    const bool top = !core && r.chance( 40 );
    put( b, 0, 0x4D42, 2 );
    if ( core ) { put( b, 14, 12, 4 ); put( b, 18, w, 2 ); put( b, 20, h, 2 ); put( b, 22, 1, 2 ); put( b, 24, bits, 2 ); }
    else {
        put( b, 14, 40, 4 ); put( b, 18, w, 4 ); put( b, 22, top ? uint32_t( -int32_t( h ) ) : h, 4 ); put( b, 26, 1, 2 ); put( b, 28, bits, 2 );
        put( b, 34, r.chance( 50 ) ? 0 : ( w * bits / 8 + 3 ) / 4 * 4 * h, 4 ); put( b, 38, r.u64(), 4 ); put( b, 42, r.u64(), 4 ); put( b, 46, 0, 8 );
    }
    const int pal = bits == 8 ? int( r.below( 4 ) ) : r.chance( 15 ) ? 4 : 3;
    if ( pal == 0 ) { const Bytes p = grayPalette(); b.insert( b.end(), p.begin(), p.end() ); if ( r.chance( 30 ) ) b[b.size() - 1 - r.below( 1024 )] ^= 1; }
    else if ( pal < 3 && !core ) for ( int i = 0; i < 1024; ++i ) b.push_back( uint8_t( r.u64() ) );
    else if ( pal == 4 ) for ( uint32_t i = r.range( 1, 300 ); i; --i ) b.push_back( uint8_t( r.u64() ) );
    put( b, 10, b.size(), 4 );
    const size_t n = size_t( ( w * bits / 8 + 3 ) / 4 * 4 ) * h;
    for ( size_t i = 0; i < n; ++i ) b.push_back( uint8_t( r.u64() ) );
    put( b, 2, r.chance( 90 ) ? b.size() : r.u64(), 4 );
    note( "%s %d bits %ux%u%s palette kind %d, %zu bytes; ", core ? "core" : "info", bits, w, h, top ? " top-down" : "", pal, b.size() );
    return b;
}
void valid( Rng & r ) { const Bytes b = generate( r ); writeFile( b ); checkLoaded( b, load( r ), true ); }
void malformed( Rng & r )
{
    Bytes b = generate( r );
    for ( uint32_t k = r.range( 1, 3 ); k; --k ) {
        const uint32_t what = r.below( 10 );
        if ( what == 0 ) { b.resize( r.below( uint32_t( b.size() ) + 1 ) ); note( "cut to %zu; ", b.size() ); }
        else if ( what == 1 ) { for ( uint32_t n = r.range( 1, 9 ); n; --n ) b.push_back( uint8_t( r.u64() ) ); note( "extended to %zu; ", b.size() ); }
        else if ( what == 2 ) { const uint32_t n = std::min<uint32_t>( 54, uint32_t( b.size() ) ); if ( n ) { const uint32_t o = r.below( n ); b[o] = uint8_t( r.u64() ); note( "byte %u = %u; ", o, b[o] ); } }
        else {
            struct F { int o, n; }; const F f = r.pick<F>( { { 0, 2 }, { 10, 4 }, { 10, 4 }, { 14, 4 }, { 18, 4 }, { 22, 4 }, { 18, 2 }, { 20, 2 }, { 22, 2 }, { 24, 2 }, { 26, 2 }, { 28, 2 }, { 30, 4 }, { 34, 4 } } );
            if ( b.size() < size_t( f.o + f.n ) ) continue;
            uint64_t v = get( b, f.o, f.n );
            switch ( r.below( 4 ) ) {
            case 0: v += r.range( 1, 3 ) * ( r.chance( 50 ) ? 1 : ~0ull ); break;
            case 1: v = r.pick<uint64_t>( { 0, 1, 8, 12, 14, 16, 24, 26, 32, 40, 54, 0x7FFF, 0x8000, 0xFFFF, 0x55555556u, 0x7FFFFFFF, 0x80000000u, 0x80000001u, 0xFFFFFFFFu, 0x40000000u, 0x40000001u, 0x10000, 0x10001 } ); break;
            case 2: v = r.u64(); break;
            default: v = ~v + 1; break;
            }
            put( b, f.o, v, f.n ); note( "field %d = %llu; ", f.o, static_cast<unsigned long long>( get( b, f.o, f.n ) ) );
        }
    }
    if ( r.chance( 15 ) && b.size() > 54 && get( b, 14, 4 ) == 40 ) { // sizes which agree only in 32 bits
        const int bits = int( get( b, 28, 2 ) ); const uint32_t cc = bits == 24 ? 3 : bits == 32 ? 4 : 1;
        const uint32_t w = r.pick<uint32_t>( { 0x40000000u, 0x40000001u, 0x55555556u, 0x7FFFFFFFu, 0x10000u, 0x20000u, 0x10001u } ), h = r.pick<uint32_t>( { 1, 2, 3, 4, 0x10000u, 0x8000u, 0x7FFFFFFFu } );
        const uint32_t row = ( w * cc + 3 ) / 4 * 4, total = row * h;
        const size_t off = size_t( get( b, 10, 4 ) );
        if ( off >= 54 && off < b.size() && total < 100000 ) {
            put( b, 18, w, 4 ); put( b, 22, h, 4 ); put( b, 34, r.chance( 50 ) ? 0 : total, 4 ); b.resize( off + total ); note( "wrapped %ux%u; ", w, h );
        }
    }
    writeFile( b ); checkLoaded( b, load( r ), true );
}
void noFile( Rng & r )
{
    bool thrown = false;
    try { Bitmap_Operation::Load( std::string() ); } catch ( const penguinVException & ) { thrown = true; }
    CHECK( "reject", thrown, "an empty path is accepted" );
    unlink( path().c_str() );
    CHECK( "value", load( r ).empty(), "a missing file is loaded" );
    writeFile( {} ); CHECK( "value", load( r ).empty(), "an empty file is loaded" );
    Image in( 3, 3 ); randomise( r, in ); thrown = false;
    try { Bitmap_Operation::Save( path() + ".no/a.bmp", in ); } catch ( const penguinVException & ) { thrown = true; }
    CHECK( "reject", thrown, "saving into a missing directory is not reported" );
}
const Reg a1( "bmp.roundtrip", 1500, roundTrip ), a2( "bmp.badsave", 400, badSave ), a3( "bmp.valid", 1500, valid ), a4( "bmp.malformed", 6000, malformed ), a5( "bmp.nofile", 20, noFile );
}
