// The OpenCL functions driven from CPU images: upload, call, download.
#include "ops.h"
#include "image_function_helper.h"
#include "opencl/image_buffer_opencl.h"
#include "opencl/image_function_opencl.h"
#include "opencl/opencl_device.h"
#include "opencl/opencl_helper.h"
#include <memory>
#include <utility>

using penguinV::ImageOpenCL;
namespace OCL {
namespace G = Image_Function_OpenCL;
void setup()
{
    static bool done = false;
    if ( done ) return;
    multiCL::enableDeviceSupport( true, true ); // a CPU device serves
    multiCL::OpenCLDeviceManager & m = multiCL::OpenCLDeviceManager::instance();
    m.initializeDevices();
    if ( m.deviceCount() == 0u ) { fprintf( stderr, "no OpenCL device\n" ); exit( 2 ); }
    m.setActiveDevice( 0 );
    multiCL::MemoryManager::memory().reserve( 32 * 1024 * 1024 );
    done = true;
}
size_t bytes( const Image & i ) { return size_t( i.rowSize() ) * i.height(); }
void put( const Image & host, Image & dev ) { if ( !host.empty() ) multiCL::writeBuffer( reinterpret_cast<cl_mem>( dev.data() ), bytes( host ), host.data() ); }
void get( const Image & dev, uint8_t * to ) { if ( !dev.empty() ) multiCL::readBuffer( reinterpret_cast<cl_mem>( const_cast<uint8_t *>( dev.data() ) ), bytes( dev ), to ); }
struct Session {
    struct E { const Image * host; Image * out; std::unique_ptr<ImageOpenCL> dev; };
    std::vector<E> all;
    Image & use( const Image & h, Image * out )
    {
        for ( auto & e : all ) if ( e.host == &h ) { if ( out ) e.out = out; return *e.dev; }
        E e; e.host = &h; e.out = out;
        e.dev.reset( new ImageOpenCL( h.width(), h.height(), h.colorCount(), h.alignment() ) );
        put( h, *e.dev );
        all.push_back( std::move( e ) );
        return *all.back().dev;
    }
    const Image & in( const Image & h ) { return use( h, nullptr ); }
    Image & out( Image & h ) { return use( h, &h ); }
    void back()
    {
        for ( auto & e : all ) {
            if ( e.out ) { // the function may have replaced the image (Copy)
                if ( e.dev->width() != e.host->width() || e.dev->height() != e.host->height() || e.dev->colorCount() != e.host->colorCount() || e.dev->rowSize() != e.host->rowSize() ) {
                    Image t( e.dev->width(), e.dev->height(), e.dev->colorCount(), e.dev->alignment() );
                    if ( !t.empty() && t.rowSize() != e.dev->rowSize() ) throw Fail{ "value", "row size of the device image changed" };
                    e.out->swap( t );
                }
                get( *e.dev, e.out->data() );
            }
            else if ( !e.host->empty() ) {
                std::vector<uint8_t> v( bytes( *e.host ) );
                get( *e.dev, v.data() );
                if ( memcmp( v.data(), e.host->data(), v.size() ) ) throw Fail{ "frame", "input image on the device changed" };
            }
        }
    }
    Image image( const Image & dev )
    {
        if ( dev.empty() ) return Image();
        if ( dev.alignment() == 1 ) return G::ConvertFromOpenCL( dev );
        Image t( dev.width(), dev.height(), dev.colorCount(), dev.alignment() );
        get( dev, t.data() );
        return t;
    }
};
template <typename F> auto run( F f )
{
    setup();
    Session s;
    struct K { };
    try { if constexpr ( std::is_same<decltype( f( s ) ), void>::value ) { f( s ); s.back(); return; } else { auto v = f( s ); s.back(); return v; } }
    catch ( const penguinVException & ) { s.back(); throw; }
}
// how each argument travels
inline const Image & pass( Session & s, const Image & i, int ) { return s.in( i ); }
inline Image & pass( Session & s, Image & i, int ) { return s.out( i ); }
template <typename T, typename = typename std::enable_if<!std::is_base_of<Image, typename std::decay<T>::type>::value>::type> T && pass( Session &, T && t, long ) { return std::forward<T>( t ); }
inline Image result( Session & s, Image && v ) { return s.image( v ); }
template <typename T> T result( Session &, T && v ) { return std::forward<T>( v ); }
#define WRAP( NAME ) template <typename... T> auto NAME( T &&... t ) { return run( [&]( Session & s ) { \
    using R = decltype( G::NAME( pass( s, std::forward<T>( t ), 0 )... ) ); \
    if constexpr ( std::is_same<R, void>::value ) G::NAME( pass( s, std::forward<T>( t ), 0 )... ); else return result( s, G::NAME( pass( s, std::forward<T>( t ), 0 )... ) ); } ); }
WRAP( AbsoluteDifference ) WRAP( BitwiseAnd ) WRAP( BitwiseOr ) WRAP( BitwiseXor ) WRAP( Maximum ) WRAP( Minimum ) WRAP( Subtract )
WRAP( Invert ) WRAP( Threshold ) WRAP( ConvertToRgb ) WRAP( ConvertToGrayScale ) WRAP( Flip ) WRAP( ExtractChannel ) WRAP( GammaCorrection )
WRAP( LookupTable ) WRAP( Normalize ) WRAP( Copy ) WRAP( ProjectionProfile ) WRAP( Histogram ) WRAP( IsEqual ) WRAP( Fill ) WRAP( SetPixel )
}
#define NS OCL
#define BEFORE
#define IS_OPENCL
#define HAS_COPY
#define HAS_PIXEL
#include "impl.inc"
namespace {
void tConvert( Rng & r, bool to, bool form2 ) // upload / download by the library
{
    OCL::setup();
    const int c = anyc( r );
    Image a( r.below( 12 ) ? r.range( 1, 70 ) : 0, r.range( 1, 20 ), static_cast<uint8_t>( c ), r.pick<uint8_t>( { 1, 1, 4, 8, 16 } ) );
    randomise( r, a );
    ImageOpenCL d( a.width(), a.height(), a.colorCount(), to ? r.pick<uint8_t>( { 1, 1, 2, 8, 32 } ) : a.alignment() );
    note( "%s %s form %d", to ? "to device" : "from device", desc( a ).c_str(), form2 ? 2 : 1 );
    if ( !to ) OCL::put( a, d );
    const Snap<uint8_t> s( a );
    bool thrown = false, ok = !a.empty();
    Image res;
    Image b( a.width(), a.height(), a.colorCount(), r.pick<uint8_t>( { 1, 1, 2, 8, 32 } ) );
    if ( r.chance( 15 ) && form2 ) { if ( to ) d.resize( a.width() + 1, a.height() ); else b.resize( a.width() + 1, a.height() ); ok = false; note( " (parameters invalid)" ); }
    else if ( !ok ) note( " (parameters invalid)" );
    try {
        if ( to ) { if ( form2 ) Image_Function_OpenCL::ConvertToOpenCL( a, d ); else { ImageOpenCL x; static_cast<Image &>( x ) = Image_Function_OpenCL::ConvertToOpenCL( a ); d = x; } }
        else if ( form2 ) Image_Function_OpenCL::ConvertFromOpenCL( d, b );
        else res = Image_Function_OpenCL::ConvertFromOpenCL( d );
    } catch ( const penguinVException & ) { thrown = true; }
    if ( thrown != !ok ) FAILK( "reject", thrown ? "valid parameters rejected" : "invalid parameters accepted" );
    compareSame( "host image", a, s );
    if ( thrown ) return;
    if ( to ) {
        CHECK( "value", d.width() == a.width() && d.height() == a.height() && d.colorCount() == a.colorCount(), "device image is %s", desc( d ).c_str() );
        std::vector<uint8_t> v( OCL::bytes( d ) );
        OCL::get( d, v.data() );
        for ( uint32_t y = 0; y < a.height(); ++y ) for ( uint32_t x = 0; x < a.width() * a.colorCount(); ++x )
            CHECK( "value", v[size_t( y ) * d.rowSize() + x] == a.data()[size_t( y ) * a.rowSize() + x], "device component %u of row %u is wrong", x, y );
    }
    else {
        const Image & t = form2 ? b : res;
        CHECK( "value", t.width() == a.width() && t.height() == a.height() && t.colorCount() == a.colorCount(), "host image is %s", desc( t ).c_str() );
        for ( uint32_t y = 0; y < a.height(); ++y ) for ( uint32_t x = 0; x < a.width() * a.colorCount(); ++x )
            CHECK( "value", t.data()[size_t( y ) * t.rowSize() + x] == a.data()[size_t( y ) * a.rowSize() + x], "component %u of row %u is wrong", x, y );
    }
}
int reg()
{
    regAll( "opencl", []( Rng & ) {}, 600 );
    for ( int f = 1; f <= 2; ++f ) {
        units().push_back( { "opencl.ConvertToOpenCL." + std::to_string( f ), 400, [f]( Rng & r ) { tConvert( r, true, f == 2 ); } } );
        units().push_back( { "opencl.ConvertFromOpenCL." + std::to_string( f ), 400, [f]( Rng & r ) { tConvert( r, false, f == 2 ); } } );
    }
    return 0;
}
const int registered = reg();
}
