// usage: prog list | prog run UNIT SEED FROM TO PROGRESSFILE
#include "core.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <exception>
#include <unordered_set>
std::vector<Unit> & units() { static std::vector<Unit> u; return u; }
static char * g_note = nullptr; // shared: case number and description survive a crash
static char g_buf[8192];
void note( const char * f, ... )
{
    size_t n = strlen( g_note );
    if ( n > 7000 ) return;
    va_list v; va_start( v, f ); vsnprintf( g_note + n, 8192 - n, f, v ); va_end( v );
}
int main( int argc, char ** argv )
{
    g_note = g_buf;
    if ( argc >= 2 && !strcmp( argv[1], "list" ) ) {
        for ( auto & u : units() ) printf( "%s %d\n", u.name.c_str(), u.cases );
        return 0;
    }
    if ( argc < 7 ) return 2;
    const std::string unit = argv[2];
    const uint64_t seed = strtoull( argv[3], nullptr, 10 );
    const long from = atol( argv[4] ), to = atol( argv[5] );
    int fd = open( argv[6], O_RDWR | O_CREAT | O_TRUNC, 0600 );
    if ( fd < 0 || ftruncate( fd, 8192 ) ) return 2;
    g_note = static_cast<char *>( mmap( nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
    for ( auto & u : units() ) {
        if ( u.name != unit ) continue;
        uint64_t hsh = 1469598103934665603ull;
        for ( char c : unit ) hsh = ( hsh ^ uint8_t( c ) ) * 1099511628211ull;
        std::unordered_set<uint64_t> distinct; // descriptions of valid cases
        long valid = 0;
        std::string sample;
        for ( long k = from; k < to; ++k ) {
            snprintf( g_note, 8192, "case %ld:", k );
            alarm( 60 );
            Rng r( hsh ^ ( seed * 1000003ull + uint64_t( k ) ) );
            try { u.run( r ); }
            catch ( const Fail & f ) {
                printf( "FAIL kind=%s %s | %s\n", f.kind.c_str(), g_note, f.msg.c_str() );
                return 1;
            }
            catch ( const std::exception & e ) {
                printf( "FAIL kind=reject %s | unexpected exception: %s\n", g_note, e.what() );
                return 1;
            }
            const char * text = strchr( g_note, ':' );
            if ( text && !strstr( text, "(parameters invalid)" ) ) {
                ++valid;
                uint64_t hh = 1469598103934665603ull;
                for ( const char * q = text; *q; ++q ) hh = ( hh ^ uint8_t( *q ) ) * 1099511628211ull;
                distinct.insert( hh );
                if ( sample.empty() || k == to / 2 ) sample = text + 1;
            }
        }
        printf( "OK %ld valid %ld distinct %zu sample %s\n", to - from, valid, distinct.size(), sample.substr( 0, 300 ).c_str() );
        fflush( stdout );
        return 0;
    }
    return 2;
}
