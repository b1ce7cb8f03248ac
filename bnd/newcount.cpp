#include "newcount.h"
#include <cstdlib>
#include <new>
long liveArrays = 0; void * lastArray = nullptr; size_t lastArraySize = 0; bool failArrays = false;
void * operator new[]( size_t n ) { if ( failArrays ) throw std::bad_alloc(); void * p = malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc(); ++liveArrays; lastArray = p; lastArraySize = n; return p; }
void operator delete[]( void * p ) noexcept { if ( p ) { --liveArrays; free( p ); } }
void operator delete[]( void * p, size_t ) noexcept { if ( p ) { --liveArrays; free( p ); } }
