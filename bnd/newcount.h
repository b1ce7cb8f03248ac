// counts live arrays and remembers the newest one
#pragma once
#include <cstddef>
extern long liveArrays; extern void * lastArray; extern size_t lastArraySize;
extern bool failArrays; // the next allocations of arrays fail
