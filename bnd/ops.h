// The image operations: how each is called and what it must compute.
#pragma once
#include "core.h"

extern int tallBias;
struct A {
    const Image * in[3] = { nullptr, nullptr, nullptr };
    const Image16Bit * in16 = nullptr;
    Image * out[3] = { nullptr, nullptr, nullptr };
    Image16Bit * out16 = nullptr;
    uint32_t xi[3] = { 0, 0, 0 }, yi[3] = { 0, 0, 0 }, xo[3] = { 0, 0, 0 }, yo[3] = { 0, 0, 0 };
    uint32_t w = 0, h = 0;   // region
    uint32_t wo = 0, ho = 0; // output region of Resize
    uint8_t p1 = 0, p2 = 0;
    bool b1 = false, b2 = false;
    double d1 = 0, d2 = 0;
    std::vector<uint8_t> tab;
    Image rimg;
    Image16Bit rimg16;
};

// everything the definition may read: the state before the call
struct Before {
    Snap<uint8_t> in[3], out[3];
    Snap<uint16_t> in16, out16;
};
struct Ref { // position-relative access
    const A & a; const Before & b;
    int I( int k, uint32_t x, uint32_t y, uint32_t c ) const { return b.in[k].at( a.xi[k] + x, a.yi[k] + y, c ); }
    int I16( uint32_t x, uint32_t y, uint32_t c ) const { return b.in16.at( a.xi[0] + x, a.yi[0] + y, c ); }
    int ccIn( int k ) const { return b.in[k].cc; }
};
struct OpDef {
    std::string name;
    int nin = 1, nout = 1;
    bool in16 = false, out16 = false;
    bool inplace = false;
    bool sameSizeWhole = true;                                       // whole-image form needs equal sizes
    std::function<bool( const int * ci, const int * co, const A & )> valid; // channel / parameter condition (region conditions are common)
    std::function<void( Rng &, int * ci, int * co, A & )> pick;     // valid channels and parameters
    std::function<int( const A & )> rcc;                            // channels of a returned image
    std::function<int( const Ref &, int o, uint32_t x, uint32_t y, uint32_t c )> f; // value of an output component (-1: unchanged)
    std::map<int, std::function<void( A & )>> forms;
};

using FormMap = std::map<int, std::function<void( A & )>>;
// implementations fill: op name -> forms (1: in -> ret, 2: in,out, 3: region -> ret, 4: full)
std::vector<OpDef> opDefinitions();
void runOp( Rng & r, const OpDef & op, int form, const std::function<void()> & before );
