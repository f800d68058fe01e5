// Bit-vector expressions (width 1..64), hash-consed and simplified.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

enum K : uint8_t {
    CONST, SYM, ADD, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR,
    ASHR, ZEXT, SEXT, EXTRACT, CONCAT, ITE, EQ, ULT, ULE, SLT, SLE, UMULOV
};
struct Expr {
    K k;
    uint8_t w;
    uint32_t id;
    uint64_t c; // const value, symbol number, or extract's low bit
    const Expr *a, *b, *d;
    uint64_t lo = 0, hi = 0;   // unsigned bounds of the value, always valid
    mutable Z3_ast z = nullptr;
    mutable Z3_ast zi = nullptr; // as an integer
    mutable uint64_t ev = 0;   // evaluation memo
    mutable uint32_t ep = 0;   // its epoch
};
typedef const Expr *E;

static inline uint64_t mask(unsigned w) {
    return w >= 64 ? ~0ull : ((1ull << w) - 1);
}
static inline int64_t sx(uint64_t v, unsigned w) {
    if (w >= 64)
        return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= mask(w);
    return (int64_t)((v ^ m) - m);
}

struct ExprKey {
    K k;
    uint8_t w;
    uint64_t c;
    E a, b, d;
    bool operator==(const ExprKey &o) const {
        return k == o.k && w == o.w && c == o.c && a == o.a && b == o.b &&
               d == o.d;
    }
};
struct ExprHash {
    size_t operator()(const ExprKey &x) const {
        uint64_t h = x.k * 0x9E3779B97F4A7C15ull + x.w;
        auto mix = [&](uint64_t v) {
            h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
            h *= 0xff51afd7ed558ccdull;
            h ^= h >> 33;
        };
        mix(x.c);
        mix(x.a ? x.a->id : 0);
        mix(x.b ? x.b->id : 0);
        mix(x.d ? x.d->id : 0);
        return h;
    }
};
extern std::unordered_map<ExprKey, E, ExprHash> g_exprs;
E raw(K k, unsigned w, uint64_t c, E a = nullptr, E b = nullptr,
      E d = nullptr);
E cst(unsigned w, uint64_t v);
E symb(uint64_t n, unsigned w, uint64_t lo = 0, uint64_t hi = ~0ull);
void lin_terms(E e, std::vector<std::pair<E, int64_t>> &t, int64_t &k);
bool lin_bounds(E e, __int128 &lo, __int128 &hi);
E mkbin(K k, E a, E b);
E mkadd(E a, E b);
E mksub(E a, E b);
E mkneg(E a);
E mknot(E a); // boolean (1-bit) or bitwise
E mkzext(E a, unsigned w);
E mksext(E a, unsigned w);
E mkextract(E a, unsigned lo, unsigned w);
E mkconcat(E hi, E lo);
E mkite(E c, E a, E b);
E mkeq(E a, E b);
E mkcmp(K k, E a, E b);
static inline bool isc(E e) { return e->k == CONST; }
uint64_t foldbin(K k, unsigned w, uint64_t a, uint64_t b);
std::string estr(E e, int depth = 4);
