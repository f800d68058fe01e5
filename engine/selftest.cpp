// Random expressions built through the simplifier agree, on random and
// boundary assignments, with direct evaluation of the same operations.
#include "expr.h"
#include <random>
static std::mt19937_64 rng(12345);
static uint64_t vals[8];
struct P { E e; uint64_t v; };
static uint64_t ev(E e) {
    switch (e->k) {
    case CONST: return e->c;
    case SYM: return vals[e->c] & mask(e->w);
    case ZEXT: return ev(e->a);
    case SEXT: return (uint64_t)sx(ev(e->a), e->a->w) & mask(e->w);
    case EXTRACT: return (ev(e->a) >> e->c) & mask(e->w);
    case CONCAT: return (ev(e->a) << e->b->w) | ev(e->b);
    case ITE: return ev(e->d) ? ev(e->a) : ev(e->b);
    default: return foldbin(e->k, e->k >= EQ ? e->a->w : e->w, ev(e->a), ev(e->b));
    }
}
static uint64_t rv() {
    switch (rng() % 5) {
    case 0: return rng() % 4;
    case 1: return ~0ull - rng() % 3;
    case 2: return 1ull << (rng() % 64);
    case 3: return (1ull << (rng() % 64)) - 1;
    default: return rng();
    }
}
static P gen(unsigned w, int d) {
    if (d == 0 || rng() % 8 == 0) {
        if (rng() % 3 == 0) { uint64_t c = rv() & mask(w); return {cst(w, c), c}; }
        int s = rng() % 8;
        E e = symb(s, 64, s >= 4 ? vals[s] - vals[s] % (1 + rng() % 5) : 0,
                   s >= 4 ? std::max<uint64_t>(vals[s], 1ull << (20 + 6 * (s - 4))) : ~0ull);
        uint64_t v = vals[s];
        if (w < 64) { e = mkextract(e, 0, w); v &= mask(w); }
        return {e, v};
    }
    if (w == 1) {
        unsigned iw = (unsigned[]){1, 8, 32, 64}[rng() % 4];
        K k = (K[]){EQ, ULT, ULE, SLT, SLE, AND, OR, XOR, UMULOV}[rng() % 9];
        if (k == AND || k == OR || k == XOR) {
            P a = gen(1, d - 1), b = gen(1, d - 1);
            return {mkbin(k, a.e, b.e), foldbin(k, 1, a.v, b.v)};
        }
        P a = gen(iw, d - 1), b = rng() % 6 == 0 ? a : gen(iw, d - 1);
        if (k == UMULOV) return {mkbin(k, a.e, b.e), foldbin(k, iw, a.v, b.v)};
        E e = mkcmp(k, a.e, b.e);
        uint64_t v = foldbin(k, iw, a.v, b.v);
        if (rng() % 2) return {mknot(e), v ^ 1};
        return {e, v};
    }
    switch (rng() % 8) {
    case 0: { P c = gen(1, d - 1), a = gen(w, d - 1), b = gen(w, d - 1);
        return {mkite(c.e, a.e, b.e), c.v ? a.v : b.v}; }
    case 1: if (w > 8) { P a = gen(8, d - 1); return {mkzext(a.e, w), a.v}; } break;
    case 2: if (w > 8) { P a = gen(8, d - 1); return {mksext(a.e, w), (uint64_t)sx(a.v, 8) & mask(w)}; } break;
    case 3: if (w < 64) { P a = gen(64, d - 1); unsigned lo = rng() % (64 - w + 1); return {mkextract(a.e, lo, w), (a.v >> lo) & mask(w)}; } break;
    case 4: if (w == 64) { P a = gen(32, d - 1), b = gen(32, d - 1); return {mkconcat(a.e, b.e), (a.v << 32) | b.v}; } break;
    case 5: { P a = gen(w, d - 1), b = gen(w, d - 1); return {mksub(a.e, b.e), (a.v - b.v) & mask(w)}; }
    }
    K k = (K[]){ADD, ADD, MUL, UDIV, SDIV, UREM, SREM, AND, AND, OR, XOR, SHL, LSHR, ASHR}[rng() % 14];
    P a = gen(w, d - 1), b = gen(w, d - 1);
    if ((k == SHL || k == LSHR || k == ASHR) && rng() % 2) { uint64_t c = rng() % w; b = {cst(w, c), c}; }
    return {mkbin(k, a.e, b.e), foldbin(k, w, a.v, b.v)};
}
int main() {
    for (int i = 0; i < 400000; i++) {
        for (auto &v : vals) v = rv();
        P p = gen((unsigned[]){1, 8, 32, 64}[rng() % 4], 1 + rng() % 5);
        if (ev(p.e) != p.v) { printf("MISMATCH %s: %llx != %llx\n", estr(p.e, 8).c_str(), (unsigned long long)ev(p.e), (unsigned long long)p.v); return 1; }
        if (g_exprs.size() > 3000000) g_exprs.clear();
    }
    printf("simplifier self-test: 400000 expressions agree\n");
}
