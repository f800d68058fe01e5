#include "expr.h"
std::unordered_map<ExprKey, E, ExprHash> g_exprs;
static uint32_t g_id = 1;

// signed-coefficient linear form of an ADD / MUL-by-constant tree (mod 2^w)
void lin_terms(E e, std::vector<std::pair<E, int64_t>> &t, int64_t &k) {
    while (e->k == ADD) {
        lin_terms(e->b, t, k);
        e = e->a;
    }
    if (e->k == CONST)
        k = (int64_t)((uint64_t)k + (uint64_t)sx(e->c, e->w));
    else if (e->k == MUL && isc(e->b))
        t.push_back({e->a, sx(e->b->c, e->w)});
    else
        t.push_back({e, 1});
}
// bounds of that form as an integer sum, before reduction modulo 2^w
bool lin_bounds(E e, __int128 &lo, __int128 &hi) {
    std::vector<std::pair<E, int64_t>> t;
    int64_t k = 0;
    lin_terms(e, t, k);
    lo = hi = k;
    if (t.size() > 256)
        return false;
    for (auto &p : t) {
        __int128 c = p.second, a = p.first->lo, b = p.first->hi;
        // |c| < 2^63, a,b < 2^64: products below 2^127; keep sums far smaller
        if (c > ((__int128)1 << 50) || c < -((__int128)1 << 50))
            return false;
        lo += c > 0 ? c * a : c * b;
        hi += c > 0 ? c * b : c * a;
    }
    return true;
}
static void bounds(Expr *e) {
    uint64_t m = mask(e->w);
    e->lo = 0;
    e->hi = m;
    E a = e->a, b = e->b;
    switch (e->k) {
    case CONST: e->lo = e->hi = e->c; break;
    case SYM:
        if (a) {
            e->lo = a->c;
            e->hi = b->c;
        }
        break;
    case ADD:
    case MUL: {
        if (e->k == MUL && !isc(b)) {
            unsigned __int128 p = (unsigned __int128)a->hi * b->hi;
            if (p <= m) {
                e->lo = a->lo * b->lo;
                e->hi = (uint64_t)p;
            }
            break;
        }
        __int128 lo, hi;
        if (lin_bounds(e, lo, hi) && lo >= 0 && hi <= (__int128)m) {
            e->lo = (uint64_t)lo;
            e->hi = (uint64_t)hi;
        }
        break;
    }
    case UDIV:
        if (isc(b) && b->c) {
            e->lo = a->lo / b->c;
            e->hi = a->hi / b->c;
        }
        break;
    case UREM:
        if (isc(b) && b->c) {
            if (a->hi < b->c)
                e->lo = a->lo, e->hi = a->hi;
            else
                e->hi = b->c - 1;
        }
        break;
    case AND:
        e->hi = a->hi < b->hi ? a->hi : b->hi;
        if (isc(b)) { // clearing low bits only
            uint64_t low = ~b->c & m;
            if ((low & (low + 1)) == 0) {
                e->lo = a->lo & b->c;
                e->hi = a->hi & b->c;
            }
        }
        break;
    case LSHR:
        if (isc(b) && b->c < e->w) {
            e->lo = a->lo >> b->c;
            e->hi = a->hi >> b->c;
        }
        break;
    case SHL:
        if (isc(b) && b->c < e->w && a->hi <= (m >> b->c)) {
            e->lo = a->lo << b->c;
            e->hi = a->hi << b->c;
        }
        break;
    case ZEXT:
        e->lo = a->lo;
        e->hi = a->hi;
        break;
    case EXTRACT:
        if (a->hi >> e->c <= m) {
            e->lo = a->lo >> e->c;
            e->hi = a->hi >> e->c;
        }
        break;
    case CONCAT:
        e->lo = (a->lo << b->w) | b->lo;
        e->hi = (a->hi << b->w) | b->hi;
        break;
    case ITE:
        e->lo = a->lo < b->lo ? a->lo : b->lo;
        e->hi = a->hi > b->hi ? a->hi : b->hi;
        break;
    default: break;
    }
}
E raw(K k, unsigned w, uint64_t c, E a, E b, E d) {
    ExprKey key{k, (uint8_t)w, c, a, b, d};
    auto it = g_exprs.find(key);
    if (it != g_exprs.end())
        return it->second;
    Expr *e = new Expr;
    e->k = k;
    e->w = (uint8_t)w;
    e->c = c;
    e->a = a;
    e->b = b;
    e->d = d;
    e->id = g_id++;
    bounds(e);
    g_exprs.emplace(key, e);
    return e;
}
E cst(unsigned w, uint64_t v) { return raw(CONST, w, v & mask(w)); }
E symb(uint64_t n, unsigned w, uint64_t lo, uint64_t hi) {
    hi &= mask(w);
    if (lo == 0 && hi == mask(w))
        return raw(SYM, w, n);
    return raw(SYM, w, n, cst(w, lo), cst(w, hi));
}

uint64_t foldbin(K k, unsigned w, uint64_t a, uint64_t b) {
    uint64_t m = mask(w);
    a &= m;
    b &= m;
    switch (k) {
    case ADD: return (a + b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: {
        int64_t x = sx(a, w), y = sx(b, w);
        if (!y) return x < 0 ? 1 : m;
        if (y == -1) return (0 - (uint64_t)x) & m;
        return (uint64_t)(x / y) & m;
    }
    case SREM: {
        int64_t x = sx(a, w), y = sx(b, w);
        if (!y) return a;
        if (y == -1) return 0;
        return (uint64_t)(x % y) & m;
    }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: {
        int64_t x = sx(a, w);
        return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : x >> b) & m;
    }
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sx(a, w) < sx(b, w);
    case SLE: return sx(a, w) <= sx(b, w);
    case UMULOV: {
        unsigned __int128 p = (unsigned __int128)a * b;
        return (p >> w) != 0;
    }
    default: assert(0); return 0;
    }
}

#include <map>
// ite trees whose leaves are all constants
static bool constleaves(E e, int d) {
    if (isc(e)) return true;
    return e->k == ITE && d > 0 && constleaves(e->a, d - 1) &&
           constleaves(e->b, d - 1);
}
static bool cl(E e) { return e->k == ITE && constleaves(e, 4); }
template <class F> static E mapleaves(E e, F f) {
    if (isc(e)) return f(e);
    return mkite(e->d, mapleaves(e->a, f), mapleaves(e->b, f));
}
// ---- linear normal form for + - and multiplication by a constant
typedef std::vector<std::pair<E, uint64_t>> Lin; // sorted by id
static void lin_of(E e, Lin &l, uint64_t &k, uint64_t mul) {
    if (e->k == CONST) {
        k += mul * e->c;
    } else if (e->k == ADD) {
        lin_of(e->a, l, k, mul);
        lin_of(e->b, l, k, mul);
    } else if (e->k == MUL && isc(e->b)) {
        lin_of(e->a, l, k, mul * e->b->c);
    } else {
        l.push_back({e, mul});
    }
}
static E from_lin(Lin &l, uint64_t k, unsigned w) {
    std::sort(l.begin(), l.end(), [](auto &x, auto &y) {
        return x.first->id < y.first->id;
    });
    E acc = nullptr;
    for (size_t i = 0; i < l.size();) {
        uint64_t c = 0;
        E t = l[i].first;
        while (i < l.size() && l[i].first == t)
            c += l[i++].second;
        c &= mask(w);
        if (!c)
            continue;
        E term = c == 1 ? t : raw(MUL, w, 0, t, cst(w, c));
        acc = acc ? raw(ADD, w, 0, acc, term) : term;
    }
    k &= mask(w);
    if (!acc)
        return cst(w, k);
    {
        E t = acc;
        uint64_t m = 1;
        if (t->k == MUL && isc(t->b)) m = t->b->c, t = t->a;
        if (cl(t))
            return mapleaves(t, [&](E c) { return cst(w, c->c * m + k); });
    }
    if (k)
        acc = raw(ADD, w, 0, acc, cst(w, k));
    return acc;
}
E mkadd(E a, E b) {
    if (isc(a) && isc(b))
        return cst(a->w, a->c + b->c);
    if (isc(b) && b->c == 0)
        return a;
    if (isc(a) && a->c == 0)
        return b;
    if (a->w == 1)
        return mkbin(XOR, a, b);
    Lin l;
    uint64_t k = 0;
    lin_of(a, l, k, 1);
    lin_of(b, l, k, 1);
    return from_lin(l, k, a->w);
}
E mkneg(E a) { return mksub(cst(a->w, 0), a); }
E mksub(E a, E b) {
    if (isc(a) && isc(b))
        return cst(a->w, a->c - b->c);
    if (isc(b) && b->c == 0)
        return a;
    if (a->w == 1)
        return mkbin(XOR, a, b);
    Lin l;
    uint64_t k = 0;
    lin_of(a, l, k, 1);
    lin_of(b, l, k, ~0ull);
    return from_lin(l, k, a->w);
}
E mknot(E a) {
    if (isc(a))
        return cst(a->w, ~a->c);
    if (a->w == 1) {
        switch (a->k) {
        case ULT: return mkcmp(ULE, a->b, a->a);
        case ULE: return mkcmp(ULT, a->b, a->a);
        case SLT: return mkcmp(SLE, a->b, a->a);
        case SLE: return mkcmp(SLT, a->b, a->a);
        case AND: return mkbin(OR, mknot(a->a), mknot(a->b));
        case OR: return mkbin(AND, mknot(a->a), mknot(a->b));
        default: break;
        }
    }
    return mkbin(XOR, a, cst(a->w, ~0ull));
}
// linear form modulo g + 1: remainders by multiples of it are transparent
static void mod_lin(E e, Lin &l, uint64_t &k, uint64_t mul, uint64_t g) {
    if (e->k == CONST)
        k += mul * e->c;
    else if (e->k == ADD) {
        mod_lin(e->a, l, k, mul, g);
        mod_lin(e->b, l, k, mul, g);
    } else if (e->k == MUL && isc(e->b))
        mod_lin(e->a, l, k, mul * e->b->c, g);
    else if (e->k == AND && isc(e->b) && (e->b->c & g) == g)
        mod_lin(e->a, l, k, mul, g);
    else
        l.push_back({e, mul});
}
// a 0/1 value as the 1-bit expression behind it
static E asbool(E e) {
    if (isc(e)) return e->c <= 1 ? cst(1, e->c) : nullptr;
    if (e->k == ZEXT && e->a->w == 1) return e->a;
    if (e->k == ITE && isc(e->a) && isc(e->b)) {
        if (e->a->c == 1 && e->b->c == 0) return e->d;
        if (e->a->c == 0 && e->b->c == 1) return mknot(e->d);
    }
    return nullptr;
}
// known trailing zero bits
static unsigned trailz(E e) {
    Lin l;
    uint64_t k = 0;
    lin_of(e, l, k, 1);
    unsigned t = 64;
    k &= mask(e->w);
    if (k) t = __builtin_ctzll(k);
    for (auto &p : l) {
        uint64_t c = p.second & mask(e->w);
        if (c) t = std::min(t, (unsigned)__builtin_ctzll(c));
    }
    return t;
}
// e = h * 2^n + r with r in [0, 2^n) for certain: h (modulo 2^(w - n))
static E high_part(E e, unsigned n) {
    if (n == 0 || n >= e->w || (e->k != ADD && e->k != MUL)) return nullptr;
    Lin l, h, r;
    uint64_t k = 0;
    unsigned w = e->w;
    lin_of(e, l, k, 1);
    k &= mask(w);
    uint64_t low = (1ull << n) - 1;
    for (auto &p : l) {
        int64_t c = sx(p.second & mask(w), w);
        if ((c & low) == 0) h.push_back({p.first, (uint64_t)(c >> n) & mask(w)});
        else r.push_back({p.first, (uint64_t)c & mask(w)});
    }
    if (h.empty() && (k & ~low) == 0) return nullptr;
    E re = from_lin(r, k & low, w);
    __int128 lo, hi;
    if (isc(re)) {
        if (re->c > low) return nullptr;
    } else if (!lin_bounds(re, lo, hi) || lo < 0 || hi > (__int128)low)
        return nullptr;
    return from_lin(h, k >> n, w);
}
E mkbin(K k, E a, E b) {
    unsigned w = a->w;
    if (isc(a) && isc(b))
        return cst((k >= EQ) ? 1 : w, foldbin(k, w, a->c, b->c));
    uint64_t m = mask(w);
    if (k < EQ && isc(b) && cl(a))
        return mapleaves(a, [&](E c) { return cst(w, foldbin(k, w, c->c, b->c)); });
    if (k < EQ && isc(a) && cl(b))
        return mapleaves(b, [&](E c) { return cst(w, foldbin(k, w, a->c, c->c)); });
    if ((k == AND || k == OR || k == XOR) && w > 1) {
        E x = asbool(a), y = asbool(b);
        if (x && y) return mkite(mkbin(k, x, y), cst(w, 1), cst(w, 0));
    }
    switch (k) {
    case ADD: return mkadd(a, b);
    case EQ: return mkeq(a, b);
    case ULT: case ULE: case SLT: case SLE: return mkcmp(k, a, b);
    case MUL:
        if (isc(a)) std::swap(a, b);
        if (isc(b)) {
            if (b->c == 0) return b;
            if (b->c == 1) return a;
            Lin l;
            uint64_t kk = 0;
            lin_of(a, l, kk, b->c);
            return from_lin(l, kk, w);
        }
        if (a->id > b->id) std::swap(a, b);
        break;
    case AND:
        if (isc(a)) std::swap(a, b);
        if (a == b) return a;
        if (isc(b)) {
            if (b->c == 0) return b;
            if (b->c == m) return a;
            if (a->k == AND && isc(a->b))
                return mkbin(AND, a->a, cst(w, a->b->c & b->c));
            if (a->k == ZEXT && (b->c & mask(a->a->w)) == mask(a->a->w))
                return a;
            // low mask = extract
            {   // alignment masks: x & ~low is kept as x - (x & low), and
                // x & low depends on x modulo low + 1 only
                uint64_t lowm = ~b->c & m;
                bool high = w >= 32 && lowm && (lowm & (lowm + 1)) == 0;
                bool low = b->c && (b->c & (b->c + 1)) == 0;
                if (high) {
                    if (a->hi <= lowm) return cst(w, 0);
                    return mksub(a, mkbin(AND, a, cst(w, lowm)));
                }
                if (low) {
                    uint64_t g = b->c;
                    if (a->hi <= g) return a;
                    Lin l, in;
                    uint64_t kk = 0;
                    mod_lin(a, l, kk, 1, g);
                    uint64_t half = g / 2 + 1;
                    std::map<uint32_t, std::pair<E, uint64_t>> by;
                    for (auto &t : l) {
                        auto &x = by[t.first->id];
                        x.first = t.first;
                        x.second += t.second;
                    }
                    for (auto &q : by) {
                        uint64_t c = q.second.second & g;
                        if (c) in.push_back({q.second.first,
                                             c >= half && g > 1 ? (c - g - 1) & m : c});
                    }
                    E n = from_lin(in, kk & g, w);
                    if (n != a) return mkbin(AND, n, b);
                }
            }
            // (x << n) & lowmask(n) == 0
            if (a->k == SHL && isc(a->b) && a->b->c < 64 &&
                (b->c & ~mask(a->b->c)) == 0)
                return cst(w, 0);
        } else if (w == 1) {
            if (a == mknot(b)) return cst(1, 0);
            if (a->id > b->id) std::swap(a, b);
        } else if (a->id > b->id)
            std::swap(a, b);
        break;
    case OR:
        if (isc(a)) std::swap(a, b);
        if (a == b) return a;
        if (w > 1) { // no bit in common: a sum
            unsigned ta = trailz(a), tb = trailz(b);
            if ((tb < 64 && a->hi < (1ull << tb)) || (ta < 64 && b->hi < (1ull << ta)))
                return mkadd(a, b);
        }
        if (isc(b)) {
            if (b->c == 0) return a;
            if (b->c == m) return b;
        } else if (w == 1) {
            if (a == mknot(b)) return cst(1, 1);
            if (a->id > b->id) std::swap(a, b);
        } else if (a->id > b->id)
            std::swap(a, b);
        break;
    case XOR:
        if (isc(a)) std::swap(a, b);
        if (a == b) return cst(w, 0);
        if (isc(b)) {
            if (b->c == 0) return a;
            if (w == 1) { // boolean not
                switch (a->k) {
                case ULT: return mkcmp(ULE, a->b, a->a);
                case ULE: return mkcmp(ULT, a->b, a->a);
                case SLT: return mkcmp(SLE, a->b, a->a);
                case SLE: return mkcmp(SLT, a->b, a->a);
                default: break;
                }
            }
            if (a->k == XOR && isc(a->b))
                return mkbin(XOR, a->a, cst(w, a->b->c ^ b->c));
        } else if (a->id > b->id)
            std::swap(a, b);
        break;
    case SHL:
        if (isc(b)) {
            if (b->c == 0) return a;
            if (b->c >= w) return cst(w, 0);
            return mkbin(MUL, a, cst(w, 1ull << b->c));
        }
        break;
    case LSHR:
        if (isc(b)) {
            if (b->c == 0) return a;
            if (b->c >= w) return cst(w, 0);
            return mkzext(mkextract(a, b->c, w - b->c), w);
        }
        break;
    case ASHR:
        if (isc(b) && b->c == 0) return a;
        break;
    case UDIV:
        if (isc(b)) {
            if (b->c == 1) return a;
            if (b->c && (b->c & (b->c - 1)) == 0)
                return mkbin(LSHR, a, cst(w, __builtin_ctzll(b->c)));
        }
        break;
    case UREM:
        if (isc(b) && b->c && (b->c & (b->c - 1)) == 0)
            return mkbin(AND, a, cst(w, b->c - 1));
        break;
    case UMULOV:
        if (isc(a)) std::swap(a, b);
        if (isc(b)) {
            if (b->c <= 1) return cst(1, 0);
            return mkcmp(ULT, cst(w, m / b->c), a);
        }
        return raw(k, 1, 0, a, b);
    default: break;
    }
    return raw(k, w, 0, a, b);
}
E mkzext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isc(a)) return cst(w, a->c);
    if (a->k == ZEXT) return mkzext(a->a, w);
    if (a->k == EXTRACT && a->c == 0 && a->a->hi <= mask(a->w)) {
        if (a->a->w == w) return a->a;
        if (a->a->w < w) return mkzext(a->a, w);
    }
    if (a->w == 1) return raw(ITE, w, 0, cst(w, 1), cst(w, 0), a);
    if (constleaves(a, 4)) return mapleaves(a, [&](E c) { return cst(w, c->c); });
    return raw(ZEXT, w, 0, a);
}
E mksext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isc(a)) return cst(w, (uint64_t)sx(a->c, a->w));
    if (a->k == ZEXT) return mkzext(a, w);
    if (a->w == 1) return raw(ITE, w, 0, cst(w, ~0ull), cst(w, 0), a);
    if (constleaves(a, 4)) return mapleaves(a, [&](E c) { return cst(w, (uint64_t)sx(c->c, c->w)); });
    return raw(SEXT, w, 0, a);
}
E mkextract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isc(a)) return cst(w, a->c >> lo);
    if (a->k == EXTRACT) return mkextract(a->a, lo + a->c, w);
    if (a->k == ZEXT) {
        unsigned iw = a->a->w;
        if (lo >= iw) return cst(w, 0);
        if (lo + w <= iw) return mkextract(a->a, lo, w);
        return mkzext(mkextract(a->a, lo, iw - lo), w);
    }
    if (a->k == CONCAT) {
        unsigned lw = a->b->w;
        if (lo >= lw) return mkextract(a->a, lo - lw, w);
        if (lo + w <= lw) return mkextract(a->b, lo, w);
    }
    if (cl(a)) return mapleaves(a, [&](E c) { return mkextract(c, lo, w); });
    if (a->k == AND && isc(a->b) && lo == 0 &&
        (a->b->c & mask(w)) == mask(w))
        return mkextract(a->a, 0, w);
    if (a->k == SEXT && lo + w <= a->a->w) return mkextract(a->a, lo, w);
    if (lo) {
        E h = high_part(a, lo);
        if (h) return mkextract(h, 0, w);
    }
    return raw(EXTRACT, w, lo, a);
}
E mkconcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (isc(hi) && isc(lo))
        return cst(w, (hi->c << lo->w) | lo->c);
    if (isc(hi) && hi->c == 0) return mkzext(lo, w);
    if (hi->k == EXTRACT && lo->k == EXTRACT && hi->a == lo->a &&
        hi->c == lo->c + lo->w)
        return mkextract(lo->a, lo->c, w);
    if (hi->k == EXTRACT && hi->a == lo && hi->c == lo->w)
        return mkextract(lo, 0, w);
    return raw(CONCAT, w, 0, hi, lo);
}
E mkite(E c, E a, E b) {
    if (isc(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (isc(a) && isc(b)) return a->c ? c : mknot(c);
        if (isc(a)) return a->c ? mkbin(OR, c, b) : mkbin(AND, mknot(c), b);
        if (isc(b)) return b->c ? mkbin(OR, mknot(c), a) : mkbin(AND, c, a);
    }
    // stored as a=then, b=else, d=cond
    return raw(ITE, a->w, 0, a, b, c);
}
E mkeq(E a, E b) {
    if (a == b) return cst(1, 1);
    if (isc(a)) std::swap(a, b);
    if (isc(a)) return cst(1, a->c == b->c);
    unsigned w = a->w;
    if (a->lo > b->hi || b->lo > a->hi) return cst(1, 0);
    if (isc(b)) {
        if (w == 1) return b->c ? a : mknot(a);
        if (a->k == ZEXT) {
            unsigned iw = a->a->w;
            if (b->c & ~mask(iw)) return cst(1, 0);
            return mkeq(a->a, cst(iw, b->c));
        }
        if (cl(a)) return mapleaves(a, [&](E c) { return mkeq(c, b); });
        // x & (x - 1) == 0: zero or a power of two
        if (a->k == AND && b->c == 0 && w > 1) {
            E x = nullptr;
            if (mkadd(a->a, cst(w, mask(w))) == a->b) x = a->a;
            else if (mkadd(a->b, cst(w, mask(w))) == a->a) x = a->b;
            if (x) {
                E r = mkeq(x, cst(w, 0));
                for (unsigned i = 0; i < w; i++)
                    if ((1ull << i) >= x->lo && (1ull << i) <= x->hi)
                        r = mkbin(OR, r, mkeq(x, cst(w, 1ull << i)));
                return r;
            }
        }
        if (a->k == ITE && (isc(a->a) || isc(a->b)))
            return mkite(a->d, mkeq(a->a, b), mkeq(a->b, b));
        if (a->k == ADD && isc(a->b))
            return mkeq(a->a, cst(w, b->c - a->b->c));
        if (a->k == SEXT) {
            uint64_t t = b->c & mask(a->a->w);
            if (((uint64_t)sx(t, a->a->w) & mask(w)) != b->c) return cst(1, 0);
            return mkeq(a->a, cst(a->a->w, t));
        }
    } else if (w > 1) {
        E d = mksub(a, b);
        if (isc(d)) return cst(1, d->c == 0);
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w)
            return mkeq(a->a, b->a);
    }
    if (!isc(b) && a->id > b->id) std::swap(a, b);
    return raw(EQ, 1, 0, a, b);
}
static E side(std::vector<std::pair<E, int64_t>> &t, uint64_t k, unsigned w) {
    Lin l;
    for (auto &p : t)
        l.push_back({p.first, (uint64_t)p.second & mask(w)});
    return from_lin(l, k, w);
}
// both sides are exact integer sums: cancel what they share, compare bounds
static E cmp_lin(K k, E a, E b) {
    unsigned w = a->w;
    __int128 m = mask(w), alo, ahi, blo, bhi;
    if (!lin_bounds(a, alo, ahi) || !lin_bounds(b, blo, bhi) || alo < 0 ||
        blo < 0 || ahi > m || bhi > m)
        return nullptr;
    if (k == ULE ? ahi <= blo : ahi < blo) return cst(1, 1);
    if (k == ULE ? alo > bhi : alo >= bhi) return cst(1, 0);
    std::vector<std::pair<E, int64_t>> t, u;
    int64_t ka = 0, kb = 0;
    lin_terms(a, t, ka);
    lin_terms(b, u, kb);
    size_t n = t.size() + u.size();
    std::map<uint32_t, std::pair<E, __int128>> d; // b - a
    for (auto &p : u) {
        auto &x = d[p.first->id];
        x.first = p.first;
        x.second += p.second;
    }
    for (auto &p : t) {
        auto &x = d[p.first->id];
        x.first = p.first;
        x.second -= p.second;
    }
    __int128 kd = (__int128)kb - ka, lo = kd, hi = kd;
    std::vector<std::pair<E, int64_t>> L, R;
    __int128 lmax = kd < 0 ? -kd : 0, rmax = kd > 0 ? kd : 0;
    for (auto &q : d) {
        __int128 c = q.second.second;
        E e = q.second.first;
        if (c == 0) continue;
        lo += c > 0 ? c * e->lo : c * e->hi;
        hi += c > 0 ? c * e->hi : c * e->lo;
        if (c > 0)
            R.push_back({e, (int64_t)c}), rmax += c * e->hi;
        else
            L.push_back({e, (int64_t)-c}), lmax += -c * e->hi;
    }
    if (k == ULE ? lo >= 0 : lo > 0) return cst(1, 1);
    if (k == ULE ? hi < 0 : hi <= 0) return cst(1, 0);
    if (lmax > m || rmax > m) return nullptr;
    bool neg = ka < 0 || kb < 0;
    for (auto &p : t) neg |= p.second < 0;
    for (auto &p : u) neg |= p.second < 0;
    if (L.size() + R.size() >= n && !neg && (ka == 0 || kb == 0)) return nullptr;
    E x = side(L, kd < 0 ? (uint64_t)-kd : 0, w);
    E y = side(R, kd > 0 ? (uint64_t)kd : 0, w);
    if (x == a && y == b) return nullptr;
    return mkcmp(k, x, y);
}
E mkcmp(K k, E a, E b) {
    unsigned w = a->w;
    if (k == EQ) return mkeq(a, b);
    if (isc(a) && isc(b)) return cst(1, foldbin(k, w, a->c, b->c));
    if (a == b) return cst(1, k == ULE || k == SLE);
    if (k == ULT) {
        if (isc(b) && b->c == 0) return cst(1, 0);
        if (isc(a) && a->c == mask(w)) return cst(1, 0);
        if (isc(b) && b->c == 1) return mkeq(a, cst(w, 0));
        if (isc(a) && a->c == 0) return mknot(mkeq(b, a));
    }
    if (k == ULE) {
        if (isc(a) && a->c == 0) return cst(1, 1);
        if (isc(b) && b->c == mask(w)) return cst(1, 1);
        if (isc(b) && b->c == 0) return mkeq(a, b);
        if (isc(a) && a->c == mask(w)) return mkeq(a, b);
    }
    if ((k == SLT || k == SLE) && w > 1 && a->hi <= mask(w - 1) &&
        b->hi <= mask(w - 1))
        return mkcmp(k == SLT ? ULT : ULE, a, b);
    if (k == ULT || k == ULE) {
        if (E r = cmp_lin(k, a, b)) return r;
        if (a->k == ZEXT && isc(b)) {
            unsigned iw = a->a->w;
            if (b->c > mask(iw)) return cst(1, 1);
            return mkcmp(k, a->a, cst(iw, b->c));
        }
        if (b->k == ZEXT && isc(a)) {
            unsigned iw = b->a->w;
            if (a->c > mask(iw)) return cst(1, 0);
            return mkcmp(k, cst(iw, a->c), b->a);
        }
    }
    if (cl(a) && isc(b))
        return mapleaves(a, [&](E c) { return mkcmp(k, c, b); });
    if (cl(b) && isc(a))
        return mapleaves(b, [&](E c) { return mkcmp(k, a, c); });
    return raw(k, 1, 0, a, b);
}
std::string estr(E e, int depth) {
    static const char *n[] = {"c",  "s",   "+",   "*",    "udiv", "sdiv",
                              "urem", "srem", "&",  "|",   "^",    "<<",
                              ">>",  "ashr", "zext", "sext", "ext", "cat",
                              "ite", "=",   "<u",  "<=u",  "<s",   "<=s",
                              "umulov"};
    char buf[64];
    if (e->k == CONST) {
        snprintf(buf, sizeof buf, "%llu", (unsigned long long)e->c);
        return buf;
    }
    if (e->k == SYM) {
        snprintf(buf, sizeof buf, "s%llu", (unsigned long long)e->c);
        return buf;
    }
    if (!depth) return "...";
    std::string r = std::string("(") + n[e->k];
    if (e->k == ITE) r += " " + estr(e->d, depth - 1);
    if (e->a) r += " " + estr(e->a, depth - 1);
    if (e->b) r += " " + estr(e->b, depth - 1);
    return r + ")";
}
