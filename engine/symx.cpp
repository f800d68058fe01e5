// symx: bounded symbolic execution of LLVM IR, every branch and assertion
// decided by an SMT solver (z3, QF_BV).  All paths within the stated bounds
// are explored; anything the engine cannot follow makes the run INCOMPLETE
// (never "ok").
#include "expr.h"
#include <chrono>
#include <cvc5/cvc5.h>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <memory>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using std::string;
using std::vector;
typedef uint64_t u64;
static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ options
static u64 opt_max_path_instr = 20000000, opt_max_mb = 3200;
static double opt_timeout = 800;
static int opt_parts = 1, opt_part = 0, opt_part_depth = 7;
static int opt_preempt = 2;
static int opt_samples = 4;
static unsigned opt_first = 2, opt_cross = 97;
static bool opt_race = false, opt_trace = false, opt_sites = false;
static u64 opt_query_ms = 60000;
static bool opt_dump = getenv("SYMX_DUMP") != nullptr;
static bool opt_stop_first = true;
static unsigned opt_seed = 1;
static string opt_entry = "vf_entry", opt_out = "", opt_repo = "/repo/";

// ------------------------------------------------------------------ values
struct V {
    u64 c = 0;
    E e = nullptr;
};
static V con(u64 c) {
    V v;
    v.c = c;
    return v;
}
static V sym(E e) {
    V v;
    if (isc(e))
        v.c = e->c;
    else
        v.e = e;
    return v;
}
static E ex(const V &v, unsigned w) { return v.e ? v.e : cst(w, v.c); }

// ------------------------------------------------------------------ program
enum Op : uint8_t {
    I_BIN, I_ICMP, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_ZEXT, I_SEXT, I_TRUNC,
    I_COPY, I_SELECT, I_CALL, I_VASTART, I_RET, I_BR, I_CBR, I_SWITCH, I_UNREACH,
    I_EXTRACTV, I_INSERTV, I_RMW, I_CMPXCHG, I_NOP, I_MEMCPY, I_MEMSET,
    I_INTRIN, I_UNSUP
};
struct Opnd {
    int reg = -1;
    V c;
    bool undef = false;
};
struct Inst {
    Op op;
    uint8_t sub = 0;
    unsigned w = 0;    // result width
    unsigned w2 = 0;   // operand width
    int dst = -1;
    vector<Opnd> ops;
    u64 imm = 0;
    vector<u64> imms;
    int t0 = -1, t1 = -1;
    vector<std::pair<u64, int>> cases;
    const llvm::Instruction *I = nullptr;
    struct Func *callee = nullptr;
    int builtin = 0;
    vector<u64> byval; // sizes of byval args (0: none)
};
struct Phi {
    int dst;
    vector<std::pair<int, Opnd>> in; // pred block, value
};
struct Blk {
    int start;
    vector<Phi> phis;
};
struct Func {
    string name, file;
    const llvm::Function *F;
    u64 addr;
    bool compiled = false;
    vector<Inst> code;
    vector<Blk> blks;
    int nregs = 0;
    vector<unsigned> argw;
    bool repo = false;
    bool va = false;    // takes variadic arguments
    bool model = false; // its accesses are not part of the race analysis
    u64 calls = 0;
    u64 nbranch = 0;
    std::set<std::pair<int, int>> br_seen;
};

// ------------------------------------------------------------------ memory
struct SB {
    E e; // nullptr: concrete, (E)1: uninitialised
    uint32_t idx;
};
#define UNINIT ((E)1)
enum { OK_GLOBAL, OK_STACK, OK_HEAP, OK_FUNC };
struct Obj {
    u64 base, size;
    uint8_t kind = 0;
    bool alive = true, ro = false;
    uint32_t seq = 0;
    const llvm::Value *src = nullptr;
    vector<uint8_t> con;
    vector<SB> sym;
};
typedef std::shared_ptr<Obj> ObjP;

struct Frame {
    Func *f;
    int pc = 0, bb = 0;
    vector<V> regs;
    vector<u64> allocas;
    u64 va = 0; // the variadic arguments, 8 bytes each
    int ret = -1;
    unsigned retw = 0;
};
struct Thread {
    vector<Frame> st;
    bool done = false;
    u64 wait0 = 0; // blocked until the int at this address is 0
    bool joinall = false;
    vector<uint32_t> vc; // vector clock (race detection)
};
typedef vector<u64> Model;
struct Acc { // last accesses, for race detection
    int wt = -1;
    uint32_t wc = 0;
    bool watomic = false;
    vector<uint32_t> rc;  // plain reads per thread
    vector<uint32_t> rac; // atomic reads per thread
};
struct State {
    vector<Thread> th;
    int cur = 0;
    std::map<u64, ObjP> mem;
    u64 next_heap = 0x7F0000000000ull, next_stack = 0x7F8000000000ull;
    uint32_t heap_seq = 0;
    vector<E> pc;
    std::shared_ptr<Model> model = std::make_shared<Model>();
    vector<E> syms;        // all symbols, by number
    vector<V> draws;       // values drawn by nd, in order
    vector<int> sched;     // scheduling decisions
    vector<u64> obs_c;
    vector<V> obs;         // observed values
    u64 instrs = 0;
    int forks = 0;
    u64 dec_hash = 1469598103934665603ull;
    int preempts = 0;
    std::map<u64, Acc> acc;
    std::map<u64, vector<uint32_t>> sync_vc;
    vector<const char *> marks;
    bool sampled_out = false;
    std::map<int, u64> errno_at;
    std::map<std::pair<int, u64>, u64> tls_at;
};

// ------------------------------------------------------------------ stats
static struct {
    u64 paths = 0, killed = 0, forks = 0, queries = 0, qsat = 0, qunsat = 0,
        model_hits = 0, instrs = 0, asserts = 0, asserts_sym = 0,
        partition_dropped = 0, mem_checks = 0;
    u64 by_lia = 0, by_z3 = 0, by_c5 = 0, by_fresh = 0, crossed = 0;
    double cross_s = 0, solver_s = 0, max_q = 0;
} st;
static std::map<string, u64> g_reach;
static vector<string> g_samples; // json
struct Viol {
    string msg, loc, trace, draws, sched, uninit;
};
static vector<Viol> g_viol;
static vector<string> g_incomplete;
static double t_start;
static vector<State *> work;

static string jesc(const string &s) {
    string r;
    for (char c : s) {
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if (c == '\n')
            r += "\\n";
        else if ((unsigned char)c < 32)
            r += ' ';
        else
            r += c;
    }
    return r;
}
static string fmt(const char *f, ...) {
    char b[2048];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}

// ------------------------------------------------------------------ solver
static Z3_context Z;
static Z3_solver S;
static vector<E> s_stack;
static vector<E> evstack;
static uint32_t g_epoch = 1;
static void z3_err(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    _Exit(3);
}
static string symname(E e) {
    return e->a ? fmt("s%llu_%u_%llu_%llu", (unsigned long long)e->c, e->w,
                      (unsigned long long)e->a->c, (unsigned long long)e->b->c)
                : fmt("s%llu_%u", (unsigned long long)e->c, e->w);
}
static Z3_ast mkzb(E e);
static Z3_ast mkz(E e) {
    if (e->z)
        return e->z;
    Z3_ast r = nullptr;
    Z3_ast a = e->a ? mkz(e->a) : nullptr, b = e->b ? mkz(e->b) : nullptr;
    auto boo = [&](Z3_ast c) { // Bool -> bv1
        Z3_sort s1 = Z3_mk_bv_sort(Z, 1);
        return Z3_mk_ite(Z, c, Z3_mk_unsigned_int64(Z, 1, s1),
                         Z3_mk_unsigned_int64(Z, 0, s1));
    };
    switch (e->k) {
    case CONST:
        r = Z3_mk_unsigned_int64(Z, e->c, Z3_mk_bv_sort(Z, e->w));
        break;
    case SYM: {
        string nms = symname(e);
        const char *nm = nms.c_str();
        r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm),
                        Z3_mk_bv_sort(Z, e->w));
        break;
    }
    case ADD: { // positive part - negative part
        vector<std::pair<E, u64>> t;
        E x = e;
        while (x->k == ADD) {
            t.push_back({x->b, 0});
            x = x->a;
        }
        t.push_back({x, 0});
        Z3_ast pos = nullptr, neg = nullptr;
        for (size_t i = t.size(); i-- > 0;) {
            E y = t[i].first;
            bool ng = false;
            if (y->k == MUL && isc(y->b) && sx(y->b->c, y->w) < 0 &&
                y->b->c != 1ull << (y->w - 1)) { // its own negation
                ng = true;
                y = mkbin(MUL, y->a, cst(y->w, 0 - y->b->c));
            } else if (isc(y) && sx(y->c, y->w) < 0 &&
                       y->c != 1ull << (y->w - 1)) {
                ng = true;
                y = cst(y->w, 0 - y->c);
            }
            Z3_ast zy = mkz(y);
            Z3_ast &acc = ng ? neg : pos;
            acc = acc ? Z3_mk_bvadd(Z, acc, zy) : zy;
        }
        r = !neg ? pos : !pos ? Z3_mk_bvneg(Z, neg) : Z3_mk_bvsub(Z, pos, neg);
        break;
    }
    case MUL:
        if (isc(e->b) && sx(e->b->c, e->w) < 0 &&
            e->b->c != 1ull << (e->w - 1)) {
            r = Z3_mk_bvneg(Z, mkz(mkbin(MUL, e->a, cst(e->w, 0 - e->b->c))));
            break;
        }
        if (isc(e->b) && e->b->c && (e->b->c & (e->b->c - 1)) == 0) {
            unsigned sh = __builtin_ctzll(e->b->c);
            r = Z3_mk_concat(Z, Z3_mk_extract(Z, e->w - 1 - sh, 0, a),
                             Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, sh)));
            break;
        }
        r = Z3_mk_bvmul(Z, a, b);
        break;
    case UDIV: r = Z3_mk_bvudiv(Z, a, b); break;
    case SDIV: r = Z3_mk_bvsdiv(Z, a, b); break;
    case UREM: r = Z3_mk_bvurem(Z, a, b); break;
    case SREM: r = Z3_mk_bvsrem(Z, a, b); break;
    case AND: r = Z3_mk_bvand(Z, a, b); break;
    case OR: r = Z3_mk_bvor(Z, a, b); break;
    case XOR: r = Z3_mk_bvxor(Z, a, b); break;
    case SHL: r = Z3_mk_bvshl(Z, a, b); break;
    case LSHR: r = Z3_mk_bvlshr(Z, a, b); break;
    case ASHR: r = Z3_mk_bvashr(Z, a, b); break;
    case ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, a); break;
    case SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, a); break;
    case EXTRACT: r = Z3_mk_extract(Z, e->c + e->w - 1, e->c, a); break;
    case CONCAT: r = Z3_mk_concat(Z, a, b); break;
    case ITE: {
        r = Z3_mk_ite(Z, mkzb(e->d), a, b);
        break;
    }
    case EQ: r = boo(Z3_mk_eq(Z, a, b)); break;
    case ULT: r = boo(Z3_mk_bvult(Z, a, b)); break;
    case ULE: r = boo(Z3_mk_bvule(Z, a, b)); break;
    case SLT: r = boo(Z3_mk_bvslt(Z, a, b)); break;
    case SLE: r = boo(Z3_mk_bvsle(Z, a, b)); break;
    case UMULOV:
        r = boo(Z3_mk_not(Z, Z3_mk_bvmul_no_overflow(Z, a, b, false)));
        break;
    }
    Z3_inc_ref(Z, r);
    e->z = r;
    return r;
}
static Z3_ast mkzb(E e) { // as Bool
    if (e->k == EQ) return Z3_mk_eq(Z, mkz(e->a), mkz(e->b));
    if (e->k == ULT) return Z3_mk_bvult(Z, mkz(e->a), mkz(e->b));
    if (e->k == ULE) return Z3_mk_bvule(Z, mkz(e->a), mkz(e->b));
    if (e->k == SLT) return Z3_mk_bvslt(Z, mkz(e->a), mkz(e->b));
    if (e->k == SLE) return Z3_mk_bvsle(Z, mkz(e->a), mkz(e->b));
    if (e->k == XOR && isc(e->b)) return Z3_mk_not(Z, mkzb(e->a));
    if (e->k == ITE && e->w == 1)
        return Z3_mk_ite(Z, mkzb(e->d), mkzb(e->a), mkzb(e->b));
    if (isc(e))
        return e->c ? Z3_mk_true(Z) : Z3_mk_false(Z);
    if (e->k == AND || e->k == OR) {
        Z3_ast p[2] = {mkzb(e->a), mkzb(e->b)};
        return e->k == AND ? Z3_mk_and(Z, 2, p) : Z3_mk_or(Z, 2, p);
    }
    return Z3_mk_eq(Z, mkz(e),
                    Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
}
static u64 eval_rec(E e, const Model &m) {
    if (e->k == CONST)
        return e->c;
    if (e->ep == g_epoch)
        return e->ev;
    u64 r = 0;
    switch (e->k) {
    case SYM: r = (e->c < m.size() ? m[e->c] : 0) & mask(e->w); break;
    case ZEXT: r = eval_rec(e->a, m); break;
    case SEXT: r = (u64)sx(eval_rec(e->a, m), e->a->w) & mask(e->w); break;
    case EXTRACT: r = (eval_rec(e->a, m) >> e->c) & mask(e->w); break;
    case CONCAT:
        r = (eval_rec(e->a, m) << e->b->w) | eval_rec(e->b, m);
        break;
    case ITE: r = eval_rec(e->d, m) ? eval_rec(e->a, m) : eval_rec(e->b, m); break;
    default:
        r = foldbin(e->k, e->k >= EQ ? e->a->w : e->w, eval_rec(e->a, m),
                    eval_rec(e->b, m));
    }
    e->ev = r;
    e->ep = g_epoch;
    return r;
}
static u64 eval(E e, const Model &m) {
    g_epoch++;
    return eval_rec(e, m);
}
struct Abort {
    string why;
};
static void incomplete(const string &why) {
    for (auto &x : g_incomplete)
        if (x == why)
            return;
    if (g_incomplete.size() < 20)
        g_incomplete.push_back(why);
}

// ---- second back end: cvc5, bit-vectors solved as integers (exact: it keeps
// the modulo-2^w semantics); much better on chains of address arithmetic.
static bool c5_fresh = true;
struct C5 {
    cvc5::Solver *s = nullptr;
    vector<E> stack;
    std::unordered_map<E, cvc5::Term> memo;
    vector<vector<E>> scopes;
    void init() {
        delete s;
        s = new cvc5::Solver();
        s->setLogic("QF_BV");
        s->setOption("solve-bv-as-int", "sum");
        s->setOption("incremental", "true");
        s->setOption("produce-models", "true");
        memo.clear();
        stack.clear();
    }
    cvc5::Term bv(unsigned w, u64 v) {
        return s->mkBitVector(w, std::to_string(v), 10);
    }
    cvc5::Term mk(E e) {
        auto it = memo.find(e);
        if (it != memo.end())
            return it->second;
        using cvc5::Kind;
        cvc5::Term r;
        auto bin = [&](Kind k) { return s->mkTerm(k, {mk(e->a), mk(e->b)}); };
        switch (e->k) {
        case CONST: r = bv(e->w, e->c); break;
        case SYM:
            r = s->mkConst(s->mkBitVectorSort(e->w),
                           symname(e));
            break;
        case ADD: {
            vector<E> t;
            E x = e;
            while (x->k == ADD) {
                t.push_back(x->b);
                x = x->a;
            }
            t.push_back(x);
            cvc5::Term pos, neg;
            for (size_t i = t.size(); i-- > 0;) {
                E y = t[i];
                bool ng = false;
                if (y->k == MUL && isc(y->b) && sx(y->b->c, y->w) < 0 &&
                    y->b->c != 1ull << (y->w - 1))
                    ng = true, y = mkbin(MUL, y->a, cst(y->w, 0 - y->b->c));
                else if (isc(y) && sx(y->c, y->w) < 0 &&
                         y->c != 1ull << (y->w - 1))
                    ng = true, y = cst(y->w, 0 - y->c);
                cvc5::Term z = mk(y);
                cvc5::Term &acc = ng ? neg : pos;
                acc = acc.isNull()
                          ? z
                          : s->mkTerm(Kind::BITVECTOR_ADD, {acc, z});
            }
            r = neg.isNull()   ? pos
                : pos.isNull() ? s->mkTerm(Kind::BITVECTOR_NEG, {neg})
                               : s->mkTerm(Kind::BITVECTOR_SUB, {pos, neg});
            break;
        }
        case MUL:
            if (isc(e->b) && sx(e->b->c, e->w) < 0 &&
                e->b->c != 1ull << (e->w - 1)) // its own negation
                r = s->mkTerm(Kind::BITVECTOR_NEG,
                              {mk(mkbin(MUL, e->a, cst(e->w, 0 - e->b->c)))});
            else
                r = bin(Kind::BITVECTOR_MULT);
            break;
        case UDIV: r = bin(Kind::BITVECTOR_UDIV); break;
        case SDIV: r = bin(Kind::BITVECTOR_SDIV); break;
        case UREM: r = bin(Kind::BITVECTOR_UREM); break;
        case SREM: r = bin(Kind::BITVECTOR_SREM); break;
        case AND:
            // x & ~lowmask  ==  x - (x mod 2^k), as an extraction
            if (isc(e->b) && e->w > 1) {
                u64 m = mask(e->w), lowm = ~e->b->c & m;
                if (lowm && lowm != m && (lowm & (lowm + 1)) == 0) {
                    unsigned k = __builtin_ctzll(e->b->c);
                    r = s->mkTerm(
                        Kind::BITVECTOR_CONCAT,
                        {s->mkTerm(s->mkOp(Kind::BITVECTOR_EXTRACT,
                                           {e->w - 1u, k}),
                                   {mk(e->a)}),
                         bv(k, 0)});
                    break;
                }
                if (e->b->c && e->b->c != m && (e->b->c & (e->b->c + 1)) == 0) {
                    unsigned k = __builtin_popcountll(e->b->c);
                    r = s->mkTerm(
                        s->mkOp(Kind::BITVECTOR_ZERO_EXTEND, {e->w - k}),
                        {s->mkTerm(s->mkOp(Kind::BITVECTOR_EXTRACT, {k - 1, 0}),
                                   {mk(e->a)})});
                    break;
                }
            }
            r = bin(Kind::BITVECTOR_AND);
            break;
        case OR: r = bin(Kind::BITVECTOR_OR); break;
        case XOR: r = bin(Kind::BITVECTOR_XOR); break;
        case SHL: r = bin(Kind::BITVECTOR_SHL); break;
        case LSHR: r = bin(Kind::BITVECTOR_LSHR); break;
        case ASHR: r = bin(Kind::BITVECTOR_ASHR); break;
        case ZEXT:
            r = s->mkTerm(s->mkOp(Kind::BITVECTOR_ZERO_EXTEND,
                                  {(uint32_t)(e->w - e->a->w)}),
                          {mk(e->a)});
            break;
        case SEXT:
            r = s->mkTerm(s->mkOp(Kind::BITVECTOR_SIGN_EXTEND,
                                  {(uint32_t)(e->w - e->a->w)}),
                          {mk(e->a)});
            break;
        case EXTRACT:
            r = s->mkTerm(s->mkOp(Kind::BITVECTOR_EXTRACT,
                                  {(uint32_t)(e->c + e->w - 1), (uint32_t)e->c}),
                          {mk(e->a)});
            break;
        case CONCAT: r = bin(Kind::BITVECTOR_CONCAT); break;
        case ITE:
            r = s->mkTerm(Kind::ITE, {mkb(e->d), mk(e->a), mk(e->b)});
            break;
        default:
            r = s->mkTerm(Kind::ITE, {mkb(e), bv(1, 1), bv(1, 0)});
        }
        memo[e] = r;
        return r;
    }
    cvc5::Term mkb(E e) {
        using cvc5::Kind;
        auto bin = [&](Kind k) { return s->mkTerm(k, {mk(e->a), mk(e->b)}); };
        switch (e->k) {
        case CONST: return s->mkBoolean(e->c);
        case EQ: return bin(Kind::EQUAL);
        case ULT: return bin(Kind::BITVECTOR_ULT);
        case ULE: return bin(Kind::BITVECTOR_ULE);
        case SLT: return bin(Kind::BITVECTOR_SLT);
        case SLE: return bin(Kind::BITVECTOR_SLE);
        case UMULOV: return bin(Kind::BITVECTOR_UMULO);
        case XOR:
            if (isc(e->b))
                return s->mkTerm(Kind::NOT, {mkb(e->a)});
            return s->mkTerm(Kind::XOR, {mkb(e->a), mkb(e->b)});
        case AND: return s->mkTerm(Kind::AND, {mkb(e->a), mkb(e->b)});
        case OR: return s->mkTerm(Kind::OR, {mkb(e->a), mkb(e->b)});
        case ITE:
            return s->mkTerm(Kind::ITE, {mkb(e->d), mkb(e->a), mkb(e->b)});
        default: return s->mkTerm(Kind::EQUAL, {mk(e), bv(1, 1)});
        }
    }
    int n = 0;
    // 1 sat, 0 unsat, -1 unknown
    int check(State &st8, E extra, unsigned ms, Model *m) {
        if (!s || c5_fresh || (++n % 2000) == 0)
            init();
        size_t i = 0;
        while (i < stack.size() && i < st8.pc.size() && stack[i] == st8.pc[i])
            i++;
        if (stack.size() > i) {
            s->pop(stack.size() - i);
            stack.resize(i);
        }
        for (; i < st8.pc.size(); i++) {
            s->push(1);
            s->assertFormula(mkb(st8.pc[i]));
            stack.push_back(st8.pc[i]);
        }
        int r = -1;
        try {
            s->setOption("tlimit-per", std::to_string(ms));
            s->push(1);
            if (extra)
                s->assertFormula(mkb(extra));
            auto q = s->checkSat();
            if (q.isSat()) {
                r = 1;
                if (m) {
                    m->assign(st8.syms.size(), 0);
                    for (size_t j = 0; j < st8.syms.size(); j++) {
                        auto it = memo.find(st8.syms[j]);
                        (*m)[j] = st8.syms[j]->lo;
                        if (it == memo.end())
                            continue;
                        cvc5::Term v = s->getValue(it->second);
                        (*m)[j] = strtoull(v.getBitVectorValue(10).c_str(), 0, 10);
                    }
                }
            } else if (q.isUnsat())
                r = 0;
            s->pop(1);
        } catch (std::exception &e) {
            delete s;
            s = nullptr;
            return -1;
        }
        return r;
    }
};
static C5 c5;
static void ssync(State &s) {
    size_t i = 0;
    while (i < s_stack.size() && i < s.pc.size() && s_stack[i] == s.pc[i])
        i++;
    if (s_stack.size() > i) {
        Z3_solver_pop(Z, S, s_stack.size() - i);
        s_stack.resize(i);
    }
    for (; i < s.pc.size(); i++) {
        Z3_solver_push(Z, S);
        Z3_solver_assert(Z, S, mkzb(s.pc[i]));
        s_stack.push_back(s.pc[i]);
    }
}
static void z3_model(State &s, Z3_solver sv, Model &mm) {
    Z3_model m = Z3_solver_get_model(Z, sv);
    Z3_model_inc_ref(Z, m);
    mm.assign(s.syms.size(), 0);
    for (size_t i = 0; i < s.syms.size(); i++) {
        Z3_ast v = nullptr;
        mm[i] = s.syms[i]->lo;
        if (Z3_model_eval(Z, m, mkz(s.syms[i]), false, &v) && v) {
            uint64_t x = 0;
            if (Z3_is_numeral_ast(Z, v) && Z3_get_numeral_uint64(Z, v, &x))
                mm[i] = x;
        }
    }
    Z3_model_dec_ref(Z, m);
}
static Z3_params pr_fast, pr_full;
static int z3_inc(State &s, E extra, Model &mm) {
    ssync(s);
    if (extra) {
        Z3_solver_push(Z, S);
        Z3_solver_assert(Z, S, mkzb(extra));
    }
    Z3_solver_set_params(Z, S, pr_fast);
    Z3_lbool r = Z3_solver_check(Z, S);
    if (r == Z3_L_TRUE)
        z3_model(s, S, mm);
    if (extra)
        Z3_solver_pop(Z, S, 1);
    return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
static int z3_fresh(State &s, E extra, Model &mm) {
    static Z3_tactic t = nullptr;
    if (!t) {
        t = Z3_mk_tactic(Z, "qfbv");
        Z3_tactic_inc_ref(Z, t);
    }
    Z3_solver f = Z3_mk_solver_from_tactic(Z, t);
    Z3_solver_inc_ref(Z, f);
    Z3_solver_set_params(Z, f, pr_full);
    for (E c : s.pc)
        Z3_solver_assert(Z, f, mkzb(c));
    if (extra)
        Z3_solver_assert(Z, f, mkzb(extra));
    Z3_lbool r = Z3_solver_check(Z, f);
    if (r == Z3_L_TRUE)
        z3_model(s, f, mm);
    Z3_solver_dec_ref(Z, f);
    return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
static bool model_ok(State &s, E extra, const Model &m) {
    g_epoch++;
    for (E c : s.pc)
        if (!eval_rec(c, m))
            return false;
    return !extra || eval_rec(extra, m);
}

// ---- integer back end: the same formula over the integers.  Exact: a sum
// is reduced modulo 2^w unless its bounds show that it cannot wrap.
struct NotLin {};
static Z3_sort zint;
static Z3_ast inum(__int128 v) {
    bool n = v < 0;
    unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
    string d;
    do
        d.insert(d.begin(), '0' + (char)(u % 10));
    while (u /= 10);
    return Z3_mk_numeral(Z, ((n ? "-" : "") + d).c_str(), zint);
}
static Z3_ast ipow(unsigned k) { return inum((__int128)1 << k); }
static Z3_ast mkib(E e);
static Z3_ast mkii(E e) {
    if (e->zi)
        return e->zi;
    Z3_ast r = nullptr;
    E a = e->a, b = e->b;
    auto add2 = [](Z3_ast x, Z3_ast y) {
        Z3_ast p[2] = {x, y};
        return Z3_mk_add(Z, 2, p);
    };
    auto mul2 = [](Z3_ast x, Z3_ast y) {
        Z3_ast p[2] = {x, y};
        return Z3_mk_mul(Z, 2, p);
    };
    auto pow2 = [](u64 v) { return v && (v & (v - 1)) == 0; };
    u64 m = mask(e->w);
    switch (e->k) {
    case CONST: r = inum(e->c); break;
    case SYM:
        r = Z3_mk_const(
            Z, Z3_mk_string_symbol(Z, ("i" + symname(e)).c_str()), zint);
        break;
    case ADD:
    case MUL: {
        if (e->k == MUL && !isc(b))
            throw NotLin();
        vector<std::pair<E, int64_t>> t;
        int64_t k = 0;
        lin_terms(e, t, k);
        vector<Z3_ast> p;
        for (auto &x : t)
            p.push_back(x.second == 1 ? mkii(x.first)
                                      : mul2(inum(x.second), mkii(x.first)));
        if (k)
            p.push_back(inum(k));
        r = p.size() == 1 ? p[0] : Z3_mk_add(Z, p.size(), p.data());
        __int128 lo, hi, full = (__int128)m + 1;
        if (!lin_bounds(e, lo, hi))
            r = Z3_mk_mod(Z, r, ipow(e->w));
        else if (lo >= 0 && hi < full)
            ;
        else if (lo >= -full && hi < full)
            r = Z3_mk_ite(Z, Z3_mk_ge(Z, r, inum(0)), r, add2(r, inum(full)));
        else if (lo >= 0 && hi < 2 * full)
            r = Z3_mk_ite(Z, Z3_mk_lt(Z, r, inum(full)), r,
                          add2(r, inum(-full)));
        else
            r = Z3_mk_mod(Z, r, ipow(e->w));
        break;
    }
    case UDIV:
        if (!isc(b) || !b->c)
            throw NotLin();
        r = Z3_mk_div(Z, mkii(a), inum(b->c));
        break;
    case UREM:
        if (!isc(b) || !b->c)
            throw NotLin();
        r = Z3_mk_mod(Z, mkii(a), inum(b->c));
        break;
    case AND:
        if (e->w == 1)
            break;
        if (!isc(b))
            throw NotLin();
        else {
            u64 low = ~b->c & m;
            if ((low & (low + 1)) == 0) { // clear the low bits
                Z3_ast x = mkii(a);
                r = mul2(inum((__int128)low + 1),
                         Z3_mk_div(Z, x, inum((__int128)low + 1)));
            } else if ((b->c & (b->c + 1)) == 0)
                r = Z3_mk_mod(Z, mkii(a), inum((__int128)b->c + 1));
            else if (pow2(b->c)) {
                unsigned k = __builtin_ctzll(b->c);
                r = mul2(ipow(k), Z3_mk_mod(Z, Z3_mk_div(Z, mkii(a), ipow(k)),
                                            inum(2)));
            } else
                throw NotLin();
        }
        break;
    case SHL:
        if (!isc(b) || b->c >= e->w)
            throw NotLin();
        r = mul2(ipow(b->c), mkii(a));
        if (a->hi > (m >> b->c))
            r = Z3_mk_mod(Z, r, ipow(e->w));
        break;
    case LSHR:
        if (!isc(b) || b->c >= e->w)
            throw NotLin();
        r = Z3_mk_div(Z, mkii(a), ipow(b->c));
        break;
    case ZEXT: r = mkii(a); break;
    case SEXT: {
        Z3_ast x = mkii(a);
        r = a->hi <= mask(a->w - 1)
                ? x
                : Z3_mk_ite(Z, Z3_mk_ge(Z, x, ipow(a->w - 1)),
                            add2(x, inum(((__int128)1 << e->w) -
                                         ((__int128)1 << a->w))),
                            x);
        break;
    }
    case EXTRACT:
        r = mkii(a);
        if (e->c)
            r = Z3_mk_div(Z, r, ipow(e->c));
        if ((a->hi >> e->c) > m)
            r = Z3_mk_mod(Z, r, ipow(e->w));
        break;
    case CONCAT: r = add2(mul2(ipow(b->w), mkii(a)), mkii(b)); break;
    case ITE: {
        if (e->w == 1)
            break;
        r = Z3_mk_ite(Z, mkib(e->d), mkii(a), mkii(b));
        break;
    }
    default:
        if (e->w != 1)
            throw NotLin();
    }
    if (!r)
        r = Z3_mk_ite(Z, mkib(e), inum(1), inum(0));
    Z3_inc_ref(Z, r);
    e->zi = r;
    return r;
}
static Z3_ast isgn(E a) {
    Z3_ast x = mkii(a);
    if (a->hi <= mask(a->w - 1))
        return x;
    Z3_ast p[2] = {x, ipow(a->w)};
    return Z3_mk_ite(Z, Z3_mk_ge(Z, x, ipow(a->w - 1)), Z3_mk_sub(Z, 2, p), x);
}
static Z3_ast mkib(E e) {
    E a = e->a, b = e->b;
    switch (e->k) {
    case CONST: return e->c ? Z3_mk_true(Z) : Z3_mk_false(Z);
    case EQ:
        if (a->w >= 8) {
            vector<std::pair<E, int64_t>> t, u;
            int64_t k = 0, ku = 0;
            lin_terms(a, t, k);
            lin_terms(b, u, ku);
            __int128 full = (__int128)mask(a->w) + 1, K = (__int128)k - ku,
                     lo = K, hi = K, big = (__int128)1 << 50;
            bool ok = t.size() + u.size() < 100;
            for (auto &x : u)
                t.push_back({x.first, -x.second});
            for (auto &x : t) {
                __int128 c = x.second;
                if (c > big || c < -big) {
                    ok = false;
                    break;
                }
                lo += c > 0 ? c * x.first->lo : c * x.first->hi;
                hi += c > 0 ? c * x.first->hi : c * x.first->lo;
            }
            if (ok && lo > -full && hi < full) { // only 0 is 0 mod 2^w
                vector<Z3_ast> pos{inum(0)}, neg{inum(0)};
                for (auto &x : t) {
                    auto &v = x.second > 0 ? pos : neg;
                    Z3_ast q[2] = {
                        inum(x.second > 0 ? x.second : -x.second),
                        mkii(x.first)};
                    v.push_back(Z3_mk_mul(Z, 2, q));
                }
                (K > 0 ? pos : neg).push_back(inum(K > 0 ? K : -K));
                return Z3_mk_eq(Z, Z3_mk_add(Z, pos.size(), pos.data()),
                                Z3_mk_add(Z, neg.size(), neg.data()));
            }
        }
        return Z3_mk_eq(Z, mkii(a), mkii(b));
    case ULT: return Z3_mk_lt(Z, mkii(a), mkii(b));
    case ULE: return Z3_mk_le(Z, mkii(a), mkii(b));
    case SLT: return Z3_mk_lt(Z, isgn(a), isgn(b));
    case SLE: return Z3_mk_le(Z, isgn(a), isgn(b));
    case UMULOV: {
        if (!isc(b))
            throw NotLin();
        Z3_ast p[2] = {inum(b->c), mkii(a)};
        return Z3_mk_gt(Z, Z3_mk_mul(Z, 2, p), inum(mask(a->w)));
    }
    case XOR:
        if (isc(b))
            return b->c ? Z3_mk_not(Z, mkib(a)) : mkib(a);
        return Z3_mk_xor(Z, mkib(a), mkib(b));
    case AND:
    case OR: {
        Z3_ast p[2] = {mkib(a), mkib(b)};
        return e->k == AND ? Z3_mk_and(Z, 2, p) : Z3_mk_or(Z, 2, p);
    }
    case ITE: return Z3_mk_ite(Z, mkib(e->d), mkib(a), mkib(b));
    default: return Z3_mk_eq(Z, mkii(e), inum(1));
    }
}
static Z3_solver SI;
static vector<E> si_stack;
static std::set<E> si_partial; // constraints left out (not linear)
static void si_model(State &s, Model &mm) {
    Z3_model m = Z3_solver_get_model(Z, SI);
    Z3_model_inc_ref(Z, m);
    mm.assign(s.syms.size(), 0);
    for (size_t i = 0; i < s.syms.size(); i++) {
        Z3_ast v = nullptr;
        E y = s.syms[i];
        mm[i] = y->lo;
        if (y->zi && Z3_model_eval(Z, m, y->zi, false, &v) && v) {
            uint64_t x = 0;
            if (Z3_is_numeral_ast(Z, v) && Z3_get_numeral_uint64(Z, v, &x))
                mm[i] = x;
        }
    }
    Z3_model_dec_ref(Z, m);
}
static Z3_ast sym_range(E y) {
    Z3_ast p[2] = {Z3_mk_le(Z, inum(y->lo), mkii(y)),
                   Z3_mk_le(Z, mkii(y), inum(y->hi))};
    return Z3_mk_and(Z, 2, p);
}
static std::unordered_map<E, vector<E>> symmemo;
static const vector<E> &syms_of(E e) {
    auto it = symmemo.find(e);
    if (it != symmemo.end())
        return it->second;
    std::set<E> r;
    if (e->k == SYM)
        r.insert(e);
    else
        for (E x : {e->a, e->b, e->d})
            if (x && !isc(x))
                for (E y : syms_of(x))
                    r.insert(y);
    return symmemo[e] = vector<E>(r.begin(), r.end());
}
static void si_assert(E c) {
    Z3_ast f;
    try {
        f = mkib(c);
    } catch (NotLin &) {
        si_partial.insert(c);
        return;
    }
    for (E y : syms_of(c))
        Z3_solver_assert(Z, SI, sym_range(y));
    Z3_solver_assert(Z, SI, f);
}
static Z3_params pr_int;
// 1 sat (model checked by the caller), 0 unsat, -1 no answer
static int lia(State &s, E extra, Model &mm) {
    size_t i = 0;
    while (i < si_stack.size() && i < s.pc.size() && si_stack[i] == s.pc[i])
        i++;
    if (si_stack.size() > i) {
        Z3_solver_pop(Z, SI, si_stack.size() - i);
        si_stack.resize(i);
    }
    for (; i < s.pc.size(); i++) {
        Z3_solver_push(Z, SI);
        si_assert(s.pc[i]);
        si_stack.push_back(s.pc[i]);
    }
    if (extra) {
        try {
            mkib(extra);
        } catch (NotLin &) {
            return -1;
        }
        Z3_solver_push(Z, SI);
        si_assert(extra);
    }
    Z3_solver_set_params(Z, SI, pr_int);
    Z3_lbool r = Z3_solver_check(Z, SI);
    if (r == Z3_L_TRUE)
        si_model(s, mm);
    if (extra)
        Z3_solver_pop(Z, SI, 1);
    return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
// true: sat (model filled, and checked by evaluation), false: unsat
static bool solve(State &s, E extra, std::shared_ptr<Model> *out) {
    double t0 = now();
    if (t0 - t_start > opt_timeout)
        throw Abort{"time limit"};
    auto mm = std::make_shared<Model>();
    int r = -1;
    if (opt_first == 2) {
        r = lia(s, extra, *mm);
        if (r == 1 && !model_ok(s, extra, *mm))
            r = -1;
        if (r >= 0)
            st.by_lia++;
    }
    if (opt_first == 0) {
        r = z3_inc(s, extra, *mm);
        if (r >= 0)
            st.by_z3++;
    }
    if (r < 0) {
        r = c5.check(s, extra, opt_first == 0 ? 3000 : 800, mm.get());
        if (r == 1 && !model_ok(s, extra, *mm))
            r = -1;
        if (r >= 0)
            st.by_c5++;
    }
    if (r < 0 && opt_first != 0) {
        r = z3_inc(s, extra, *mm);
        if (r >= 0)
            st.by_z3++;
    }
    if (r < 0) {
        r = z3_fresh(s, extra, *mm);
        if (r >= 0)
            st.by_fresh++;
    }
    double dt = now() - t0;
    if (opt_dump && dt > 0.5) {
        fprintf(stderr, "== query %.3fs r=%d\n", dt, r);
        for (E c : s.pc)
            fprintf(stderr, "  %s\n", estr(c, 9).c_str());
        if (extra)
            fprintf(stderr, "  ? %s\n", estr(extra, 9).c_str());
    }
    st.solver_s += dt;
    if (dt > st.max_q)
        st.max_q = dt;
    st.queries++;
    if (r < 0)
        throw Abort{fmt("solvers gave no answer after %.1f s", dt)};
    if (opt_cross && st.queries % opt_cross == 0) {
        Model m2;
        double t1 = now();
        int r2 = c5.check(s, extra, 1500, &m2);
        st.cross_s += now() - t1;
        if (r2 >= 0) {
            st.crossed++;
            if (r2 != r)
                throw Abort{"the two solvers disagree"};
        }
    }
    if (r == 1) {
        if (!model_ok(s, extra, *mm))
            throw Abort{"solver returned a wrong model"};
        st.qsat++;
        if (out)
            *out = mm;
    } else
        st.qunsat++;
    return r == 1;
}
// is cond (1 bit) satisfiable with the path condition?
static bool may(State &s, E c, std::shared_ptr<Model> *out = nullptr) {
    if (isc(c)) {
        if (c->c && out)
            *out = s.model;
        return c->c;
    }
    if (eval(c, *s.model)) {
        st.model_hits++;
        if (out)
            *out = s.model;
        return true;
    }
    E nc = mknot(c);
    for (E p : s.pc)
        if (p == nc)
            return false;
    std::shared_ptr<Model> tmp;
    return solve(s, c, out ? out : &tmp);
}
static void flatten_add(State &s, E c) {
    if (c->k == AND && c->w == 1) {
        flatten_add(s, c->a);
        flatten_add(s, c->b);
        return;
    }
    for (E p : s.pc)
        if (p == c)
            return;
    s.pc.push_back(c);
}
static void add_pc(State &s, E c) { flatten_add(s, c); }
// add constraint; false if the path becomes infeasible
static bool assume(State &s, E c) {
    if (isc(c))
        return c->c != 0;
    if (eval(c, *s.model)) {
        add_pc(s, c);
        return true;
    }
    std::shared_ptr<Model> m;
    if (!may(s, c, &m))
        return false;
    s.model = m;
    add_pc(s, c);
    return true;
}

// ------------------------------------------------------------------ module
static llvm::LLVMContext LC;
static std::unique_ptr<llvm::Module> M;
static const llvm::DataLayout *DL;
static std::unordered_map<const llvm::Function *, Func *> funcs;
static std::unordered_map<u64, Func *> func_at;
static std::unordered_map<const llvm::GlobalVariable *, u64> gaddr;
static std::map<string, int> builtins;
enum {
    B_NONE, B_ND, B_ASSUME, B_ASSERT, B_REACH, B_FORK, B_MALLOC, B_CALLOC,
    B_FREE, B_REALLOC, B_ALIGNED, B_ASSERTFAIL, B_ABORT, B_YIELD, B_SPAWN,
    B_WAIT0, B_JOINALL, B_TID, B_KILL, B_OBSERVE, B_MEMCPY, B_MEMSET,
    B_ISSYM, B_UNDEFINED, B_EXIT, B_LIMIT, B_ACQ, B_REL, B_VALID, B_ND1,
    B_NDR, B_ERRNO
};
static unsigned bits(llvm::Type *t) {
    if (t->isPointerTy())
        return 64;
    if (t->isIntegerTy())
        return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
}
static u64 const_int(const llvm::Constant *c);
static Func *get_func(const llvm::Function *F) {
    auto it = funcs.find(F);
    if (it != funcs.end())
        return it->second;
    Func *f = new Func;
    f->F = F;
    f->name = F->getName().str();
    f->addr = 0x7E0000000000ull + funcs.size() * 64;
    if (auto *sp = F->getSubprogram()) {
        f->file = sp->getFilename().str();
        if (!f->file.empty() && f->file[0] != '/')
            f->file = sp->getDirectory().str() + "/" + f->file;
        f->repo = f->file.compare(0, opt_repo.size(), opt_repo) == 0;
        f->model = f->file.find("/vf/models/") != string::npos ||
                   F->getSection() == ".vfq";
    }
    funcs[F] = f;
    func_at[f->addr] = f;
    return f;
}
static u64 const_int(const llvm::Constant *c) {
    using namespace llvm;
    if (auto *i = dyn_cast<ConstantInt>(c)) {
        if (i->getBitWidth() > 64)
            throw Abort{"integer constant wider than 64 bits"};
        return i->getZExtValue();
    }
    if (isa<ConstantPointerNull>(c))
        return 0;
    if (auto *f = dyn_cast<Function>(c))
        return get_func(f)->addr;
    if (auto *g = dyn_cast<GlobalVariable>(c)) {
        auto it = gaddr.find(g);
        if (it == gaddr.end())
            throw Abort{"unknown global " + g->getName().str()};
        return it->second;
    }
    if (auto *a = dyn_cast<GlobalAlias>(c))
        return const_int(a->getAliasee());
    if (isa<UndefValue>(c))
        return 0;
    if (isa<ConstantAggregateZero>(c))
        return 0;
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *g = cast<GEPOperator>(e);
            APInt off(64, 0);
            if (!g->accumulateConstantOffset(*DL, off))
                throw Abort{"non-constant gep constant"};
            return const_int(cast<Constant>(g->getPointerOperand())) +
                   off.getSExtValue();
        }
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast:
            return const_int(e->getOperand(0)) & mask(bits(e->getType()));
        case Instruction::Trunc:
            return const_int(e->getOperand(0)) & mask(bits(e->getType()));
        case Instruction::Add:
            return const_int(e->getOperand(0)) + const_int(e->getOperand(1));
        case Instruction::Sub:
            return const_int(e->getOperand(0)) - const_int(e->getOperand(1));
        case Instruction::ICmp: {
            auto p = e->getPredicate();
            u64 a = const_int(e->getOperand(0)), b = const_int(e->getOperand(1));
            if (p == CmpInst::ICMP_EQ) return a == b;
            if (p == CmpInst::ICMP_NE) return a != b;
        }
        default: break;
        }
        throw Abort{string("constant expression ") + e->getOpcodeName()};
    }
    if (auto *f = dyn_cast<ConstantFP>(c))
        return f->getValueAPF().bitcastToAPInt().getZExtValue();
    throw Abort{"unsupported constant"};
}
static void init_bytes(uint8_t *p, const llvm::Constant *c) {
    using namespace llvm;
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) ||
        isa<ConstantPointerNull>(c))
        return;
    if (auto *s = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(s->getType());
        for (unsigned i = 0; i < s->getNumOperands(); i++)
            init_bytes(p + sl->getElementOffset(i), s->getOperand(i));
        return;
    }
    if (auto *a = dyn_cast<ConstantArray>(c)) {
        u64 es = DL->getTypeAllocSize(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); i++)
            init_bytes(p + i * es, a->getOperand(i));
        return;
    }
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = DL->getTypeAllocSize(d->getElementType());
        for (unsigned i = 0; i < d->getNumElements(); i++) {
            u64 v = d->getElementType()->isIntegerTy()
                        ? d->getElementAsInteger(i)
                        : d->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
            memcpy(p + i * es, &v, es);
        }
        return;
    }
    if (c->getType()->isX86_FP80Ty() || c->getType()->isFP128Ty())
        return;
    u64 v = const_int(c);
    u64 n = (bits(c->getType()) + 7) / 8;
    memcpy(p, &v, n);
}

static void compile(Func *f);

// ------------------------------------------------------------------ engine
static string loc_of(const llvm::Instruction *I) {
    if (!I)
        return "?";
    if (auto &dl = I->getDebugLoc()) {
        auto *sc = dl.get();
        return sc->getFilename().str() + ":" + std::to_string(sc->getLine());
    }
    return I->getFunction()->getName().str();
}
static string stack_of(State &s) {
    string r;
    for (auto it = s.th[s.cur].st.rbegin(); it != s.th[s.cur].st.rend(); ++it) {
        Func *f = it->f;
        int pc = it->pc;
        if (it != s.th[s.cur].st.rbegin())
            pc--;
        r += f->name;
        if (pc >= 0 && pc < (int)f->code.size() && f->code[pc].I)
            r += "@" + loc_of(f->code[pc].I);
        r += " < ";
    }
    return r;
}
static string draws_json(State &s, const Model &m) {
    string r = "[";
    for (size_t i = 0; i < s.draws.size(); i++) {
        u64 v = s.draws[i].e ? eval(s.draws[i].e, m) : s.draws[i].c;
        r += (i ? "," : "") + fmt("%llu", (unsigned long long)v);
    }
    return r + "]";
}
static string obs_json(State &s, const Model &m) {
    string r = "[";
    for (size_t i = 0; i < s.obs.size(); i++) {
        u64 v = s.obs[i].e ? eval(s.obs[i].e, m) : s.obs[i].c;
        r += (i ? "," : "") + fmt("%llu", (unsigned long long)v);
    }
    return r + "]";
}
static string sched_json(State &s) {
    string r = "[";
    for (size_t i = 0; i < s.sched.size(); i++)
        r += (i ? "," : "") + fmt("%d", s.sched[i]);
    return r + "]";
}
struct Done {}; // path finished (thrown)
struct Stop {}; // whole run finished

static void violation(State &s, const string &msg,
                      std::shared_ptr<Model> m = nullptr) {
    if (!m)
        m = s.model;
    Viol v;
    v.msg = msg;
    Frame &f = s.th[s.cur].st.back();
    v.loc = f.pc < (int)f.f->code.size() ? loc_of(f.f->code[f.pc].I) : "?";
    v.trace = stack_of(s);
    v.draws = draws_json(s, *m);
    v.sched = sched_json(s);
    g_viol.push_back(v);
    if (opt_stop_first)
        throw Stop{};
}
static std::map<std::string, u64> g_sites;
static State *fork_state(State &s) {
    State *n = new State(s);
    st.forks++;
    if (opt_sites)
        g_sites[stack_of(s).substr(0, 90)]++;
    return n;
}
static bool part_ok(State &s) {
    if (opt_parts <= 1)
        return true;
    u64 h = s.dec_hash;
    h ^= h >> 31;
    h *= 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    return (int)(h % opt_parts) == opt_part;
}
// record a decision; returns false if this part must not explore further
static bool decide(State &s, u64 d) {
    if (s.forks < opt_part_depth) {
        s.dec_hash = (s.dec_hash ^ (d + 1)) * 1099511628211ull;
    }
    s.forks++;
    if (opt_parts > 1 && s.forks == opt_part_depth && !part_ok(s)) {
        st.partition_dropped++;
        return false;
    }
    return true;
}
static V nd(State &s, unsigned w, bool draw, u64 lo = 0, u64 hi = ~0ull) {
    E e = symb(s.syms.size(), w, lo, hi);
    s.syms.push_back(e);
    auto m = std::make_shared<Model>(*s.model);
    m->resize(s.syms.size());
    m->back() = lo;
    s.model = m;
    if (draw)
        s.draws.push_back(sym(e));
    return sym(e);
}
// Forks on all feasible values of e; current state takes one; returns value.
static u64 concretize(State &s, E e) {
    if (isc(e))
        return e->c;
    u64 v = eval(e, *s.model);
    E eq = mkeq(e, cst(e->w, v));
    // others
    State *o = nullptr;
    std::shared_ptr<Model> m;
    if (may(s, mknot(eq), &m)) {
        o = fork_state(s);
        o->model = m;
        add_pc(*o, mknot(eq));
        if (decide(*o, 1))
            work.push_back(o);
        else
            delete o;
        add_pc(s, eq);
        if (!decide(s, 0))
            throw Done{};
    }
    return v;
}
// continue with c, which holds in the current model; the rest later
static void split_on(State &s, E c) {
    if (isc(c))
        return;
    std::shared_ptr<Model> m;
    if (may(s, mknot(c), &m)) {
        State *o = fork_state(s);
        o->model = m;
        add_pc(*o, mknot(c));
        if (decide(*o, 1))
            work.push_back(o);
        else
            delete o;
        add_pc(s, c);
        if (!decide(s, 0))
            throw Done{};
    }
}
static V operand(State &s, Frame &f, const Opnd &o, unsigned w) {
    if (o.reg >= 0)
        return f.regs[o.reg];
    if (o.undef)
        return nd(s, w ? w : 64, false);
    return o.c;
}
static ObjP find_obj(State &s, u64 a) {
    auto it = s.mem.upper_bound(a);
    if (it == s.mem.begin())
        return nullptr;
    --it;
    return it->second;
}
static u64 new_obj(State &s, u64 size, u64 align, int kind, bool zero,
                   const llvm::Value *src = nullptr) {
    auto o = std::make_shared<Obj>();
    u64 &nx = kind == OK_STACK ? s.next_stack : s.next_heap;
    if (align < 16)
        align = 16;
    u64 b = (nx + align - 1) & ~(align - 1);
    nx = b + size + 64;
    o->base = b;
    o->size = size;
    o->kind = kind;
    o->src = src;
    o->con.assign(size, 0);
    if (!zero)
        o->sym.assign(size, SB{UNINIT, 0});
    if (kind == OK_HEAP)
        o->seq = s.heap_seq++;
    s.mem[b] = o;
    return b;
}
static ObjP writable(State &s, ObjP o) {
    auto &slot = s.mem[o->base];
    o.reset();
    if (slot.use_count() > 1)
        slot = std::make_shared<Obj>(*slot);
    return slot;
}
static string objdesc(const ObjP &o, u64 a) {
    static const char *kn[] = {"global", "stack", "heap", "function"};
    string nm;
    if (o->src && o->src->hasName())
        nm = " '" + o->src->getName().str() + "'";
    return fmt("%s object%s of %llu bytes at offset %lld", kn[o->kind],
               nm.c_str(), (unsigned long long)o->size,
               (long long)(a - o->base));
}
// check a concrete access
static ObjP access(State &s, u64 a, u64 n, bool write, const char *what) {
    st.mem_checks++;
    ObjP o = find_obj(s, a);
    if (a < 4096) {
        violation(s, fmt("memory: %s through a NULL pointer (0x%llx)", what,
                         (unsigned long long)a));
        throw Done{};
    }
    if (!o || a - o->base >= o->size + (n == 0) || n > o->size - (a - o->base)) {
        if (o && a - o->base < o->size + 64) {
            if (!o->alive)
                violation(s, fmt("memory: %s after free (%s)", what,
                                 objdesc(o, a).c_str()));
            else
                violation(s, fmt("memory: %s out of bounds (%s)", what,
                                 objdesc(o, a).c_str()));
        } else
            violation(s, fmt("memory: %s through an invalid pointer 0x%llx",
                             what, (unsigned long long)a));
        throw Done{};
    }
    if (!o->alive) {
        violation(s, fmt("memory: %s after free (%s)", what,
                         objdesc(o, a).c_str()));
        throw Done{};
    }
    if (write && o->ro) {
        violation(s, fmt("memory: write to constant (%s)", objdesc(o, a).c_str()));
        throw Done{};
    }
    return o;
}
static E byte_expr(E e, unsigned idx) {
    if (e->w == 8)
        return e;
    return mkextract(e, idx * 8, 8);
}
static V read_obj(State &s, ObjP o, u64 off, unsigned n) {
    if (o->sym.empty()) {
        u64 v = 0;
        memcpy(&v, &o->con[off], n);
        return con(v);
    }
    bool allc = true, allu = true;
    for (unsigned i = 0; i < n; i++) {
        E e = o->sym[off + i].e;
        if (e)
            allc = false;
        if (e != UNINIT)
            allu = false;
    }
    if (allc) {
        u64 v = 0;
        memcpy(&v, &o->con[off], n);
        return con(v);
    }
    if (allu) {
        o = writable(s, o);
        V v = nd(s, n * 8, false);
        for (unsigned i = 0; i < n; i++)
            o->sym[off + i] = SB{v.e, i};
        return v;
    }
    // same expression, consecutive
    SB b0 = o->sym[off];
    if (b0.e && b0.e != UNINIT) {
        bool same = true;
        for (unsigned i = 1; i < n; i++)
            if (o->sym[off + i].e != b0.e || o->sym[off + i].idx != b0.idx + i) {
                same = false;
                break;
            }
        if (same) {
            if (b0.idx == 0 && b0.e->w == n * 8)
                return sym(b0.e);
            return sym(mkextract(b0.e, b0.idx * 8, n * 8));
        }
    }
    E acc = nullptr;
    for (unsigned i = 0; i < n; i++) {
        SB b = o->sym[off + i];
        E e;
        if (!b.e)
            e = cst(8, o->con[off + i]);
        else if (b.e == UNINIT) {
            o = writable(s, o);
            V v = nd(s, 8, false);
            o->sym[off + i] = SB{v.e, 0};
            e = v.e;
        } else
            e = byte_expr(b.e, b.idx);
        acc = acc ? mkconcat(e, acc) : e;
    }
    return sym(acc);
}
static void write_obj(State &s, ObjP o0, u64 off, unsigned n, V v, unsigned w) {
    ObjP o = writable(s, o0);
    if (!v.e) {
        memcpy(&o->con[off], &v.c, n);
        if (!o->sym.empty())
            for (unsigned i = 0; i < n; i++)
                o->sym[off + i].e = nullptr;
        return;
    }
    if (o->sym.empty())
        o->sym.assign(o->size, SB{nullptr, 0});
    E e = v.e;
    if (e->w != n * 8)
        e = mkzext(e, n * 8);
    if (isc(e)) {
        memcpy(&o->con[off], &e->c, n);
        for (unsigned i = 0; i < n; i++)
            o->sym[off + i].e = nullptr;
        return;
    }
    for (unsigned i = 0; i < n; i++)
        o->sym[off + i] = SB{e, i};
    (void)w;
}
// resolve a pointer value to a concrete address, forking if need be
static u64 resolve(State &s, V &p, unsigned n, const char *what) {
    if (!p.e)
        return p.c;
    // a model value outside every live object is already an error
    u64 v = eval(p.e, *s.model);
    ObjP o = find_obj(s, v);
    if (!o || !o->alive || v - o->base >= o->size) {
        violation(s, fmt("memory: %s through an invalid pointer 0x%llx", what,
                         (unsigned long long)v));
        throw Done{};
    }
    // can it leave the object it points to in this model?
    (void)n;
    u64 r = concretize(s, p.e);
    p = con(r);
    return r;
}

// a read at base + c * i, i in a small range, inside one object and with few
// distinct values: one value (if-then-else over i) instead of a path per i
static bool merged_read(State &s, E p, unsigned n, V &out) {
    std::vector<std::pair<E, int64_t>> t;
    int64_t k = 0;
    lin_terms(p, t, k);
    if (t.size() != 1 || t[0].second <= 0)
        return false;
    E x = t[0].first;
    if (x->hi - x->lo > 31 || p->lo == p->hi)
        return false;
    u64 c = t[0].second;
    if ((__int128)c * x->hi + k > (__int128)1 << 62 || (__int128)c * x->lo + k < 4096)
        return false;
    ObjP o = find_obj(s, c * x->lo + k);
    if (!o || !o->alive)
        return false;
    std::vector<std::pair<V, std::vector<u64>>> g;
    for (u64 i = x->lo; i <= x->hi; i++) {
        u64 a = c * i + k;
        if (a < o->base || a - o->base > o->size || n > o->size - (a - o->base))
            return false;
        if (!o->sym.empty())
            for (unsigned j = 0; j < n; j++)
                if (o->sym[a - o->base + j].e == UNINIT)
                    return false;
        V v = read_obj(s, o, a - o->base, n);
        bool f = false;
        for (auto &q : g)
            if (q.first.e == v.e && (v.e || q.first.c == v.c)) {
                q.second.push_back(i);
                f = true;
            }
        if (!f) {
            if (g.size() >= 4)
                return false;
            g.push_back({v, {i}});
        }
    }
    st.mem_checks++;
    size_t big = 0;
    for (size_t i = 1; i < g.size(); i++)
        if (g[i].second.size() > g[big].second.size())
            big = i;
    E acc = ex(g[big].first, n * 8);
    for (size_t i = 0; i < g.size(); i++) {
        if (i == big)
            continue;
        E cond = cst(1, 0);
        for (u64 v : g[i].second)
            cond = mkbin(OR, cond, mkeq(x, cst(x->w, v)));
        acc = mkite(cond, ex(g[i].first, n * 8), acc);
    }
    out = sym(acc);
    return true;
}

// ---- race detection (happens-before), only between plain accesses to
// heap/global objects when several threads exist
static void race_check(State &s, const ObjP &o, u64 a, unsigned n, bool write,
                       bool atomic) {
    if (!opt_race || s.th.size() < 2 || o->kind == OK_STACK)
        return;
    if (s.th[s.cur].st.empty() || s.th[s.cur].st.back().f->model)
        return;
    auto &vc = s.th[s.cur].vc;
    for (u64 x = a; x < a + n; x++) {
        Acc &c = s.acc[x];
        c.rc.resize(s.th.size());
        c.rac.resize(s.th.size());
        auto conflict = [&](int t, uint32_t clk) {
            return t != s.cur && clk && clk > (t < (int)vc.size() ? vc[t] : 0);
        };
        bool bad = false;
        if (c.wt >= 0 && conflict(c.wt, c.wc) && !(c.watomic && atomic))
            bad = true;
        if (write)
            for (int t = 0; t < (int)s.th.size(); t++) {
                if (conflict(t, c.rc[t]))
                    bad = true;
                if (!atomic && conflict(t, c.rac[t]))
                    bad = true;
            }
        if (bad) {
            violation(s, fmt("data race on %s", objdesc(o, a).c_str()));
            throw Done{};
        }
        if (write) {
            c.wt = s.cur;
            c.wc = vc[s.cur];
            c.watomic = atomic;
        } else
            (atomic ? c.rac : c.rc)[s.cur] = vc[s.cur];
    }
}
static void vc_join(vector<uint32_t> &a, const vector<uint32_t> &b) {
    if (a.size() < b.size())
        a.resize(b.size());
    for (size_t i = 0; i < b.size(); i++)
        a[i] = std::max(a[i], b[i]);
}
static void sync_acq(State &s, u64 a) {
    if (!opt_race || s.th.size() < 2)
        return;
    vc_join(s.th[s.cur].vc, s.sync_vc[a]);
}
static void sync_rel(State &s, u64 a) {
    if (!opt_race || s.th.size() < 2)
        return;
    vc_join(s.sync_vc[a], s.th[s.cur].vc);
    s.th[s.cur].vc[s.cur]++;
}

// ---- scheduling
static bool runnable(State &s, int t) {
    Thread &T = s.th[t];
    if (T.done)
        return false;
    if (T.wait0) {
        ObjP o = find_obj(s, T.wait0);
        if (!o || !o->alive)
            return true;
        V v = read_obj(s, o, T.wait0 - o->base, 4);
        if (v.e)
            return true;
        return v.c == 0;
    }
    if (T.joinall) {
        for (int i = 0; i < (int)s.th.size(); i++)
            if (i != t && !s.th[i].done)
                return false;
        return true;
    }
    return true;
}
// forced: the current thread cannot continue
static void schedule(State &s, bool forced) {
    if (s.th.size() < 2)
        return;
    vector<int> c;
    for (int i = 0; i < (int)s.th.size(); i++)
        if (i != s.cur && runnable(s, i))
            c.push_back(i);
    if (forced) {
        if (c.empty()) {
            bool all = true;
            for (auto &t : s.th)
                if (!t.done)
                    all = false;
            if (all)
                return;
            violation(s, "deadlock: every thread is blocked");
            throw Done{};
        }
        for (size_t i = 1; i < c.size(); i++) {
            State *n = fork_state(s);
            n->sched.push_back(c[i]);
            n->cur = c[i];
            n->th[c[i]].wait0 = 0;
            if (decide(*n, 100 + i))
                work.push_back(n);
            else
                delete n;
        }
        s.sched.push_back(c[0]);
        s.cur = c[0];
        s.th[c[0]].wait0 = 0;
        if (c.size() > 1 && !decide(s, 100))
            throw Done{};
        return;
    }
    if (s.preempts < opt_preempt && !c.empty()) {
        for (int t : c) {
            State *n = fork_state(s);
            n->sched.push_back(t);
            n->preempts++;
            n->cur = t;
            n->th[t].wait0 = 0;
            if (decide(*n, 200 + t))
                work.push_back(n);
            else
                delete n;
        }
        s.sched.push_back(s.cur);
        if (!decide(s, 200 + s.cur))
            throw Done{};
    } else
        s.sched.push_back(s.cur);
}

static void finish_path(State &s) {
    if (opt_parts > 1 && s.forks < opt_part_depth && !part_ok(s)) {
        st.partition_dropped++;
        return;
    }
    st.paths++;
    for (const char *m : s.marks)
        g_reach[m]++;
    // reservoir of sample paths, replayed natively afterwards
    static u64 seen = 0, rng = 88172645463325252ull + opt_seed;
    seen++;
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    string j;
    auto mk = [&] {
        return fmt("{\"draws\":") + draws_json(s, *s.model) +
               ",\"sched\":" + sched_json(s) + ",\"obs\":" +
               obs_json(s, *s.model) + "}";
    };
    if ((int)g_samples.size() < opt_samples)
        g_samples.push_back(mk());
    else if (opt_samples && rng % seen < (u64)opt_samples)
        g_samples[rng % opt_samples] = mk();
}

static void push_call(State &s, Func *f, vector<V> &args, int ret, unsigned rw) {
    if (!f->compiled)
        compile(f);
    f->calls++;
    if (s.th[s.cur].st.size() > 400)
        throw Abort{"call depth limit in " + f->name};
    Frame fr;
    fr.f = f;
    fr.regs.resize(f->nregs);
    for (size_t i = 0; i < args.size() && i < f->argw.size(); i++)
        fr.regs[i] = args[i];
    fr.ret = ret;
    fr.retw = rw;
    s.th[s.cur].st.push_back(std::move(fr));
}
static void jump(State &s, Frame &f, int to) {
    Blk &b = f.f->blks[to];
    if (!b.phis.empty()) {
        V tmp[64];
        int n = 0;
        for (auto &p : b.phis) {
            for (auto &in : p.in)
                if (in.first == f.bb) {
                    tmp[n] = operand(s, f, in.second, 64);
                    break;
                }
            n++;
        }
        n = 0;
        for (auto &p : b.phis)
            f.regs[p.dst] = tmp[n++];
    }
    f.bb = to;
    f.pc = b.start;
}
static V binop(State &s, K k, unsigned w, V a, V b) {
    (void)s;
    if (!a.e && !b.e)
        return con(foldbin(k, w, a.c, b.c));
    return sym(mkbin(k, ex(a, w), ex(b, w)));
}
static string cstr(State &s, u64 a) {
    string r;
    for (int i = 0; i < 300; i++) {
        ObjP o = find_obj(s, a);
        if (!o || a - o->base >= o->size)
            break;
        char c = (char)o->con[a - o->base];
        if (!c)
            break;
        r += c;
        a++;
    }
    return r;
}
static const char *intern(const string &x) {
    static std::set<string> p;
    return p.insert(x).first->c_str();
}
static void no_overlap(State &s, bool check, u64 d, u64 src, u64 n) {
    if (check && d != src && d < src + n && src < d + n) {
        violation(s, "memory: memcpy of overlapping memory");
        throw Done{};
    }
}
static void do_memcpy(State &s, u64 d, u64 src, u64 n) {
    if (!n)
        return;
    ObjP so = access(s, src, n, false, "read (memcpy)");
    ObjP dob = access(s, d, n, true, "write (memcpy)");
    race_check(s, so, src, n, false, false);
    race_check(s, dob, d, n, true, false);
    u64 soff = src - so->base, doff = d - dob->base;
    vector<uint8_t> c(so->con.begin() + soff, so->con.begin() + soff + n);
    vector<SB> sb;
    if (!so->sym.empty())
        sb.assign(so->sym.begin() + soff, so->sym.begin() + soff + n);
    so.reset();
    ObjP w = writable(s, dob);
    memcpy(&w->con[doff], c.data(), n);
    if (!sb.empty()) {
        if (w->sym.empty())
            w->sym.assign(w->size, SB{nullptr, 0});
        for (u64 i = 0; i < n; i++)
            w->sym[doff + i] = sb[i];
    } else if (!w->sym.empty())
        for (u64 i = 0; i < n; i++)
            w->sym[doff + i].e = nullptr;
}
static void do_memset(State &s, u64 d, V v, u64 n) {
    if (!n)
        return;
    ObjP dob = access(s, d, n, true, "write (memset)");
    race_check(s, dob, d, n, true, false);
    u64 doff = d - dob->base;
    ObjP w = writable(s, dob);
    if (!v.e) {
        memset(&w->con[doff], (int)(v.c & 255), n);
        if (!w->sym.empty())
            for (u64 i = 0; i < n; i++)
                w->sym[doff + i].e = nullptr;
    } else {
        if (w->sym.empty())
            w->sym.assign(w->size, SB{nullptr, 0});
        E e = mkextract(ex(v, v.e->w), 0, 8);
        for (u64 i = 0; i < n; i++)
            w->sym[doff + i] = SB{e, 0};
    }
}
static void do_free(State &s, u64 a) {
    if (!a)
        return;
    ObjP o = find_obj(s, a);
    if (!o || o->base != a || o->kind != OK_HEAP) {
        violation(s, fmt("memory: free of a pointer that was not allocated "
                         "(0x%llx)",
                         (unsigned long long)a));
        throw Done{};
    }
    if (!o->alive) {
        violation(s, fmt("memory: double free (%s)", objdesc(o, a).c_str()));
        throw Done{};
    }
    race_check(s, o, a, o->size ? (unsigned)o->size : 1, true, false);
    ObjP w = std::make_shared<Obj>();
    w->base = o->base;
    w->size = o->size;
    w->kind = o->kind;
    w->seq = o->seq;
    w->src = o->src;
    w->alive = false;
    s.mem[a] = w;
}
static void check_assert(State &s, E c, const string &msg) {
    st.asserts++;
    if (isc(c)) {
        if (!c->c) {
            violation(s, msg);
            throw Done{};
        }
        return;
    }
    st.asserts_sym++;
    std::shared_ptr<Model> m;
    if (may(s, mknot(c), &m)) {
        violation(s, msg, m);
        if (!assume(s, c))
            throw Done{};
    }
}

// Executes one builtin. Returns true if pc must not advance (re-execute).
static void do_builtin(State &s, Frame &f, Inst &in, vector<V> &a) {
    auto setr = [&](V v) {
        if (in.dst >= 0)
            s.th[s.cur].st.back().regs[in.dst] = v;
    };
    auto conc = [&](int i) -> u64 {
        if (a[i].e) {
            u64 v = concretize(s, a[i].e);
            a[i] = con(v);
        }
        return a[i].c;
    };
    switch (in.builtin) {
    case B_ND: setr(nd(s, 64, true)); break;
    case B_ND1: {
        E e = symb(s.syms.size(), 1);
        s.syms.push_back(e);
        auto m = std::make_shared<Model>(*s.model);
        m->resize(s.syms.size());
        s.model = m;
        V v = sym(mkzext(e, 64));
        s.draws.push_back(v);
        setr(v);
        break;
    }
    case B_NDR: { // range [lo,hi]; narrow symbol when it fits
        if (!a[0].e && !a[1].e) {
            u64 lo = a[0].c, hi = a[1].c;
            if (lo > hi)
                throw Done{};
            if (lo == hi) {
                s.draws.push_back(con(lo));
                setr(con(lo));
                break;
            }
            V v = nd(s, 64, true, lo, hi);
            add_pc(s, raw(ULE, 1, 0, cst(64, lo), v.e));
            add_pc(s, raw(ULE, 1, 0, v.e, cst(64, hi)));
            setr(v);
            break;
        }
        V v = nd(s, 64, true);
        setr(v);
        E lo = ex(a[0], 64), hi = ex(a[1], 64);
        if (!assume(s, mkcmp(ULE, lo, v.e)) || !assume(s, mkcmp(ULE, v.e, hi))) {
            st.killed++;
            throw Done{};
        }
        break;
    }
    case B_ASSUME: {
        E c = mknot(mkeq(ex(a[0], in.w2), cst(in.w2, 0)));
        if (!assume(s, c)) {
            st.killed++;
            throw Done{};
        }
        break;
    }
    case B_ASSERT: {
        E c = mknot(mkeq(ex(a[0], in.w2), cst(in.w2, 0)));
        check_assert(s, c, cstr(s, a[1].c));
        break;
    }
    case B_REACH: s.marks.push_back(intern(cstr(s, a[0].c))); break;
    case B_FORK: setr(con(conc(0))); break;
    case B_MALLOC: setr(con(new_obj(s, conc(0), 16, OK_HEAP, false))); break;
    case B_CALLOC: {
        u64 n = conc(0) * conc(1);
        setr(con(new_obj(s, n, 16, OK_HEAP, true)));
        break;
    }
    case B_ALIGNED: {
        u64 al = conc(0), n = conc(1);
        setr(con(new_obj(s, n, al, OK_HEAP, false)));
        break;
    }
    case B_FREE: do_free(s, conc(0)); break;
    case B_ASSERTFAIL:
        violation(s, "assertion in the code failed: " + cstr(s, a[0].c));
        throw Done{};
    case B_ABORT: violation(s, "abort() called"); throw Done{};
    case B_EXIT: throw Done{};
    case B_KILL: st.killed++; throw Done{};
    case B_LIMIT: throw Abort{"harness bound reached: " + cstr(s, a[0].c)};
    case B_YIELD:
        f.pc++; // resume after the call
        schedule(s, false);
        return;
    case B_SPAWN: {
        u64 fn = conc(0);
        auto it = func_at.find(fn);
        if (it == func_at.end())
            throw Abort{"spawn of unknown function"};
        if (s.th[0].vc.empty())
            s.th[0].vc.assign(1, 1);
        Thread t;
        int id = s.th.size();
        s.th.push_back(t);
        for (auto &x : s.th)
            x.vc.resize(s.th.size());
        s.th[id].vc = s.th[s.cur].vc;
        s.th[id].vc[id] = 1;
        s.th[s.cur].vc[s.cur]++;
        int me = s.cur;
        s.cur = id;
        vector<V> args{a[1]};
        push_call(s, it->second, args, -1, 0);
        s.cur = me;
        break;
    }
    case B_WAIT0: {
        u64 ad = conc(0);
        s.th[s.cur].wait0 = ad;
        f.pc++;
        if (!runnable(s, s.cur))
            schedule(s, true);
        else
            s.th[s.cur].wait0 = 0;
        return;
    }
    case B_JOINALL:
        s.th[s.cur].joinall = true;
        f.pc++;
        if (!runnable(s, s.cur))
            schedule(s, true);
        s.th[s.cur].joinall = s.th[s.cur].joinall && !runnable(s, s.cur);
        return;
    case B_ERRNO: {
        u64 &e = s.errno_at[s.cur];
        if (!e)
            e = new_obj(s, 4, 16, OK_GLOBAL, true);
        setr(con(e));
        break;
    }
    case B_TID: setr(con(s.cur)); break;
    case B_OBSERVE: s.obs.push_back(a[0]); break;
    case B_MEMCPY: {
        u64 n = conc(2);
        u64 d = resolve(s, a[0], n, "write"), sr = resolve(s, a[1], n, "read");
        do_memcpy(s, d, sr, n);
        setr(con(d));
        break;
    }
    case B_MEMSET: {
        u64 n = conc(2);
        do_memset(s, resolve(s, a[0], n, "write"), a[1], n);
        setr(a[0]);
        break;
    }
    case B_ISSYM: setr(con(a[0].e ? 1 : 0)); break;
    case B_ACQ: sync_acq(s, conc(0)); break;
    case B_REL: sync_rel(s, conc(0)); break;
    case B_VALID: {
        // is [p, p+n) inside a live object?
        u64 p = conc(0), n = conc(1);
        ObjP o = find_obj(s, p);
        bool ok = o && o->alive && p - o->base < o->size && n <= o->size - (p - o->base);
        setr(con(ok));
        break;
    }
    default: throw Abort{"builtin not implemented"};
    }
    s.th[s.cur].st.back().pc++;
}

static V intrinsic(State &s, Inst &in, vector<V> &a) {
    using namespace llvm;
    unsigned w = in.w2;
    switch (in.sub) {
    case 1: // ctpop
    case 2: // ctlz
    case 3: { // cttz
        if (!a[0].e) {
            u64 v = a[0].c & mask(w);
            if (in.sub == 1) return con(__builtin_popcountll(v));
            if (in.sub == 2) return con(v ? __builtin_clzll(v) - (64 - w) : w);
            return con(v ? __builtin_ctzll(v) : w);
        }
        E x = a[0].e, r;
        if (in.sub == 2 || in.sub == 3) {
            // one path per position of the bit: every constraint stays linear
            u64 v = eval(x, *s.model) & mask(w);
            E c;
            u64 res;
            if (!v) {
                c = mkeq(x, cst(w, 0));
                res = w;
            } else if (in.sub == 2) {
                unsigned k = 63 - __builtin_clzll(v);
                c = mknot(mkcmp(ULT, x, cst(w, 1ull << k)));
                if (k + 1 < w)
                    c = mkbin(AND, c, mkcmp(ULT, x, cst(w, 1ull << (k + 1))));
                res = w - 1 - k;
            } else {
                unsigned k = __builtin_ctzll(v);
                c = mkeq(mkbin(AND, x, cst(w, k == 63 ? ~0ull : (2ull << k) - 1)), cst(w, 1ull << k));
                res = k;
            }
            split_on(s, c);
            return con(res);
        }
        if (in.sub == 1) {
            r = cst(w, 0);
            for (unsigned i = 0; i < w; i++)
                r = mkadd(r, mkzext(mkextract(x, i, 1), w));
        } else if (in.sub == 2) {
            r = cst(w, w);
            for (unsigned i = 0; i < w; i++)
                r = mkite(mkextract(x, i, 1), cst(w, w - 1 - i), r);
        } else {
            r = cst(w, w);
            for (int i = w - 1; i >= 0; i--)
                r = mkite(mkextract(x, i, 1), cst(w, i), r);
        }
        return sym(r);
    }
    case 4: // umax
    case 5: // umin
    case 6: // smax
    case 7: { // smin
        E x = ex(a[0], w), y = ex(a[1], w);
        E lt = mkcmp(in.sub <= 5 ? ULT : SLT, x, y);
        bool mx = in.sub == 4 || in.sub == 6;
        return sym(mx ? mkite(lt, y, x) : mkite(lt, x, y));
    }
    case 8: { // abs
        E x = ex(a[0], w);
        return sym(mkite(mkcmp(SLT, x, cst(w, 0)), mkneg(x), x));
    }
    case 9: // bswap
    {
        E x = ex(a[0], w), r = nullptr;
        for (unsigned i = 0; i < w; i += 8) {
            E b = mkextract(x, i, 8);
            r = r ? mkconcat(r, b) : b;
        }
        return sym(r);
    }
    case 10: // uadd.with.overflow
    case 11: // usub
    case 12: { // umul
        E x = ex(a[0], w), y = ex(a[1], w), r, o;
        if (in.sub == 10) {
            r = mkadd(x, y);
            o = mkcmp(ULT, r, x);
        } else if (in.sub == 11) {
            r = mksub(x, y);
            o = mkcmp(ULT, x, y);
        } else {
            r = mkbin(MUL, x, y);
            o = mkbin(UMULOV, x, y);
        }
        auto *ag = new vector<V>{sym(r), sym(o)};
        return con((u64)ag);
    }
    case 13: // fshl
    {
        E x = ex(a[0], w), y = ex(a[1], w), z = ex(a[2], w);
        if (!isc(z))
            throw Abort{"symbolic funnel shift"};
        unsigned sh = z->c % w;
        if (!sh) return a[0];
        return sym(mkbin(OR, mkbin(SHL, x, cst(w, sh)),
                         mkbin(LSHR, y, cst(w, w - sh))));
    }
    case 14: // uadd.sat
    {
        E x = ex(a[0], w), y = ex(a[1], w), r = mkadd(x, y);
        return sym(mkite(mkcmp(ULT, r, x), cst(w, mask(w)), r));
    }
    case 15: // usub.sat
    {
        E x = ex(a[0], w), y = ex(a[1], w);
        return sym(mkite(mkcmp(ULT, x, y), cst(w, 0), mksub(x, y)));
    }
    case 16: // sadd.with.overflow
    case 17: // ssub
    case 18: { // smul: exact in twice the width
        if (in.sub == 18 && w > 32)
            throw Abort{"signed multiplication with overflow"};
        E x = ex(a[0], w), y = ex(a[1], w), r, o;
        E z = cst(w, 0);
        if (in.sub == 18) {
            r = mkbin(MUL, x, y);
            E l = mkbin(MUL, mksext(x, 2 * w), mksext(y, 2 * w));
            o = mknot(mkeq(l, mksext(r, 2 * w)));
        } else {
            bool add = in.sub == 16;
            r = add ? mkadd(x, y) : mksub(x, y);
            // the sign of the result is wrong
            E nx = mkcmp(SLT, x, z), ny = mkcmp(SLT, y, z), nr = mkcmp(SLT, r, z);
            E same = mkeq(nx, ny);
            o = mkbin(AND, add ? same : mknot(same), mknot(mkeq(nr, nx)));
        }
        auto *ag = new vector<V>{sym(r), sym(o)};
        return con((u64)ag);
    }
    case 19: // fshr
    {
        E x = ex(a[0], w), y = ex(a[1], w), z = ex(a[2], w);
        if (!isc(z))
            throw Abort{"symbolic funnel shift"};
        unsigned sh = z->c % w;
        if (!sh) return a[1];
        return sym(mkbin(OR, mkbin(SHL, x, cst(w, w - sh)),
                         mkbin(LSHR, y, cst(w, sh))));
    }
    case 20: // expect
        return a[0];
    case 21: // objectsize
        return con(mask(in.w));
    case 22: // is.constant
        return con(0);
    case 23: { // threadlocal.address: a copy per thread, as initialised
        u64 g = a[0].c;
        if (s.cur == 0)
            return a[0];
        u64 &e = s.tls_at[{s.cur, g}];
        if (!e) {
            auto it = s.mem.find(g);
            auto *gv = it == s.mem.end() ? nullptr : dyn_cast_or_null<GlobalVariable>(it->second->src);
            if (!gv)
                throw Abort{"thread-local object"};
            e = new_obj(s, it->second->size, 16, OK_GLOBAL, true, gv);
            if (gv->hasInitializer())
                init_bytes(s.mem[e]->con.data(), gv->getInitializer());
        }
        return con(e);
    }
    }
    throw Abort{"intrinsic"};
}

static u64 resident() { // MB
    FILE *f = fopen("/proc/self/statm", "r");
    unsigned long a = 0, r = 0;
    if (f) {
        if (fscanf(f, "%lu %lu", &a, &r) != 2)
            r = 0;
        fclose(f);
    }
    return r / 256;
}
static void run(State *sp) {
    State &s = *sp;
    for (;;) {
        Frame &f = s.th[s.cur].st.back();
        Inst &in = f.f->code[f.pc];
        s.instrs++;
        st.instrs++;
        if (opt_trace)
            fprintf(stderr, "T%d %s@%s\n", s.cur, f.f->name.c_str(),
                    loc_of(in.I).c_str());
        if (s.instrs > opt_max_path_instr) {
            violation(s, "does not terminate"); // if the native replay does not either
            throw Abort{"instruction bound on one path at " + loc_of(in.I) +
                        " in " + f.f->name};
        }
        if ((st.instrs & 0x3ffff) == 0 && resident() > opt_max_mb) {
            violation(s, "does not terminate");
            opt_timeout = 0;
            throw Abort{"memory limit"};
        }
        if ((st.instrs & 0xfffff) == 0 && now() - t_start > opt_timeout) {
            if (s.instrs > opt_max_path_instr / 8)
                violation(s, "does not terminate");
            throw Abort{"time limit"};
        }
        auto op = [&](int i, unsigned w) { return operand(s, f, in.ops[i], w); };
        auto setd = [&](V v) {
            if (in.dst >= 0)
                f.regs[in.dst] = v;
        };
        switch (in.op) {
        case I_NOP: f.pc++; break;
        case I_BIN: {
            V a = op(0, in.w), b = op(1, in.w);
            K k = (K)in.sub;
            if (k == UDIV || k == SDIV || k == UREM || k == SREM) {
                E z = mkeq(ex(b, in.w), cst(in.w, 0));
                if (isc(z) ? z->c : true) {
                    std::shared_ptr<Model> m;
                    if (may(s, z, &m)) {
                        violation(s, "division by zero", m);
                        if (!assume(s, mknot(z)))
                            throw Done{};
                    }
                }
            }
            if (in.imm) // sub
                setd(!a.e && !b.e ? con((a.c - b.c) & mask(in.w))
                                  : sym(mksub(ex(a, in.w), ex(b, in.w))));
            else
                setd(binop(s, k, in.w, a, b));
            f.pc++;
            break;
        }
        case I_ICMP: {
            V a = op(0, in.w2), b = op(1, in.w2);
            using namespace llvm;
            auto p = (CmpInst::Predicate)in.sub;
            unsigned w = in.w2;
            K k = EQ;
            bool neg = false, sw = false;
            switch (p) {
            case CmpInst::ICMP_EQ: k = EQ; break;
            case CmpInst::ICMP_NE: k = EQ; neg = true; break;
            case CmpInst::ICMP_UGT: k = ULT; sw = true; break;
            case CmpInst::ICMP_UGE: k = ULE; sw = true; break;
            case CmpInst::ICMP_ULT: k = ULT; break;
            case CmpInst::ICMP_ULE: k = ULE; break;
            case CmpInst::ICMP_SGT: k = SLT; sw = true; break;
            case CmpInst::ICMP_SGE: k = SLE; sw = true; break;
            case CmpInst::ICMP_SLT: k = SLT; break;
            case CmpInst::ICMP_SLE: k = SLE; break;
            default: throw Abort{"icmp"};
            }
            if (sw)
                std::swap(a, b);
            if (!a.e && !b.e)
                setd(con(foldbin(k, w, a.c, b.c) ^ (neg ? 1 : 0)));
            else {
                E e = mkcmp(k, ex(a, w), ex(b, w));
                setd(sym(neg ? mknot(e) : e));
            }
            f.pc++;
            break;
        }
        case I_ALLOCA: {
            V n = op(0, in.w2);
            u64 cnt = n.e ? concretize(s, n.e) : n.c;
            u64 b = new_obj(s, in.imm * cnt, in.imms[0], OK_STACK, false, in.I);
            f.allocas.push_back(b);
            setd(con(b));
            f.pc++;
            break;
        }
        case I_LOAD: {
            V p = op(0, 64);
            if (p.e) {
                V mv;
                if ((s.th.size() < 2 || !opt_race) && merged_read(s, p.e, in.imm, mv)) {
                    if (in.w < in.imm * 8)
                        mv = mv.e ? sym(mkextract(mv.e, 0, in.w)) : con(mv.c & mask(in.w));
                    setd(mv);
                    f.pc++;
                    break;
                }
                u64 r = resolve(s, p, in.imm, "read");
                f.regs[in.ops[0].reg] = con(r);
                break; // re-execute
            }
            ObjP o = access(s, p.c, in.imm, false, "read");
            race_check(s, o, p.c, in.imm, false, in.sub & 1);
            if (in.sub & 2)
                sync_acq(s, p.c);
            V v = read_obj(s, o, p.c - o->base, in.imm);
            if (in.w < in.imm * 8)
                v = v.e ? sym(mkextract(v.e, 0, in.w)) : con(v.c & mask(in.w));
            setd(v);
            f.pc++;
            break;
        }
        case I_STORE: {
            V p = op(1, 64);
            if (p.e) {
                u64 r = resolve(s, p, in.imm, "write");
                f.regs[in.ops[1].reg] = con(r);
                break;
            }
            V v = op(0, in.w2);
            ObjP o = access(s, p.c, in.imm, true, "write");
            race_check(s, o, p.c, in.imm, true, in.sub & 1);
            if (in.sub & 2)
                sync_rel(s, p.c);
            write_obj(s, o, p.c - o->base, in.imm, v, in.w2);
            f.pc++;
            break;
        }
        case I_GEP: {
            V b = op(0, 64);
            u64 off = in.imm;
            E acc = nullptr;
            for (size_t i = 1; i < in.ops.size(); i++) {
                unsigned w = in.imms[2 * (i - 1) + 1];
                u64 sc = in.imms[2 * (i - 1)];
                V x = op(i, w);
                if (!x.e)
                    off += (u64)sx(x.c, w) * sc;
                else {
                    E t = mkbin(MUL, mksext(x.e, 64), cst(64, sc));
                    acc = acc ? mkadd(acc, t) : t;
                }
            }
            if (!acc && !b.e)
                setd(con(b.c + off));
            else {
                E r = mkadd(ex(b, 64), cst(64, off));
                if (acc)
                    r = mkadd(r, acc);
                setd(sym(r));
            }
            f.pc++;
            break;
        }
        case I_ZEXT: {
            V a = op(0, in.w2);
            setd(a.e ? sym(mkzext(a.e, in.w)) : a);
            f.pc++;
            break;
        }
        case I_SEXT: {
            V a = op(0, in.w2);
            setd(a.e ? sym(mksext(a.e, in.w))
                     : con((u64)sx(a.c, in.w2) & mask(in.w)));
            f.pc++;
            break;
        }
        case I_TRUNC: {
            V a = op(0, in.w2);
            setd(a.e ? sym(mkextract(a.e, 0, in.w)) : con(a.c & mask(in.w)));
            f.pc++;
            break;
        }
        case I_COPY: setd(op(0, in.w)); f.pc++; break;
        case I_SELECT: {
            V c = op(0, 1), a = op(1, in.w), b = op(2, in.w);
            if (!c.e)
                setd(c.c & 1 ? a : b);
            else if (in.w == 0)
                throw Abort{"symbolic select of aggregate"};
            else
                setd(sym(mkite(c.e, ex(a, in.w), ex(b, in.w))));
            f.pc++;
            break;
        }
        case I_BR: jump(s, f, in.t0); break;
        case I_CBR: {
            V c = op(0, 1);
            if (opt_trace)
                fprintf(stderr, "   br %s\n", c.e ? estr(c.e, 6).c_str() : c.c & 1 ? "T" : "F");
            if (!c.e) {
                jump(s, f, c.c & 1 ? in.t0 : in.t1);
                break;
            }
            bool now_true = eval(c.e, *s.model);
            E cur = now_true ? c.e : mknot(c.e);
            E oth = mknot(cur);
            std::shared_ptr<Model> m;
            st.model_hits++;
            if (may(s, oth, &m)) {
                State *n = fork_state(s);
                n->model = m;
                add_pc(*n, oth);
                if (decide(*n, now_true ? 0 : 1)) {
                    jump(*n, n->th[n->cur].st.back(),
                         now_true ? in.t1 : in.t0);
                    work.push_back(n);
                } else
                    delete n;
                add_pc(s, cur);
                if (!decide(s, now_true ? 1 : 0))
                    throw Done{};
            }
            jump(s, f, now_true ? in.t0 : in.t1);
            break;
        }
        case I_SWITCH: {
            V v = op(0, in.w2);
            if (v.e) {
                // fork over the cases
                u64 val = eval(v.e, *s.model);
                int target = in.t0;
                E c = nullptr;
                for (auto &cs : in.cases)
                    if (cs.first == val)
                        target = cs.second, c = mkeq(v.e, cst(in.w2, val));
                if (!c) {
                    c = cst(1, 1);
                    for (auto &cs : in.cases)
                        c = mkbin(AND, c, mknot(mkeq(v.e, cst(in.w2, cs.first))));
                }
                std::shared_ptr<Model> m;
                if (may(s, mknot(c), &m)) {
                    State *n = fork_state(s);
                    n->model = m;
                    add_pc(*n, mknot(c)); // re-executes the switch
                    if (decide(*n, 1))
                        work.push_back(n);
                    else
                        delete n;
                    add_pc(s, c);
                    if (!decide(s, 0))
                        throw Done{};
                }
                jump(s, f, target);
                break;
            }
            int target = in.t0;
            for (auto &cs : in.cases)
                if (cs.first == (v.c & mask(in.w2)))
                    target = cs.second;
            jump(s, f, target);
            break;
        }
        case I_RET: {
            V v;
            if (!in.ops.empty())
                v = op(0, in.w);
            Thread &T = s.th[s.cur];
            for (u64 a : f.allocas)
                s.mem.erase(a);
            int ret = f.ret;
            T.st.pop_back();
            if (T.st.empty()) {
                T.done = true;
                if (s.cur == 0) {
                    finish_path(s);
                    throw Done{};
                }
                // thread end: everything it did happens-before a join
                for (auto &t : s.th)
                    if (t.joinall)
                        vc_join(t.vc, T.vc);
                if (opt_race) {
                    vc_join(s.sync_vc[1], T.vc);
                }
                // keep a frame so that violation() can print
                schedule(s, true);
                break;
            }
            Frame &c = T.st.back();
            if (ret >= 0)
                c.regs[ret] = v;
            break;
        }
        case I_UNREACH:
            violation(s, "undefined behaviour: an unreachable point was "
                         "reached");
            throw Done{};
        case I_EXTRACTV: {
            V a = op(0, 0);
            if (a.e)
                throw Abort{"symbolic aggregate"};
            V cur = a;
            for (u64 i : in.imms)
                cur = (*(vector<V> *)cur.c)[i];
            setd(cur);
            f.pc++;
            break;
        }
        case I_INSERTV: {
            V a = op(0, 0), v = op(1, in.w2);
            vector<V> *n = a.c ? new vector<V>(*(vector<V> *)a.c)
                               : new vector<V>(16);
            if (in.imms.size() != 1)
                throw Abort{"nested insertvalue"};
            (*n)[in.imms[0]] = v;
            setd(con((u64)n));
            f.pc++;
            break;
        }
        case I_RMW: {
            V p = op(0, 64);
            if (p.e) {
                f.regs[in.ops[0].reg] = con(resolve(s, p, in.imm, "write"));
                break;
            }
            V v = op(1, in.w);
            ObjP o = access(s, p.c, in.imm, true, "atomic update");
            race_check(s, o, p.c, in.imm, true, true);
            sync_acq(s, p.c);
            sync_rel(s, p.c);
            V old = read_obj(s, o, p.c - o->base, in.imm), nv;
            using R = llvm::AtomicRMWInst;
            unsigned w = in.w;
            switch ((R::BinOp)in.sub) {
            case R::Xchg: nv = v; break;
            case R::Add: nv = binop(s, ADD, w, old, v); break;
            case R::Sub: nv = sym(mksub(ex(old, w), ex(v, w))); break;
            case R::And: nv = binop(s, AND, w, old, v); break;
            case R::Or: nv = binop(s, OR, w, old, v); break;
            case R::Xor: nv = binop(s, XOR, w, old, v); break;
            default: throw Abort{"atomicrmw"};
            }
            o = find_obj(s, p.c);
            write_obj(s, o, p.c - o->base, in.imm, nv, w);
            setd(old);
            f.pc++;
            break;
        }
        case I_CMPXCHG: {
            V p = op(0, 64);
            if (p.e) {
                f.regs[in.ops[0].reg] = con(resolve(s, p, in.imm, "write"));
                break;
            }
            V cmp = op(1, in.w2), nv = op(2, in.w2);
            ObjP o = access(s, p.c, in.imm, true, "atomic update");
            race_check(s, o, p.c, in.imm, true, true);
            sync_acq(s, p.c);
            sync_rel(s, p.c);
            V old = read_obj(s, o, p.c - o->base, in.imm);
            E eq = mkeq(ex(old, in.w2), ex(cmp, in.w2));
            V res = sym(mkite(eq, ex(nv, in.w2), ex(old, in.w2)));
            o = find_obj(s, p.c);
            write_obj(s, o, p.c - o->base, in.imm, res, in.w2);
            setd(con((u64) new vector<V>{old, sym(eq)}));
            f.pc++;
            break;
        }
        case I_MEMCPY: {
            V d = op(0, 64), sr = op(1, 64), n = op(2, 64);
            if (n.e) {
                f.regs[in.ops[2].reg] = con(concretize(s, n.e));
                break;
            }
            if (n.c && d.e) {
                f.regs[in.ops[0].reg] = con(resolve(s, d, 1, "write"));
                break;
            }
            if (n.c && sr.e) {
                f.regs[in.ops[1].reg] = con(resolve(s, sr, 1, "read"));
                break;
            }
            no_overlap(s, in.imm, d.c, sr.c, n.c);
            do_memcpy(s, d.c, sr.c, n.c);
            f.pc++;
            break;
        }
        case I_MEMSET: {
            V d = op(0, 64), v = op(1, 8), n = op(2, 64);
            if (n.e) {
                f.regs[in.ops[2].reg] = con(concretize(s, n.e));
                break;
            }
            if (n.c && d.e) {
                f.regs[in.ops[0].reg] = con(resolve(s, d, 1, "write"));
                break;
            }
            do_memset(s, d.c, v, n.c);
            f.pc++;
            break;
        }
        case I_INTRIN: {
            vector<V> a;
            for (size_t i = 0; i < in.ops.size(); i++)
                a.push_back(op(i, in.w2));
            setd(intrinsic(s, in, a));
            f.pc++;
            break;
        }
        case I_VASTART: { // all arguments lie in the overflow area
            V p = op(0, 64);
            u64 b = p.e ? concretize(s, p.e) : p.c;
            u64 v[4] = {48, 176, f.va, 0};
            unsigned at[4] = {0, 4, 8, 16}, n[4] = {4, 4, 8, 8};
            for (int i = 0; i < 4; i++) {
                ObjP o = access(s, b + at[i], n[i], true, "write");
                write_obj(s, o, b + at[i] - o->base, n[i], con(v[i]), 8 * n[i]);
            }
            f.pc++;
            break;
        }
        case I_CALL: {
            Func *callee = in.callee;
            int bi = in.builtin;
            size_t nargs = in.ops.size() - (callee || bi ? 0 : 1);
            Inst tmp;
            if (!callee && !bi) {
                V fp = op(nargs, 64);
                if (fp.e) {
                    u64 v = concretize(s, fp.e);
                    f.regs[in.ops[nargs].reg] = con(v);
                    break;
                }
                auto it = func_at.find(fp.c);
                if (it == func_at.end()) {
                    violation(s, fmt("memory: call through an invalid function "
                                     "pointer 0x%llx",
                                     (unsigned long long)fp.c));
                    throw Done{};
                }
                callee = it->second;
            }
            vector<V> a;
            for (size_t i = 0; i < nargs; i++)
                a.push_back(op(i, in.imms.size() > i ? in.imms[i] : 64));
            if (callee && callee->F->isDeclaration()) {
                auto b = builtins.find(callee->name);
                if (b == builtins.end())
                    throw Abort{"call of an undefined function " + callee->name};
                tmp = in;
                tmp.builtin = b->second;
                tmp.w2 = in.imms.empty() ? 32 : in.imms[0];
                do_builtin(s, f, tmp, a);
                break;
            }
            if (bi) {
                do_builtin(s, f, in, a);
                break;
            }
            f.pc++;
            u64 bv = 0;
            vector<u64> copies;
            for (size_t i = 0; i < in.byval.size() && i < a.size(); i++)
                if (in.byval[i]) {
                    u64 b = new_obj(s, in.byval[i], 16, OK_STACK, false);
                    do_memcpy(s, b, a[i].c, in.byval[i]);
                    a[i] = con(b);
                    copies.push_back(b);
                }
            (void)bv;
            push_call(s, callee, a, in.dst, in.w);
            for (u64 b : copies)
                s.th[s.cur].st.back().allocas.push_back(b);
            if (callee->va && a.size() > callee->argw.size()) {
                size_t k = callee->argw.size(), m = a.size() - k;
                u64 b = new_obj(s, 8 * m, 16, OK_STACK, true);
                Frame &nf = s.th[s.cur].st.back();
                nf.va = b;
                nf.allocas.push_back(b);
                for (size_t i = 0; i < m; i++) {
                    unsigned w = in.imms[k + i];
                    ObjP o = access(s, b + 8 * i, (w + 7) / 8, true, "write");
                    write_obj(s, o, b + 8 * i - o->base, (w + 7) / 8, a[k + i], w);
                }
            }
            break;
        }
        case I_UNSUP:
            throw Abort{"unsupported instruction at " + loc_of(in.I) + ": " +
                        in.I->getOpcodeName()};
        }
    }
}

// ------------------------------------------------------------------ compile
static void compile(Func *f) {
    using namespace llvm;
    const Function &F = *f->F;
    f->compiled = true;
    std::unordered_map<const Value *, int> reg;
    std::unordered_map<const BasicBlock *, int> bbn;
    int n = 0;
    for (auto &a : F.args()) {
        reg[&a] = n++;
        f->argw.push_back(bits(a.getType()));
    }
    int nb = 0;
    for (auto &B : F) {
        bbn[&B] = nb++;
        for (auto &I : B)
            if (!I.getType()->isVoidTy())
                reg[&I] = n++;
    }
    f->nregs = n;
    auto opnd = [&](const Value *v) {
        Opnd o;
        auto it = reg.find(v);
        if (it != reg.end()) {
            o.reg = it->second;
            return o;
        }
        if (auto *c = dyn_cast<Constant>(v)) {
            if (isa<UndefValue>(c)) {
                if (bits(c->getType()))
                    o.undef = true;
                return o;
            }
            if (auto *cs = dyn_cast<ConstantStruct>(c)) {
                auto *ag = new vector<V>(16);
                for (unsigned i = 0; i < cs->getNumOperands(); i++)
                    if (!isa<UndefValue>(cs->getOperand(i)))
                        (*ag)[i] = con(const_int(cs->getOperand(i)));
                o.c = con((u64)ag);
                return o;
            }
            o.c = con(const_int(c));
            return o;
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v))
            return o;
        throw Abort{"operand"};
    };
    for (auto &B : F) {
        Blk b;
        b.start = f->code.size();
        for (auto &I : B) {
            Inst in;
            in.I = &I;
            in.op = I_UNSUP;
            if (!I.getType()->isVoidTy()) {
                in.dst = reg[&I];
                in.w = bits(I.getType());
            }
            if (in.w > 64) {
                f->code.push_back(in);
                continue;
            }
            if (auto *p = dyn_cast<PHINode>(&I)) {
                Phi ph;
                ph.dst = in.dst;
                for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
                    ph.in.push_back({bbn[p->getIncomingBlock(i)],
                                     opnd(p->getIncomingValue(i))});
                b.phis.push_back(ph);
                continue;
            }
            auto addops = [&]() {
                for (auto &o : I.operands())
                    in.ops.push_back(opnd(o.get()));
            };
            if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
                in.op = I_BIN;
                addops();
                switch (bo->getOpcode()) {
                case Instruction::Add: in.sub = ADD; break;
                case Instruction::Sub: in.sub = ADD; in.imm = 1; break;
                case Instruction::Mul: in.sub = MUL; break;
                case Instruction::UDiv: in.sub = UDIV; break;
                case Instruction::SDiv: in.sub = SDIV; break;
                case Instruction::URem: in.sub = UREM; break;
                case Instruction::SRem: in.sub = SREM; break;
                case Instruction::And: in.sub = AND; break;
                case Instruction::Or: in.sub = OR; break;
                case Instruction::Xor: in.sub = XOR; break;
                case Instruction::Shl: in.sub = SHL; break;
                case Instruction::LShr: in.sub = LSHR; break;
                case Instruction::AShr: in.sub = ASHR; break;
                default: in.op = I_UNSUP;
                }
            } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
                in.op = I_ICMP;
                addops();
                in.sub = ic->getPredicate();
                in.w2 = bits(ic->getOperand(0)->getType());
                if (!in.w2)
                    in.op = I_UNSUP;
            } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
                in.op = I_ALLOCA;
                in.imm = DL->getTypeAllocSize(al->getAllocatedType());
                in.imms.push_back(al->getAlign().value());
                in.ops.push_back(opnd(al->getArraySize()));
                in.w2 = bits(al->getArraySize()->getType());
            } else if (auto *ld = dyn_cast<LoadInst>(&I)) {
                if (in.w) {
                    in.op = I_LOAD;
                    addops();
                    in.imm = (in.w + 7) / 8;
                    if (ld->isAtomic()) {
                        in.sub = 1;
                        if (isAcquireOrStronger(ld->getOrdering()))
                            in.sub |= 2;
                    }
                }
            } else if (auto *sto = dyn_cast<StoreInst>(&I)) {
                in.w2 = bits(sto->getValueOperand()->getType());
                if (in.w2 && in.w2 <= 64) {
                    in.op = I_STORE;
                    addops();
                    in.imm = (in.w2 + 7) / 8;
                    if (sto->isAtomic()) {
                        in.sub = 1;
                        if (isReleaseOrStronger(sto->getOrdering()))
                            in.sub |= 2;
                    }
                }
            } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                in.op = I_GEP;
                in.ops.push_back(opnd(g->getPointerOperand()));
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge;
                     ++gi) {
                    Value *idx = gi.getOperand();
                    if (StructType *stt = gi.getStructTypeOrNull()) {
                        in.imm += DL->getStructLayout(stt)->getElementOffset(
                            cast<ConstantInt>(idx)->getZExtValue());
                    } else {
                        u64 sc = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(idx))
                            in.imm += sc * ci->getSExtValue();
                        else {
                            in.ops.push_back(opnd(idx));
                            in.imms.push_back(sc);
                            in.imms.push_back(bits(idx->getType()));
                        }
                    }
                }
            } else if (auto *c = dyn_cast<CastInst>(&I)) {
                addops();
                in.w2 = bits(c->getOperand(0)->getType());
                switch (c->getOpcode()) {
                case Instruction::ZExt: in.op = I_ZEXT; break;
                case Instruction::SExt: in.op = I_SEXT; break;
                case Instruction::Trunc: in.op = I_TRUNC; break;
                case Instruction::PtrToInt:
                case Instruction::IntToPtr:
                    in.op = in.w < in.w2 ? I_TRUNC
                            : in.w > in.w2 ? I_ZEXT : I_COPY;
                    break;
                case Instruction::BitCast:
                    if (in.w && in.w == in.w2) in.op = I_COPY;
                    break;
                default: break;
                }
                if (in.w2 > 64 || !in.w2)
                    in.op = I_UNSUP;
            } else if (isa<SelectInst>(&I)) {
                in.op = I_SELECT;
                addops();
            } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional()) {
                    in.op = I_CBR;
                    in.ops.push_back(opnd(br->getCondition()));
                    in.t0 = bbn[br->getSuccessor(0)];
                    in.t1 = bbn[br->getSuccessor(1)];
                } else {
                    in.op = I_BR;
                    in.t0 = bbn[br->getSuccessor(0)];
                }
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                in.op = I_SWITCH;
                in.ops.push_back(opnd(sw->getCondition()));
                in.w2 = bits(sw->getCondition()->getType());
                in.t0 = bbn[sw->getDefaultDest()];
                for (auto &cs : sw->cases())
                    in.cases.push_back({cs.getCaseValue()->getZExtValue(),
                                        bbn[cs.getCaseSuccessor()]});
            } else if (isa<ReturnInst>(&I)) {
                in.op = I_RET;
                addops();
                if (!in.ops.empty())
                    in.w = bits(I.getOperand(0)->getType());
            } else if (isa<UnreachableInst>(&I)) {
                in.op = I_UNREACH;
            } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                in.op = I_EXTRACTV;
                addops();
                for (unsigned i : ev->indices())
                    in.imms.push_back(i);
            } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
                in.op = I_INSERTV;
                addops();
                in.w2 = bits(I.getOperand(1)->getType());
                for (unsigned i : iv->indices())
                    in.imms.push_back(i);
            } else if (isa<FreezeInst>(&I)) {
                in.op = I_COPY;
                addops();
            } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) {
                in.op = I_RMW;
                addops();
                in.sub = rm->getOperation();
                in.imm = (in.w + 7) / 8;
            } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
                in.op = I_CMPXCHG;
                addops();
                in.w2 = bits(cx->getCompareOperand()->getType());
                in.imm = (in.w2 + 7) / 8;
            } else if (isa<FenceInst>(&I)) {
                in.op = I_NOP;
            } else if (auto *cb = dyn_cast<CallInst>(&I)) {
                const Function *cf = cb->getCalledFunction();
                if (!cf && isa<Function>(cb->getCalledOperand()->stripPointerCasts()))
                    cf = cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                if (cf && cf->isIntrinsic()) {
                    auto id = cf->getIntrinsicID();
                    auto A = [&](int sub) {
                        in.op = I_INTRIN;
                        in.sub = sub;
                        for (auto &a : cb->args())
                            in.ops.push_back(opnd(a.get()));
                        in.w2 = bits(cb->getArgOperand(0)->getType());
                    };
                    switch (id) {
                    case Intrinsic::dbg_declare:
                    case Intrinsic::dbg_value:
                    case Intrinsic::dbg_label:
                    case Intrinsic::lifetime_start:
                    case Intrinsic::lifetime_end:
                    case Intrinsic::assume:
                    case Intrinsic::donothing:
                    case Intrinsic::experimental_noalias_scope_decl:
                    case Intrinsic::stackrestore:
                    case Intrinsic::vaend:
                    case Intrinsic::prefetch:
                        in.op = I_NOP;
                        break;
                    case Intrinsic::stacksave: in.op = I_COPY; in.ops.push_back(Opnd()); break;
                    case Intrinsic::memcpy:
                    case Intrinsic::memmove:
                        in.op = I_MEMCPY;
                        in.imm = id == Intrinsic::memcpy;
                        for (int i = 0; i < 3; i++)
                            in.ops.push_back(opnd(cb->getArgOperand(i)));
                        break;
                    case Intrinsic::memset:
                        in.op = I_MEMSET;
                        for (int i = 0; i < 3; i++)
                            in.ops.push_back(opnd(cb->getArgOperand(i)));
                        break;
                    case Intrinsic::vastart:
                        in.op = I_VASTART;
                        in.ops.push_back(opnd(cb->getArgOperand(0)));
                        f->va = true;
                        break;
                    case Intrinsic::ctpop: A(1); break;
                    case Intrinsic::ctlz: A(2); break;
                    case Intrinsic::cttz: A(3); break;
                    case Intrinsic::umax: A(4); break;
                    case Intrinsic::umin: A(5); break;
                    case Intrinsic::smax: A(6); break;
                    case Intrinsic::smin: A(7); break;
                    case Intrinsic::abs: A(8); break;
                    case Intrinsic::bswap: A(9); break;
                    case Intrinsic::uadd_with_overflow: A(10); break;
                    case Intrinsic::usub_with_overflow: A(11); break;
                    case Intrinsic::umul_with_overflow: A(12); break;
                    case Intrinsic::fshl: A(13); break;
                    case Intrinsic::uadd_sat: A(14); break;
                    case Intrinsic::usub_sat: A(15); break;
                    case Intrinsic::sadd_with_overflow: A(16); break;
                    case Intrinsic::ssub_with_overflow: A(17); break;
                    case Intrinsic::smul_with_overflow: A(18); break;
                    case Intrinsic::fshr: A(19); break;
                    case Intrinsic::expect: A(20); break;
                    case Intrinsic::objectsize: A(21); break;
                    case Intrinsic::is_constant: A(22); break;
                    case Intrinsic::threadlocal_address: A(23); break;
                    case Intrinsic::trap:
                    case Intrinsic::debugtrap: in.op = I_UNREACH; break;
                    default: break;
                    }
                } else {
                    in.op = I_CALL;
                    for (auto &a : cb->args()) {
                        in.ops.push_back(opnd(a.get()));
                        in.imms.push_back(bits(a->getType()));
                    }
                    in.byval.resize(cb->arg_size());
                    for (unsigned i = 0; i < cb->arg_size(); i++)
                        if (cb->isByValArgument(i))
                            in.byval[i] =
                                DL->getTypeAllocSize(cb->getParamByValType(i));
                    if (cf) {
                        in.callee = get_func(cf);
                        auto bi = builtins.find(in.callee->name);
                        if (bi != builtins.end() && cf->isDeclaration()) {
                            in.builtin = bi->second;
                            in.callee = nullptr;
                            in.w2 = in.imms.empty() ? 32 : in.imms[0];
                        }
                    } else {
                        in.ops.push_back(opnd(cb->getCalledOperand()));
                    }
                }
            }
            f->code.push_back(std::move(in));
        }
        f->blks.push_back(b);
    }
}

static void out_json(FILE *o, const char *status) {
    fprintf(o, "{\"status\":\"%s\",\n\"paths\":%llu,\"killed\":%llu,"
               "\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,"
               "\"model_hits\":%llu,\"instrs\":%llu,\"asserts\":%llu,"
               "\"asserts_sym\":%llu,\"mem_checks\":%llu,\"solver_s\":%.3f,"
               "\"by_z3_int\":%llu,\"by_z3\":%llu,\"by_cvc5\":%llu,\"by_z3_fresh\":%llu,"
               "\"cross_checked\":%llu,"
               "\"max_query_s\":%.3f,\"wall_s\":%.3f,\"pending\":%zu,\n",
            status, (unsigned long long)st.paths, (unsigned long long)st.killed,
            (unsigned long long)st.forks, (unsigned long long)st.queries,
            (unsigned long long)st.qsat, (unsigned long long)st.qunsat,
            (unsigned long long)st.model_hits, (unsigned long long)st.instrs,
            (unsigned long long)st.asserts, (unsigned long long)st.asserts_sym,
            (unsigned long long)st.mem_checks, st.solver_s,
            (unsigned long long)st.by_lia,
            (unsigned long long)st.by_z3, (unsigned long long)st.by_c5,
            (unsigned long long)st.by_fresh, (unsigned long long)st.crossed,
            st.max_q,
            now() - t_start, work.size());
    if (opt_sites)
        for (auto &x : g_sites)
            fprintf(stderr, "FORK %llu %s\n", (unsigned long long)x.second, x.first.c_str());
    fprintf(o, "\"reach\":{");
    bool first = true;
    for (auto &r : g_reach) {
        fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(),
                (unsigned long long)r.second);
        first = false;
    }
    fprintf(o, "},\n\"functions\":[");
    first = true;
    for (auto &p : funcs)
        if (p.second->repo && p.second->calls) {
            fprintf(o, "%s\"%s\"", first ? "" : ",", p.second->name.c_str());
            first = false;
        }
    fprintf(o, "],\n\"incomplete\":[");
    for (size_t i = 0; i < g_incomplete.size(); i++)
        fprintf(o, "%s\"%s\"", i ? "," : "", jesc(g_incomplete[i]).c_str());
    fprintf(o, "],\n\"violations\":[");
    for (size_t i = 0; i < g_viol.size(); i++) {
        auto &v = g_viol[i];
        fprintf(o,
                "%s{\"msg\":\"%s\",\"loc\":\"%s\",\"trace\":\"%s\","
                "\"draws\":%s,\"sched\":%s}",
                i ? ",\n" : "", jesc(v.msg).c_str(), jesc(v.loc).c_str(),
                jesc(v.trace).c_str(), v.draws.c_str(), v.sched.c_str());
    }
    fprintf(o, "],\n\"samples\":[");
    for (size_t i = 0; i < g_samples.size(); i++)
        fprintf(o, "%s%s", i ? ",\n" : "", g_samples[i].c_str());
    fprintf(o, "]}\n");
}

// a scheduling point before every atomic access of the code under test
static void yieldify() {
    using namespace llvm;
    FunctionCallee y = M->getOrInsertFunction(
        "symx_yield", Type::getVoidTy(LC));
    vector<Instruction *> at;
    bool tsan = false; // the sanitizer leaves replaced loads behind
    for (auto &F : *M)
        tsan |= F.getName().starts_with("__tsan_atomic");
    for (auto &F : *M) {
        auto *sp = F.getSubprogram();
        if (!sp || F.isDeclaration())
            continue;
        string file = sp->getFilename().str();
        if (!file.empty() && file[0] != '/')
            file = sp->getDirectory().str() + "/" + file;
        if (file.compare(0, opt_repo.size(), opt_repo) != 0)
            continue;
        for (auto &B : F)
            for (auto &I : B) {
                bool a = !tsan && I.isAtomic() && !isa<FenceInst>(I);
                if (auto *c = dyn_cast<CallInst>(&I))
                    if (auto *f = c->getCalledFunction())
                        a |= f->getName().starts_with("__tsan_atomic");
                if (a)
                    at.push_back(&I);
            }
    }
    vector<Instruction *> pts;
    for (auto *I : at) {
        pts.push_back(I);
        // and right after it: what was read may be out of date when used,
        // what was published may be incomplete
        if (I->getNextNode())
            pts.push_back(I->getNextNode());
    }
    for (auto *I : pts) {
        auto *c = CallInst::Create(y, "", I);
        if (I->getDebugLoc())
            c->setDebugLoc(I->getDebugLoc());
        else if (auto *sp = I->getFunction()->getSubprogram())
            c->setDebugLoc(DILocation::get(LC, 0, 0, sp));
    }
}
int main(int argc, char **argv) {
    string bc, instr_out;
    bool opt_yield = false;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto val = [&]() { return string(argv[++i]); };
        if (a == "--entry") opt_entry = val();
        else if (a == "--out") opt_out = val();
        else if (a == "--yield-atomics") opt_yield = true;
        else if (a == "--instrument") instr_out = val();
        else if (a == "--timeout") opt_timeout = atof(argv[++i]);
        else if (a == "--max-path-instr") opt_max_path_instr = strtoull(argv[++i], 0, 0);
        else if (a == "--parts") opt_parts = atoi(argv[++i]);
        else if (a == "--part") opt_part = atoi(argv[++i]);
        else if (a == "--part-depth") opt_part_depth = atoi(argv[++i]);
        else if (a == "--preempt") opt_preempt = atoi(argv[++i]);
        else if (a == "--samples") opt_samples = atoi(argv[++i]);
        else if (a == "--seed") opt_seed = atoi(argv[++i]);
        else if (a == "--trace") opt_trace = true;
        else if (a == "--sites") opt_sites = true;
        else if (a == "--race") opt_race = true;
        else if (a == "--all") opt_stop_first = false;
        else if (a == "--query-ms") opt_query_ms = strtoull(argv[++i], 0, 0);
        else if (a == "--first") opt_first = atoi(argv[++i]);
        else if (a == "--cross") opt_cross = atoi(argv[++i]);
        else if (a == "--repo") opt_repo = val();
        else bc = a;
    }
    t_start = now();
    const struct { const char *n; int b; } bl[] = {
        {"symx_nd", B_ND}, {"symx_nd_bool", B_ND1}, {"symx_nd_range", B_NDR},
        {"symx_assume", B_ASSUME}, {"symx_assert", B_ASSERT},
        {"symx_reach", B_REACH}, {"symx_fork", B_FORK},
        {"symx_observe", B_OBSERVE}, {"symx_kill", B_KILL},
        {"symx_limit", B_LIMIT}, {"__errno_location", B_ERRNO}, {"symx_is_symbolic", B_ISSYM},
        {"symx_valid", B_VALID}, {"symx_spawn", B_SPAWN},
        {"symx_yield", B_YIELD}, {"symx_wait0", B_WAIT0},
        {"symx_join_all", B_JOINALL}, {"symx_tid", B_TID},
        {"symx_acquire", B_ACQ}, {"symx_release", B_REL},
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE},
        {"symx_aligned_alloc", B_ALIGNED}, {"__assert_fail", B_ASSERTFAIL},
        {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
    };
    for (auto &b : bl)
        builtins[b.n] = b.b;
    llvm::SMDiagnostic err;
    M = llvm::parseIRFile(bc, err, LC);
    if (!M) {
        err.print("symx", llvm::errs());
        return 3;
    }
    DL = &M->getDataLayout();
    if (opt_yield)
        yieldify();
    if (!instr_out.empty()) {
        std::error_code ec;
        llvm::raw_fd_ostream os(instr_out, ec);
        llvm::WriteBitcodeToFile(*M, os);
        return ec ? 3 : 0;
    }
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context(cfg);
    Z3_set_error_handler(Z, z3_err);
    S = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, S);
    pr_fast = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, pr_fast);
    Z3_params_set_uint(Z, pr_fast, Z3_mk_string_symbol(Z, "timeout"),
                       opt_first == 0 ? 1000 : 3000);
    SI = Z3_mk_simple_solver(Z);
    Z3_solver_inc_ref(Z, SI);
    zint = Z3_mk_int_sort(Z);
    pr_int = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, pr_int);
    Z3_params_set_uint(Z, pr_int, Z3_mk_string_symbol(Z, "timeout"), 2000);
    pr_full = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, pr_full);
    Z3_params_set_uint(Z, pr_full, Z3_mk_string_symbol(Z, "timeout"), opt_query_ms);

    State *s = new State;
    const char *status = "ok";
    try {
        for (auto &F : *M)
            get_func(&F);
        u64 ga = 0x7E1000000000ull;
        for (auto &g : M->globals()) {
            u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8;
            u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16);
            ga = (ga + al - 1) & ~(al - 1);
            gaddr[&g] = ga;
            auto o = std::make_shared<Obj>();
            o->base = ga;
            o->size = sz;
            o->kind = OK_GLOBAL;
            o->src = &g;
            o->con.assign(sz, 0);
            s->mem[ga] = o;
            ga += sz + 64;
        }
        for (auto &g : M->globals())
            if (g.hasInitializer()) {
                auto o = s->mem[gaddr[&g]];
                if (o->size)
                    init_bytes(o->con.data(), g.getInitializer());
                o->ro = g.isConstant();
            }
        s->th.resize(1);
        auto *EF = M->getFunction(opt_entry);
        if (!EF) {
            fprintf(stderr, "symx: no entry %s\n", opt_entry.c_str());
            return 3;
        }
        vector<V> none;
        push_call(*s, get_func(EF), none, -1, 0);
        work.push_back(s);
        while (!work.empty()) {
            State *x = work.back();
            work.pop_back();
            try {
                run(x);
            } catch (Done &) {
            } catch (Abort &a) { // this path only, unless out of time
                incomplete(a.why);
                if (now() - t_start > opt_timeout)
                    throw;
            }
            delete x;
        }
    } catch (Abort &a) {
        incomplete(a.why);
    } catch (Stop &) {
    }
    if (!g_incomplete.empty())
        status = "incomplete";
    if (!g_viol.empty())
        status = "violation";
    FILE *o = opt_out.empty() ? stdout : fopen(opt_out.c_str(), "w");
    out_json(o, status);
    fflush(o);
    _Exit(0);
}
