// wsym: a symbolic executor for LLVM IR deciding assertions with z3.
//
// Executes `wsym_main` of a linked bitcode module.  Inputs created through
// wsym_range()/wsym_u64() are symbolic variables; every branch, switch,
// pointer or assertion that depends on them is decided by z3, forking the
// execution state when several outcomes are feasible.
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <atomic>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

// ---------------------------------------------------------------------------
// Shared (cross process) statistics
// ---------------------------------------------------------------------------
struct Shared
{
    std::atomic<long> active;
    std::atomic<long> procs;
    std::atomic<long> paths, paths_assumed_away, forks, instrs, branches, queries,
        queries_sat, queries_unsat, queries_unknown, cache_hits, asserts_checked,
        violations, incomplete, unsupported, solver_us, max_depth, limit_paths;
    std::atomic<long> stop;
    std::atomic<long> seq;
};
static Shared* SH;
static const pid_t MAINPID = getpid();

struct Options
{
    std::string bc, out;
    int jobs = 8;
    double timeout = 600;
    long max_instr = 4000000;
    long max_viol = 6;
    long sample = 24;
    std::string entry = "wsym_main";
    u64 seed = 1;
    bool verbose = false;
} OPT;
static double T0, DEADLINE;

// ---------------------------------------------------------------------------
// Values
// ---------------------------------------------------------------------------
struct Agg;
struct Val
{
    u64 c;
    union { Z3_ast e; Agg* a; };
    Val() : c(0), e(nullptr) {}
    Val(u64 c_) : c(c_), e(nullptr) {}
    static Val mk(Z3_ast e_) { Val v; v.e = e_; return v; }
    static Val mka(Agg* a_) { Val v; v.a = a_; return v; }
    bool sym() const { return e != nullptr; }
};
struct Agg { std::vector<Val> v; };

static Z3_context C;
static Z3_solver SOLVER;
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(u64 v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    u64 m = 1ULL << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}
static std::unordered_map<unsigned, Z3_sort> sorts;
static Z3_sort bvsort(unsigned w)
{
    auto it = sorts.find(w);
    if (it != sorts.end()) return it->second;
    Z3_sort s = Z3_mk_bv_sort(C, w);
    Z3_inc_ref(C, Z3_sort_to_ast(C, s));
    return sorts[w] = s;
}
static Z3_ast keep(Z3_ast a) { return a; } // non-rc context: asts live forever

static Z3_ast simp(Z3_ast a) { return keep(Z3_simplify(C, a)); }
static std::unordered_map<Z3_ast, Z3_ast> boolOf; // ite(b,1,0) -> b

// result of a z3 construction of width w -> Val (concrete when numeral)
static Val fromAst(Z3_ast a, unsigned w)
{
    if (w == 1)
    {
        Z3_lbool b = Z3_get_bool_value(C, a);
        if (b == Z3_L_TRUE) return Val(1);
        if (b == Z3_L_FALSE) return Val((u64)0);
        return Val::mk(a);
    }
    if (w <= 64 && Z3_is_numeral_ast(C, a))
    {
        uint64_t v = 0;
        if (Z3_get_numeral_uint64(C, a, &v)) return Val(v);
    }
    return Val::mk(a);
}
static Z3_ast toAst(const Val& v, unsigned w)
{
    if (v.sym()) return v.e;
    if (w == 1) return v.c & 1 ? Z3_mk_true(C) : Z3_mk_false(C);
    return keep(Z3_mk_unsigned_int64(C, v.c & maskw(w), bvsort(w)));
}
static Z3_ast toBV(const Val& v, unsigned w) // always BV sort, even for width 1
{
    if (w != 1) return toAst(v, w);
    return keep(Z3_mk_ite(C, toAst(v, 1), Z3_mk_unsigned_int64(C, 1, bvsort(1)),
                          Z3_mk_unsigned_int64(C, 0, bvsort(1))));
}
static Val boolToInt(Z3_ast b, unsigned w)
{
    if (w == 1) return Val::mk(b);
    Z3_ast r = keep(Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, bvsort(w)),
                              Z3_mk_unsigned_int64(C, 0, bvsort(w))));
    boolOf[r] = b;
    return Val::mk(r);
}
static Val notB(const Val& v)
{
    if (!v.sym()) return Val(!(v.c & 1));
    return fromAst(simp(Z3_mk_not(C, v.e)), 1);
}
static Val wide(Val v, unsigned w) // wide constants are always symbolic-form
{
    if (w > 64 && !v.sym())
        v.e = keep(Z3_mk_unsigned_int64(C, v.c, bvsort(w)));
    return v;
}

static Val binop(unsigned opc, const Val& a, const Val& b, unsigned w, bool& divzero)
{
    divzero = false;
    if (!a.sym() && !b.sym() && w <= 64)
    {
        u64 x = a.c & maskw(w), y = b.c & maskw(w), r = 0;
        switch (opc)
        {
        case Instruction::Add: r = x + y; break;
        case Instruction::Sub: r = x - y; break;
        case Instruction::Mul: r = x * y; break;
        case Instruction::UDiv: if (!y) { divzero = true; return Val(); } r = x / y; break;
        case Instruction::URem: if (!y) { divzero = true; return Val(); } r = x % y; break;
        case Instruction::SDiv:
            if (!y) { divzero = true; return Val(); }
            if (sx(y, w) == -1) r = (u64)0 - x; else r = (u64)(sx(x, w) / sx(y, w));
            break;
        case Instruction::SRem:
            if (!y) { divzero = true; return Val(); }
            if (sx(y, w) == -1) r = 0; else r = (u64)(sx(x, w) % sx(y, w));
            break;
        case Instruction::And: r = x & y; break;
        case Instruction::Or: r = x | y; break;
        case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: r = y >= w ? 0 : x << y; break;
        case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
        case Instruction::AShr: r = (u64)(sx(x, w) >> (y >= w ? w - 1 : y)); break;
        default: abort();
        }
        return Val(r & maskw(w));
    }
    if (w <= 64)
    {
        if (!b.sym())
        {
            u64 y = b.c & maskw(w);
            if (y == 0)
            {
                if (opc == Instruction::Add || opc == Instruction::Sub ||
                    opc == Instruction::Or || opc == Instruction::Xor ||
                    opc == Instruction::Shl || opc == Instruction::LShr ||
                    opc == Instruction::AShr) return a;
                if (opc == Instruction::And || opc == Instruction::Mul) return Val((u64)0);
            }
            if (y == 1 && w > 1 && a.sym())
            {
                auto it = boolOf.find(a.e);
                if (it != boolOf.end())
                {
                    if (opc == Instruction::And) return a;
                    if (opc == Instruction::Xor)
                        return boolToInt(simp(Z3_mk_not(C, it->second)), w);
                }
            }
            if (opc == Instruction::And && y == maskw(w)) return a;
        }
        else if (!a.sym())
        {
            u64 x = a.c & maskw(w);
            if (x == 0)
            {
                if (opc == Instruction::Add || opc == Instruction::Or ||
                    opc == Instruction::Xor) return b;
                if (opc == Instruction::And || opc == Instruction::Mul) return Val((u64)0);
            }
        }
    }
    Z3_ast x = toAst(a, w), y = toAst(b, w), r = nullptr;
    if (w == 1)
    {
        Z3_ast two[2] = {x, y};
        switch (opc)
        {
        case Instruction::Add: case Instruction::Sub:
        case Instruction::Xor: r = Z3_mk_xor(C, x, y); break;
        case Instruction::Mul:
        case Instruction::And: r = Z3_mk_and(C, 2, two); break;
        case Instruction::Or: r = Z3_mk_or(C, 2, two); break;
        default: r = x; break;
        }
        return fromAst(simp(r), 1);
    }
    // both are bool-ish: keep as bool
    if (opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor)
    {
        auto ia = a.sym() ? boolOf.find(a.e) : boolOf.end();
        auto ib = b.sym() ? boolOf.find(b.e) : boolOf.end();
        if (ia != boolOf.end() && ib != boolOf.end())
        {
            Z3_ast two[2] = {ia->second, ib->second};
            Z3_ast q = opc == Instruction::And ? Z3_mk_and(C, 2, two)
                : opc == Instruction::Or ? Z3_mk_or(C, 2, two)
                : Z3_mk_xor(C, two[0], two[1]);
            Val bv = fromAst(simp(q), 1);
            if (!bv.sym()) return bv;
            return boolToInt(bv.e, w);
        }
    }
    switch (opc)
    {
    case Instruction::Add: r = Z3_mk_bvadd(C, x, y); break;
    case Instruction::Sub: r = Z3_mk_bvsub(C, x, y); break;
    case Instruction::Mul: r = Z3_mk_bvmul(C, x, y); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(C, x, y); break;
    case Instruction::URem: r = Z3_mk_bvurem(C, x, y); break;
    case Instruction::SDiv: r = Z3_mk_bvsdiv(C, x, y); break;
    case Instruction::SRem: r = Z3_mk_bvsrem(C, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(C, x, y); break;
    case Instruction::Or: r = Z3_mk_bvor(C, x, y); break;
    case Instruction::Xor: r = Z3_mk_bvxor(C, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(C, x, y); break;
    case Instruction::LShr: r = Z3_mk_bvlshr(C, x, y); break;
    case Instruction::AShr: r = Z3_mk_bvashr(C, x, y); break;
    default: abort();
    }
    return fromAst(simp(r), w);
}

static Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w)
{
    if (!a.sym() && !b.sym() && w <= 64)
    {
        u64 x = a.c & maskw(w), y = b.c & maskw(w);
        int64_t s = sx(x, w), t = sx(y, w);
        bool r = false;
        switch (pred)
        {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break;
        case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break;
        case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = s > t; break;
        case CmpInst::ICMP_SGE: r = s >= t; break;
        case CmpInst::ICMP_SLT: r = s < t; break;
        case CmpInst::ICMP_SLE: r = s <= t; break;
        default: abort();
        }
        return Val((u64)r);
    }
    if ((pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) && w > 1 && w <= 64)
    {
        const Val* s = a.sym() ? &a : &b;
        const Val* c = a.sym() ? &b : &a;
        if (!c->sym())
        {
            auto it = boolOf.find(s->e);
            if (it != boolOf.end())
            {
                u64 k = c->c & maskw(w);
                if (k > 1) return Val((u64)(pred == CmpInst::ICMP_NE));
                bool pos = (k == 1) == (pred == CmpInst::ICMP_EQ);
                return pos ? Val::mk(it->second) : notB(Val::mk(it->second));
            }
        }
    }
    Z3_ast x, y, r = nullptr;
    if (w == 1 && (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE))
    {
        x = toAst(a, 1); y = toAst(b, 1);
    }
    else { x = toBV(a, w); y = toBV(b, w); }
    switch (pred)
    {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(C, x, y); break;
    case CmpInst::ICMP_NE: r = Z3_mk_not(C, Z3_mk_eq(C, x, y)); break;
    case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(C, x, y); break;
    case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(C, x, y); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(C, x, y); break;
    case CmpInst::ICMP_ULE: r = Z3_mk_bvule(C, x, y); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(C, x, y); break;
    case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(C, x, y); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(C, x, y); break;
    case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(C, x, y); break;
    default: abort();
    }
    return fromAst(simp(r), 1);
}

static Val castInt(unsigned opc, const Val& v, unsigned from, unsigned to)
{
    if (from == to) return v;
    if (!v.sym() && from <= 64)
    {
        u64 x = v.c & maskw(from);
        if (opc == Instruction::SExt)
        {
            if (to > 64)
            {
                Z3_ast a = toBV(v, from);
                return Val::mk(simp(Z3_mk_sign_ext(C, to - from, a)));
            }
            return Val((u64)sx(x, from) & maskw(to));
        }
        if (to > 64) return wide(Val(x), to);
        return Val(x & maskw(to));
    }
    if (opc == Instruction::Trunc)
    {
        auto it = boolOf.find(v.e);
        if (it != boolOf.end()) return boolToInt(it->second, to);
        if (to == 1)
            return fromAst(simp(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, v.e),
                                         Z3_mk_unsigned_int64(C, 1, bvsort(1)))), 1);
        return fromAst(simp(Z3_mk_extract(C, to - 1, 0, v.e)), to);
    }
    if (opc == Instruction::ZExt)
    {
        if (from == 1) return boolToInt(v.e, to);
        auto it = boolOf.find(v.e);
        if (it != boolOf.end()) return boolToInt(it->second, to);
        return fromAst(simp(Z3_mk_zero_ext(C, to - from, v.e)), to);
    }
    // SExt
    if (from == 1)
    {
        Z3_ast ones = toAst(Val(maskw(to)), to);
        return fromAst(keep(Z3_mk_ite(C, v.e, ones, toAst(Val((u64)0), to))), to);
    }
    return fromAst(simp(Z3_mk_sign_ext(C, to - from, v.e)), to);
}

static Val mkIte(Z3_ast c, const Val& a, const Val& b, unsigned w)
{
    if (!a.sym() && !b.sym() && w <= 64)
    {
        u64 x = a.c & maskw(w), y = b.c & maskw(w);
        if (x == y) return a;
        if (w > 1)
        {
            if (x == 1 && y == 0) return boolToInt(c, w);
            if (x == 0 && y == 1) return boolToInt(simp(Z3_mk_not(C, c)), w);
        }
    }
    else if (a.sym() && b.sym() && a.e == b.e) return a;
    if (w > 1 && w <= 64)
    {
        // preserve bool-ness
        auto bo = [&](const Val& v, Val& out) {
            if (!v.sym()) { if ((v.c & maskw(w)) > 1) return false; out = Val(v.c & 1); return true; }
            auto it = boolOf.find(v.e);
            if (it == boolOf.end()) return false;
            out = Val::mk(it->second); return true; };
        Val x, y;
        if (bo(a, x) && bo(b, y))
        {
            Val r = fromAst(simp(Z3_mk_ite(C, c, toAst(x, 1), toAst(y, 1))), 1);
            if (!r.sym()) return r;
            return boolToInt(r.e, w);
        }
    }
    return fromAst(simp(Z3_mk_ite(C, c, toAst(a, w), toAst(b, w))), w);
}

// ---------------------------------------------------------------------------
// Memory
// ---------------------------------------------------------------------------
struct SymB { Z3_ast e; u8 idx, n; };
enum Kind : u8 { K_HEAP, K_STACK, K_GLOBAL, K_FUNC, K_EXC };
struct Obj
{
    u32 rc = 1;
    u32 size = 0;
    Kind kind = K_HEAP;
    bool alive = true, ro = false;
    u8* data = nullptr;
    SymB* symb = nullptr;
    u8* uninit = nullptr;
    const char* tag = nullptr;
    ~Obj() { free(data); free(symb); free(uninit); }
};
static Obj* newObj(u32 size, Kind k, bool uninit)
{
    Obj* o = new Obj;
    o->size = size; o->kind = k;
    o->data = (u8*)calloc(1, size ? size : 1);
    if (uninit && size) { o->uninit = (u8*)malloc(size); memset(o->uninit, 1, size); }
    return o;
}
static Obj* cloneObj(const Obj* s)
{
    Obj* o = new Obj;
    o->size = s->size; o->kind = s->kind; o->alive = s->alive; o->ro = s->ro; o->tag = s->tag;
    o->data = (u8*)malloc(s->size ? s->size : 1);
    memcpy(o->data, s->data, s->size);
    if (s->symb) { o->symb = (SymB*)malloc(sizeof(SymB) * s->size); memcpy(o->symb, s->symb, sizeof(SymB) * s->size); }
    if (s->uninit) { o->uninit = (u8*)malloc(s->size); memcpy(o->uninit, s->uninit, s->size); }
    return o;
}
static void unref(Obj* o) { if (o && --o->rc == 0) delete o; }
static Obj *DEAD_STACK, *DEAD_HEAP;

static const unsigned PG = 64;
struct Page
{
    u32 rc = 1;
    Obj* o[PG];
    Page() { memset(o, 0, sizeof(o)); }
    ~Page() { for (auto x : o) unref(x); }
};
static const unsigned ASHIFT = 24;
static const u64 AOFF = 0x1000;
static inline u64 addrOf(u64 id) { return (id << ASHIFT) + AOFF; }

struct Mem
{
    std::vector<Page*> pages;
    u64 next = 1;
    Mem() {}
    Mem(const Mem& m) : pages(m.pages), next(m.next) { for (auto p : pages) p->rc++; }
    ~Mem() { for (auto p : pages) if (--p->rc == 0) delete p; }
    Mem& operator=(const Mem&) = delete;
    Obj* get(u64 id) const
    {
        u64 p = id / PG;
        if (p >= pages.size()) return nullptr;
        return pages[p]->o[id % PG];
    }
    Page* wpage(u64 p)
    {
        while (p >= pages.size()) pages.push_back(new Page);
        Page* pg = pages[p];
        if (pg->rc > 1)
        {
            Page* n = new Page;
            for (unsigned i = 0; i < PG; i++) { n->o[i] = pg->o[i]; if (n->o[i]) n->o[i]->rc++; }
            pg->rc--;
            pages[p] = n;
            pg = n;
        }
        return pg;
    }
    void set(u64 id, Obj* o)
    {
        Page* pg = wpage(id / PG);
        unref(pg->o[id % PG]);
        pg->o[id % PG] = o;
    }
    Obj* getw(u64 id)
    {
        Page* pg = wpage(id / PG);
        Obj*& o = pg->o[id % PG];
        if (o && o->rc > 1) { Obj* n = cloneObj(o); o->rc--; o = n; }
        return o;
    }
    u64 alloc(Obj* o) { u64 id = next++; set(id, o); return id; }
};

// ---------------------------------------------------------------------------
// Decoded code
// ---------------------------------------------------------------------------
struct Op { int slot = -1; Val cv; };
struct DFunc;
struct DI
{
    unsigned opc = 0;
    unsigned w = 0;      // result/operand width
    unsigned w2 = 0;
    int dst = -1;
    std::vector<Op> ops;
    Instruction* I = nullptr;
    Type* ty = nullptr;
    u64 imm = 0;
    std::vector<std::pair<int, u64>> gep; // (op index, scale)
    std::vector<int> succ;                // block indexes
    std::vector<unsigned> idx;
    std::vector<u64> cases;
    Function* callee = nullptr;
    unsigned iid = 0; // intrinsic id
    struct Ext* ext = nullptr;
    DFunc* dcallee = nullptr;
};
struct Edge { std::vector<std::pair<int, Op>> cp; };
struct DFunc
{
    Function* F = nullptr;
    unsigned nslots = 0;
    std::vector<DI> code;
    std::vector<unsigned> bbStart;
    std::map<std::pair<int, int>, Edge> edges;
    std::vector<int> bbOf; // instr index -> bb
    int nargs = 0;
    bool used = false;
};

struct Frame
{
    DFunc* f;
    u32 pc;
    std::vector<Val> r;
    std::vector<u64> allocas;
    bool isDtor = false; // engine-pushed (exception destructor)
};
struct Thread
{
    std::vector<Frame> st;
    std::vector<u64> caught;
};
struct Exc { Constant* ti; u64 dtor; int handlers; bool rethrown; };
struct Input { std::string name; Z3_ast v; bool isBool; u64 lo; };
struct Note { std::string name; Val v; };

struct State
{
    Mem mem;
    std::vector<Thread> th;
    int cur = 0;
    std::vector<Z3_ast> pc;
    std::unordered_set<Z3_ast> known;
    std::vector<Input> inputs;
    std::map<std::string, int> cnt;
    std::vector<Note> notes;
    std::map<u64, Exc> exc;
    std::set<std::string> covers;
    long ninstr = 0;
    int nunin = 0;
    int depth = 0;
    u64 sets = 0;
    State() {}
    State(const State&) = default;
};

// ---------------------------------------------------------------------------
// Solver
// ---------------------------------------------------------------------------
static std::unordered_map<Z3_ast, std::vector<unsigned>*> varsCache;
static std::unordered_map<Z3_ast, unsigned> varIds; // const ast -> id
static const std::vector<unsigned>& varsOf(Z3_ast a)
{
    auto it = varsCache.find(a);
    if (it != varsCache.end()) return *it->second;
    auto* v = new std::vector<unsigned>;
    if (Z3_get_ast_kind(C, a) == Z3_APP_AST)
    {
        Z3_app app = Z3_to_app(C, a);
        unsigned n = Z3_get_app_num_args(C, app);
        if (n == 0)
        {
            auto vi = varIds.find(a);
            if (vi != varIds.end()) v->push_back(vi->second);
        }
        else
        {
            std::set<unsigned> s;
            for (unsigned i = 0; i < n; i++)
            {
                const auto& q = varsOf(Z3_get_app_arg(C, app, i));
                s.insert(q.begin(), q.end());
            }
            v->assign(s.begin(), s.end());
        }
    }
    varsCache[a] = v;
    return *v;
}
struct KeyHash
{
    size_t operator()(const std::vector<Z3_ast>& k) const
    {
        size_t h = 1469598103934665603ULL;
        for (auto a : k) h = (h ^ (size_t)a) * 1099511628211ULL;
        return h;
    }
};
static std::unordered_map<std::vector<Z3_ast>, int, KeyHash> qcache;

enum { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

static void slice(const State& s, Z3_ast cond, std::vector<Z3_ast>& out)
{
    std::set<unsigned> vs;
    {
        const auto& q = varsOf(cond);
        vs.insert(q.begin(), q.end());
    }
    std::vector<char> used(s.pc.size(), 0);
    bool changed = true;
    while (changed)
    {
        changed = false;
        for (size_t i = 0; i < s.pc.size(); i++)
        {
            if (used[i]) continue;
            const auto& q = varsOf(s.pc[i]);
            bool hit = false;
            for (auto x : q) if (vs.count(x)) { hit = true; break; }
            if (hit)
            {
                used[i] = 1; changed = true;
                out.push_back(s.pc[i]);
                vs.insert(q.begin(), q.end());
            }
        }
    }
}
static int solve(std::vector<Z3_ast>& cs, Z3_model* mdl)
{
    double t = now();
    Z3_solver_push(C, SOLVER);
    for (auto a : cs) Z3_solver_assert(C, SOLVER, a);
    Z3_lbool r = Z3_solver_check(C, SOLVER);
    if (mdl)
    {
        *mdl = nullptr;
        if (r == Z3_L_TRUE) { *mdl = Z3_solver_get_model(C, SOLVER); Z3_model_inc_ref(C, *mdl); }
    }
    Z3_solver_pop(C, SOLVER, 1);
    SH->queries++;
    SH->solver_us += (long)((now() - t) * 1e6);
    if (r == Z3_L_TRUE) { SH->queries_sat++; return SAT; }
    if (r == Z3_L_FALSE) { SH->queries_unsat++; return UNSAT; }
    SH->queries_unknown++;
    return UNKNOWN;
}
// is pc && cond satisfiable?
static int feasible(const State& s, Z3_ast cond)
{
    Z3_lbool b = Z3_get_bool_value(C, cond);
    if (b == Z3_L_TRUE) return SAT;
    if (b == Z3_L_FALSE) return UNSAT;
    if (s.known.count(cond)) return SAT;
    std::vector<Z3_ast> cs;
    slice(s, cond, cs);
    cs.push_back(cond);
    std::sort(cs.begin(), cs.end());
    auto it = qcache.find(cs);
    if (it != qcache.end()) { SH->cache_hits++; return it->second; }
    int r = solve(cs, nullptr);
    qcache[cs] = r;
    return r;
}
static void addPC(State& s, Z3_ast c)
{
    Z3_lbool b = Z3_get_bool_value(C, c);
    if (b == Z3_L_TRUE) return;
    if (!s.known.insert(c).second) return;
    s.pc.push_back(c);
}

// ---------------------------------------------------------------------------
// Engine
// ---------------------------------------------------------------------------
struct PathEnd { int kind; std::string msg; }; // thrown to end a path
enum { P_OK, P_VIOL, P_ASSUME, P_UNSUP, P_LIMIT };
struct Restart {}; // instruction must be executed again (after fork)

static Module* M;
static const DataLayout* DL;
static std::unordered_map<const Function*, DFunc*> dfuncs;
static std::unordered_map<u64, Function*> funcByAddr;
static std::unordered_map<const Value*, u64> gaddr;
static std::unordered_map<Constant*, unsigned> typeIds;
static std::vector<State*> work;
static std::set<std::string> violSeen;
static std::set<std::string> allCovers;
static std::unordered_map<std::string, long> forkSites;

typedef std::function<Val(State&, std::vector<Val>&, const DI&)> ExtFn;
struct Ext { std::string name; ExtFn fn; };
static std::unordered_map<std::string, Ext*> exts;

static unsigned widthOf(Type* t)
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}

static std::string locOf(State& s)
{
    std::string r;
    auto& st = s.th[s.cur].st;
    int n = 0;
    for (size_t i = st.size(); i-- > 0 && n < 12; n++)
    {
        Frame& f = st[i];
        u32 pc = f.pc;
        if (pc >= f.f->code.size()) pc = (u32)f.f->code.size() - 1;
        Instruction* I = f.f->code[pc].I;
        std::string l = demangle(f.f->F->getName().str());
        if (l.size() > 90) l = l.substr(0, 90) + "...";
        if (I)
            if (const DebugLoc& d = I->getDebugLoc())
            {
                DILocation* dl = d.get();
                l += " at " + dl->getFilename().str() + ":" + std::to_string(dl->getLine());
            }
        r += (n ? " < " : "") + l;
    }
    return r;
}

[[noreturn]] static void unsupported(State& s, const std::string& m)
{
    throw PathEnd{P_UNSUP, m + " @ " + locOf(s)};
}
[[noreturn]] static void violation(State& s, const std::string& m)
{
    throw PathEnd{P_VIOL, m};
    (void)s;
}

// Evaluate all inputs and notes under a model of the path condition.
static std::string esc(const std::string& s)
{
    std::string r;
    for (char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static u64 evalNum(Z3_model m, Z3_ast a, bool isBool)
{
    Z3_ast out = nullptr;
    if (!Z3_model_eval(C, m, a, true, &out)) return 0;
    if (isBool) return Z3_get_bool_value(C, out) == Z3_L_TRUE;
    uint64_t v = 0;
    Z3_get_numeral_uint64(C, out, &v);
    return v;
}
static int OUTFD = -1;
static void emit(const std::string& line)
{
    std::string l = line + "\n";
    // one write() on an O_APPEND file: atomic enough between our processes
    ssize_t r = write(OUTFD, l.data(), l.size());
    (void)r;
}
static bool emitPath(State& s, const char* kind, const std::string& msg)
{
    std::vector<Z3_ast> cs = s.pc;
    Z3_model m = nullptr;
    int r = solve(cs, &m);
    if (r != SAT) { if (m) Z3_model_dec_ref(C, m); return false; }
    std::string o = std::string("{\"kind\":\"") + kind + "\",\"msg\":\"" + esc(msg) + "\",\"inputs\":[";
    bool first = true;
    for (auto& i : s.inputs)
    {
        u64 v = evalNum(m, i.v, i.isBool) + i.lo;
        o += (first ? "" : ",") + std::string("[\"") + esc(i.name) + "\"," + std::to_string(v) + "]";
        first = false;
    }
    o += "],\"notes\":[";
    first = true;
    for (auto& n : s.notes)
    {
        u64 v = n.v.sym() ? evalNum(m, n.v.e, false) : n.v.c;
        o += (first ? "" : ",") + std::string("[\"") + esc(n.name) + "\"," + std::to_string(v) + "]";
        first = false;
    }
    o += "]";
    if (strcmp(kind, "path")) o += ",\"loc\":\"" + esc(locOf(s)) + "\"";
    o += ",\"instrs\":" + std::to_string(s.ninstr) + ",\"forks\":" + std::to_string(s.depth) + "}";
    emit(o);
    Z3_model_dec_ref(C, m);
    return true;
}

static void noteFork(State& s)
{
    SH->forks++;
    if (OPT.verbose)
    {
        auto& f = s.th[s.cur].st.back();
        Instruction* I = f.f->code[f.pc].I;
        std::string l = demangle(f.f->F->getName().str()).substr(0, 80);
        if (const DebugLoc& d = I->getDebugLoc()) l += ":" + std::to_string(d.getLine());
        forkSites[l]++;
    }
}
// Decide a boolean: forks when both outcomes are feasible.  The sibling
// re-executes the current instruction with the negated condition assumed.
static bool decide(State& s, const Val& c)
{
    if (!c.sym()) return c.c & 1;
    SH->branches++;
    Z3_ast t = c.e;
    if (s.known.count(t)) return true;
    Val nv = notB(c);
    if (!nv.sym()) return !(nv.c & 1);
    Z3_ast f = nv.e;
    if (s.known.count(f)) return false;
    int a = feasible(s, t);
    if (a == UNKNOWN) throw PathEnd{P_UNSUP, "solver unknown"};
    if (a == UNSAT) { s.known.insert(f); return false; }
    int b = feasible(s, f);
    if (b == UNKNOWN) throw PathEnd{P_UNSUP, "solver unknown"};
    if (b == UNSAT) { s.known.insert(t); return true; }
    State* o = new State(s);
    o->depth++; s.depth++;
    addPC(*o, f);
    addPC(s, t);
    noteFork(s);
    work.push_back(o);
    return true;
}
// A concrete value of v (width w): forks over all feasible values.
static u64 concretize(State& s, const Val& v, unsigned w)
{
    if (!v.sym()) return v.c & maskw(w);
    if (w == 1) return decide(s, v);
    auto it = boolOf.find(v.e);
    if (it != boolOf.end()) return decide(s, Val::mk(it->second));
    std::vector<Z3_ast> cs;
    Z3_ast dummy = Z3_mk_eq(C, v.e, v.e);
    (void)dummy;
    slice(s, v.e, cs);
    Z3_model m = nullptr;
    int r = solve(cs, &m);
    if (r != SAT) throw PathEnd{P_UNSUP, "solver: no value in concretize"};
    u64 k = evalNum(m, v.e, false);
    Z3_model_dec_ref(C, m);
    Val eq = icmp(CmpInst::ICMP_EQ, v, Val(k), w);
    decide(s, eq); // current state takes v==k (decide prefers true)
    return k;
}

// ---- memory access -------------------------------------------------------
static Obj* lookup(State& s, u64 addr, u64 n, u32& off, u64& id, bool wr)
{
    id = addr >> ASHIFT;
    Obj* o = id ? s.mem.get(id) : nullptr;
    if (!o)
        violation(s, addr < 4096 ? "memory: null pointer dereference" : "memory: wild pointer access");
    if (!o->alive)
        violation(s, o == DEAD_STACK ? "memory: use of dead stack object" : "memory: use after free");
    u64 of = (addr & ((1ULL << ASHIFT) - 1));
    if (of < AOFF || of - AOFF + n > o->size)
        violation(s, "memory: out of bounds access");
    if (o->kind == K_FUNC) violation(s, "memory: access to function address");
    if (wr && o->ro) violation(s, "memory: write to constant");
    off = (u32)(of - AOFF);
    return o;
}
static Z3_ast byteAst(const SymB& b)
{
    if (b.n == 1) return b.e;
    return keep(Z3_simplify(C, Z3_mk_extract(C, b.idx * 8u + 7, b.idx * 8u, b.e)));
}
static Z3_ast mkVar(State& s, const std::string& nm, unsigned w)
{
    int k = s.cnt[nm]++;
    std::string full = nm + "#" + std::to_string(k);
    Z3_symbol sy = Z3_mk_string_symbol(C, full.c_str());
    Z3_ast a = Z3_mk_const(C, sy, w == 1 ? Z3_mk_bool_sort(C) : bvsort(w));
    if (!varIds.count(a)) { unsigned id = (unsigned)varIds.size(); varIds[a] = id; }
    return a;
}
static void materialize(State& s, u64 id, u32 off, u32 n)
{
    Obj* o = s.mem.getw(id);
    if (!o->symb) o->symb = (SymB*)calloc(o->size, sizeof(SymB));
    for (u32 i = off; i < off + n; i++)
        if (o->uninit[i])
        {
            o->uninit[i] = 0;
            o->symb[i] = SymB{mkVar(s, "uninit", 8), 0, 1};
        }
}
static Val loadBytes(State& s, u64 addr, u32 n, unsigned w)
{
    u32 off; u64 id;
    Obj* o = lookup(s, addr, n, off, id, false);
    if (o->uninit && memchr(o->uninit + off, 1, n))
    {
        materialize(s, id, off, n);
        o = s.mem.get(id);
    }
    bool anysym = false;
    if (o->symb)
        for (u32 i = 0; i < n; i++) if (o->symb[off + i].e) { anysym = true; break; }
    if (!anysym && n <= 8)
    {
        u64 v = 0;
        memcpy(&v, o->data + off, n);
        return Val(v & maskw(w));
    }
    unsigned bw = n * 8;
    if (anysym)
    {
        SymB& b0 = o->symb[off];
        if (b0.e && b0.idx == 0 && b0.n == n)
        {
            bool same = true;
            for (u32 i = 1; i < n; i++)
                if (o->symb[off + i].e != b0.e || o->symb[off + i].idx != i) { same = false; break; }
            if (same)
            {
                Val v = Val::mk(b0.e);
                if (w == bw) return v;
                return castInt(Instruction::Trunc, v, bw, w);
            }
        }
    }
    Z3_ast acc = nullptr;
    for (u32 i = 0; i < n; i++)
    {
        Z3_ast b = o->symb && o->symb[off + i].e ? byteAst(o->symb[off + i])
            : Z3_mk_unsigned_int64(C, o->data[off + i], bvsort(8));
        acc = acc ? Z3_mk_concat(C, b, acc) : b;
    }
    acc = simp(acc);
    Val v = fromAst(acc, bw);
    if (w == bw) return v;
    return castInt(Instruction::Trunc, v, bw, w);
}
static void storeBytes(State& s, u64 addr, u32 n, const Val& v, unsigned w)
{
    u32 off; u64 id;
    lookup(s, addr, n, off, id, true);
    Obj* o = s.mem.getw(id);
    if (o->uninit) memset(o->uninit + off, 0, n);
    if (!v.sym())
    {
        memcpy(o->data + off, &v.c, n > 8 ? 8 : n);
        if (n > 8) memset(o->data + off + 8, 0, n - 8);
        if (w < n * 8 && w < 64)
        {
            u64 t = v.c & maskw(w);
            memcpy(o->data + off, &t, n > 8 ? 8 : n);
        }
        if (o->symb) memset((void*)(o->symb + off), 0, sizeof(SymB) * n);
        return;
    }
    Val x = v;
    if (w != n * 8) x = castInt(Instruction::ZExt, v, w, n * 8);
    if (!x.sym()) { storeBytes(s, addr, n, x, n * 8); return; }
    // wide numeral -> concrete bytes
    if (n > 8 && Z3_is_numeral_ast(C, x.e))
    {
        for (u32 i = 0; i < n; i++)
        {
            u64 b = 0;
            Z3_ast e = Z3_simplify(C, Z3_mk_extract(C, i * 8 + 7, i * 8, x.e));
            Z3_get_numeral_uint64(C, e, &b);
            o->data[off + i] = (u8)b;
            if (o->symb) o->symb[off + i].e = nullptr;
        }
        return;
    }
    if (!o->symb) o->symb = (SymB*)calloc(o->size, sizeof(SymB));
    for (u32 i = 0; i < n; i++) o->symb[off + i] = SymB{x.e, (u8)i, (u8)n};
}
static Val loadTy(State& s, u64 addr, Type* t)
{
    if (t->isStructTy())
    {
        auto* st = cast<StructType>(t);
        auto* sl = DL->getStructLayout(st);
        Agg* a = new Agg;
        for (unsigned i = 0; i < st->getNumElements(); i++)
            a->v.push_back(loadTy(s, addr + sl->getElementOffset(i), st->getElementType(i)));
        return Val::mka(a);
    }
    if (t->isArrayTy() || t->isVectorTy())
    {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        u64 es = DL->getTypeAllocSize(et);
        Agg* a = new Agg;
        for (u64 i = 0; i < n; i++) a->v.push_back(loadTy(s, addr + i * es, et));
        return Val::mka(a);
    }
    return loadBytes(s, addr, (u32)DL->getTypeStoreSize(t), widthOf(t));
}
static void storeTy(State& s, u64 addr, const Val& v, Type* t)
{
    if (t->isStructTy())
    {
        auto* st = cast<StructType>(t);
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            storeTy(s, addr + sl->getElementOffset(i), v.a ? v.a->v[i] : Val(), st->getElementType(i));
        return;
    }
    if (t->isArrayTy() || t->isVectorTy())
    {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        u64 es = DL->getTypeAllocSize(et);
        for (u64 i = 0; i < n; i++) storeTy(s, addr + i * es, v.a ? v.a->v[i] : Val(), et);
        return;
    }
    storeBytes(s, addr, (u32)DL->getTypeStoreSize(t), v, widthOf(t));
}
static void copyBytes(State& s, u64 dst, u64 src, u64 n, bool)
{
    if (!n) return;
    u32 so, d0; u64 sid, did;
    Obj* a = lookup(s, src, n, so, sid, false);
    lookup(s, dst, n, d0, did, true);
    // snapshot source
    std::vector<u8> data(a->data + so, a->data + so + n);
    std::vector<SymB> sy;
    if (a->symb) sy.assign(a->symb + so, a->symb + so + n);
    std::vector<u8> un;
    if (a->uninit) un.assign(a->uninit + so, a->uninit + so + n);
    Obj* o = s.mem.getw(did);
    memcpy(o->data + d0, data.data(), n);
    bool anys = false;
    for (auto& q : sy) if (q.e) { anys = true; break; }
    if (anys && !o->symb) o->symb = (SymB*)calloc(o->size, sizeof(SymB));
    if (o->symb)
    {
        if (anys) memcpy((void*)(o->symb + d0), sy.data(), sizeof(SymB) * n);
        else memset((void*)(o->symb + d0), 0, sizeof(SymB) * n);
    }
    bool anyu = false;
    for (auto q : un) if (q) { anyu = true; break; }
    if (anyu && !o->uninit) o->uninit = (u8*)calloc(1, o->size);
    if (o->uninit)
    {
        if (anyu) memcpy(o->uninit + d0, un.data(), n);
        else memset(o->uninit + d0, 0, n);
    }
}
static std::string readStr(State& s, u64 addr)
{
    std::string r;
    for (;;)
    {
        Val v = loadBytes(s, addr++, 1, 8);
        if (v.sym()) unsupported(s, "symbolic string argument");
        if (!v.c) break;
        r += (char)v.c;
        if (r.size() > 4000) break;
    }
    return r;
}

// ---- constants -----------------------------------------------------------
static Val constVal(Constant* c);
static u64 constAddr(Constant* c)
{
    Val v = constVal(c);
    return v.c;
}
static Val constVal(Constant* c)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        unsigned w = t->getIntegerBitWidth();
        if (w <= 64) return Val(ci->getZExtValue());
        SmallString<64> ss;
        ci->getValue().toString(ss, 10, false);
        return Val::mk(keep(Z3_mk_numeral(C, ss.c_str(), bvsort(w))));
    }
    if (isa<ConstantPointerNull>(c)) return Val((u64)0);
    if (auto* cf = dyn_cast<ConstantFP>(c))
        return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
    if (isa<GlobalValue>(c))
    {
        auto it = gaddr.find(c);
        if (it == gaddr.end()) { fprintf(stderr, "no address for global %s\n", c->getName().str().c_str()); exit(3); }
        return Val(it->second);
    }
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
    {
        unsigned n = t->isStructTy() ? t->getStructNumElements()
            : t->isArrayTy() ? (unsigned)t->getArrayNumElements()
            : cast<FixedVectorType>(t)->getNumElements();
        Agg* a = new Agg;
        for (unsigned i = 0; i < n; i++) a->v.push_back(constVal(c->getAggregateElement(i)));
        return Val::mka(a);
    }
    if (isa<UndefValue>(c)) // includes poison
    {
        unsigned w = widthOf(t);
        return wide(Val((u64)0), w);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        bool dz;
        switch (ce->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
            { fprintf(stderr, "constexpr gep\n"); exit(3); }
            return Val(constAddr(ce->getOperand(0)) + off.getZExtValue());
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast:
        case Instruction::PtrToInt: case Instruction::IntToPtr:
        {
            Val v = constVal(ce->getOperand(0));
            if (t->isIntegerTy()) v.c &= maskw(t->getIntegerBitWidth());
            return v;
        }
        case Instruction::Trunc:
            return castInt(Instruction::Trunc, constVal(ce->getOperand(0)),
                           widthOf(ce->getOperand(0)->getType()), widthOf(t));
        case Instruction::Add: case Instruction::Sub: case Instruction::Xor:
        case Instruction::Mul: case Instruction::Shl:
            return binop(ce->getOpcode(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)), widthOf(t), dz);
        case Instruction::ICmp:
            return icmp(ce->getPredicate(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)),
                        widthOf(ce->getOperand(0)->getType()));
        default: break;
        }
    }
    errs() << "unsupported constant: " << *c << "\n";
    exit(3);
}
static void initGlobal(State& s, u64 addr, Constant* c)
{
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c)) return;
    if (isa<UndefValue>(c)) return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(c))
    {
        StringRef d = cds->getRawDataValues();
        u32 off; u64 id;
        lookup(s, addr, d.size(), off, id, false);
        memcpy(s.mem.getw(id)->data + off, d.data(), d.size());
        return;
    }
    if (t->isStructTy())
    {
        auto* sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < t->getStructNumElements(); i++)
            initGlobal(s, addr + sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if (t->isArrayTy() || t->isVectorTy())
    {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        unsigned n = t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        u64 es = DL->getTypeAllocSize(et);
        for (unsigned i = 0; i < n; i++) initGlobal(s, addr + i * es, c->getAggregateElement(i));
        return;
    }
    storeBytes(s, addr, (u32)DL->getTypeStoreSize(t), constVal(c), widthOf(t));
}

// ---- decode --------------------------------------------------------------
static DFunc* decode(Function* F)
{
    auto it = dfuncs.find(F);
    if (it != dfuncs.end()) return it->second;
    DFunc* d = new DFunc;
    dfuncs[F] = d;
    d->F = F;
    std::unordered_map<const Value*, int> slot;
    std::unordered_map<const BasicBlock*, int> bbi;
    int n = 0;
    for (auto& a : F->args()) slot[&a] = n++;
    d->nargs = n;
    int nb = 0;
    for (auto& bb : *F)
    {
        bbi[&bb] = nb++;
        for (auto& I : bb) if (!I.getType()->isVoidTy()) slot[&I] = n++;
    }
    d->nslots = (unsigned)n;
    auto op = [&](Value* v) {
        Op o;
        if (auto* c = dyn_cast<Constant>(v)) { o.slot = -1; o.cv = constVal(c); }
        else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) { o.slot = -1; }
        else o.slot = slot.at(v);
        return o;
    };
    int b = -1;
    for (auto& bb : *F)
    {
        b++;
        d->bbStart.push_back((unsigned)d->code.size());
        for (auto& I : bb)
        {
            if (auto* phi = dyn_cast<PHINode>(&I))
            {
                for (unsigned i = 0; i < phi->getNumIncomingValues(); i++)
                {
                    auto key = std::make_pair(bbi[phi->getIncomingBlock(i)], b);
                    auto& e = d->edges[key];
                    int ds = slot[phi];
                    bool dup = false;
                    for (auto& c : e.cp) if (c.first == ds) dup = true;
                    if (!dup) e.cp.push_back({ds, op(phi->getIncomingValue(i))});
                }
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            DI x;
            x.I = &I;
            x.opc = I.getOpcode();
            x.ty = I.getType();
            if (!I.getType()->isVoidTy()) { x.dst = slot[&I]; x.w = widthOf(I.getType()); }
            if (auto* cb = dyn_cast<CallBase>(&I))
            {
                for (auto& a : cb->args()) x.ops.push_back(op(a.get()));
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                x.callee = dyn_cast<Function>(cv);
                if (x.callee) x.iid = x.callee->getIntrinsicID();
                else x.ops.push_back(op(cb->getCalledOperand())); // last op = target
                if (auto* inv = dyn_cast<InvokeInst>(&I))
                {
                    x.succ.push_back(bbi[inv->getNormalDest()]);
                    x.succ.push_back(bbi[inv->getUnwindDest()]);
                }
            }
            else if (auto* br = dyn_cast<BranchInst>(&I))
            {
                if (br->isConditional()) x.ops.push_back(op(br->getCondition()));
                for (unsigned i = 0; i < br->getNumSuccessors(); i++) x.succ.push_back(bbi[br->getSuccessor(i)]);
            }
            else if (auto* sw = dyn_cast<SwitchInst>(&I))
            {
                x.ops.push_back(op(sw->getCondition()));
                x.w = widthOf(sw->getCondition()->getType());
                x.succ.push_back(bbi[sw->getDefaultDest()]);
                for (auto& c : sw->cases())
                {
                    x.cases.push_back(c.getCaseValue()->getZExtValue());
                    x.succ.push_back(bbi[c.getCaseSuccessor()]);
                }
            }
            else if (auto* g = dyn_cast<GetElementPtrInst>(&I))
            {
                x.ops.push_back(op(g->getPointerOperand()));
                u64 off = 0;
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi)
                {
                    Value* iv = gi.getOperand();
                    if (StructType* st = gi.getStructTypeOrNull())
                        off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue());
                    else
                    {
                        u64 es = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(iv)) off += (u64)(ci->getSExtValue()) * es;
                        else
                        {
                            x.gep.push_back({(int)x.ops.size(), es});
                            x.ops.push_back(op(iv));
                            x.idx.push_back(widthOf(iv->getType()));
                        }
                    }
                }
                x.imm = off;
            }
            else if (auto* ev = dyn_cast<ExtractValueInst>(&I))
            {
                x.ops.push_back(op(ev->getAggregateOperand()));
                x.idx.assign(ev->idx_begin(), ev->idx_end());
            }
            else if (auto* iv = dyn_cast<InsertValueInst>(&I))
            {
                x.ops.push_back(op(iv->getAggregateOperand()));
                x.ops.push_back(op(iv->getInsertedValueOperand()));
                x.idx.assign(iv->idx_begin(), iv->idx_end());
            }
            else
            {
                for (auto& o : I.operands()) x.ops.push_back(op(o.get()));
                if (auto* cmp = dyn_cast<CmpInst>(&I))
                {
                    x.imm = cmp->getPredicate();
                    x.w2 = widthOf(cmp->getOperand(0)->getType());
                }
                if (isa<CastInst>(&I)) x.w2 = widthOf(I.getOperand(0)->getType());
                if (isa<StoreInst>(&I)) x.ty = I.getOperand(0)->getType();
                if (auto* al = dyn_cast<AllocaInst>(&I)) x.imm = DL->getTypeAllocSize(al->getAllocatedType());
            }
            d->bbOf.push_back(b);
            d->code.push_back(std::move(x));
        }
    }
    return d;
}

static inline Val get(const Frame& f, const Op& o) { return o.slot >= 0 ? f.r[(size_t)o.slot] : o.cv; }
static void jump(Frame& f, int from, int to)
{
    auto it = f.f->edges.find({from, to});
    if (it != f.f->edges.end())
    {
        auto& cp = it->second.cp;
        if (cp.size() == 1) f.r[(size_t)cp[0].first] = get(f, cp[0].second);
        else
        {
            static std::vector<Val> tmp;
            tmp.clear();
            for (auto& c : cp) tmp.push_back(get(f, c.second));
            for (size_t i = 0; i < cp.size(); i++) f.r[(size_t)cp[i].first] = tmp[i];
        }
    }
    f.pc = f.f->bbStart[(size_t)to];
}
static void pushFrame(State& s, DFunc* d, const std::vector<Val>& args)
{
    auto& st = s.th[s.cur].st;
    if (st.size() > 2000) violation(s, "stack overflow (unbounded recursion)");
    st.emplace_back();
    Frame& f = st.back();
    f.f = d;
    d->used = true;
    f.pc = 0;
    f.r.resize(d->nslots);
    for (size_t i = 0; i < args.size() && i < (size_t)d->nargs; i++) f.r[i] = args[i];
}
static void killFrame(State& s)
{
    auto& st = s.th[s.cur].st;
    for (u64 id : st.back().allocas) { DEAD_STACK->rc++; s.mem.set(id, DEAD_STACK); }
    st.pop_back();
}
// value returned from callee into the current top frame
static void finishCall(State& s, const Val& v)
{
    auto& st = s.th[s.cur].st;
    if (st.empty()) return;
    Frame& f = st.back();
    DI& d = f.f->code[f.pc];
    if (d.dst >= 0) f.r[(size_t)d.dst] = v;
    if (d.opc == Instruction::Invoke) jump(f, f.f->bbOf[f.pc], d.succ[0]);
    else f.pc++;
}

// ---- exceptions ----------------------------------------------------------
static unsigned typeId(Constant* ti)
{
    auto it = typeIds.find(ti);
    if (it != typeIds.end()) return it->second;
    unsigned n = (unsigned)typeIds.size() + 1;
    return typeIds[ti] = n;
}
static bool tiMatches(Constant* thrown, Constant* want)
{
    thrown = cast<Constant>(thrown->stripPointerCasts());
    want = cast<Constant>(want->stripPointerCasts());
    if (thrown == want) return true;
    if (thrown->getName() == want->getName()) return true;
    auto* gv = dyn_cast<GlobalVariable>(thrown);
    if (!gv || !gv->hasInitializer()) return false;
    Constant* init = gv->getInitializer();
    // {vtable, name} | {vtable, name, base} | {vtable, name, flags, n, base, off, ...}
    unsigned n = init->getType()->getStructNumElements();
    for (unsigned i = 2; i < n; i++)
    {
        Constant* e = init->getAggregateElement(i);
        if (!e->getType()->isPointerTy()) continue;
        auto* b = dyn_cast<GlobalVariable>(e->stripPointerCasts());
        if (b && b->getName().starts_with("_ZTI") && tiMatches(b, want)) return true;
    }
    return false;
}
// clause scan: returns selector (nonzero catch), 0 cleanup only, INT_MIN none
static int lpadSelect(LandingPadInst* lp, Constant* ti)
{
    for (unsigned i = 0; i < lp->getNumClauses(); i++)
    {
        Constant* c = lp->getClause(i);
        if (lp->isCatch(i))
        {
            c = cast<Constant>(c->stripPointerCasts());
            if (isa<ConstantPointerNull>(c)) return (int)typeId(c);
            if (tiMatches(ti, c)) return (int)typeId(c);
        }
        else
        {
            // filter: matches when no listed type matches
            bool listed = false;
            unsigned n = (unsigned)c->getType()->getArrayNumElements();
            for (unsigned k = 0; k < n; k++)
                if (tiMatches(ti, cast<Constant>(c->getAggregateElement(k)->stripPointerCasts()))) listed = true;
            if (!listed) return -(int)(i + 1);
        }
    }
    if (lp->isCleanup()) return 0;
    return INT32_MIN;
}
static void unwind(State& s, u64 ptr)
{
    Exc& e = s.exc.at(ptr);
    auto& st = s.th[s.cur].st;
    // phase 1: is there a handler?
    bool handler = false;
    for (size_t i = st.size(); i-- > 0;)
    {
        Frame& f = st[i];
        DI& d = f.f->code[f.pc];
        if (d.opc == Instruction::Invoke)
        {
            auto* lp = cast<InvokeInst>(d.I)->getLandingPadInst();
            int sel = lpadSelect(lp, e.ti);
            if (sel != INT32_MIN && sel != 0) { handler = true; break; }
        }
    }
    if (!handler)
        violation(s, "uncaught exception " + demangle(e.ti->getName().str()) + " (std::terminate)");
    while (!st.empty())
    {
        Frame& f = st.back();
        DI& d = f.f->code[f.pc];
        if (d.opc == Instruction::Invoke)
        {
            auto* inv = cast<InvokeInst>(d.I);
            auto* lp = inv->getLandingPadInst();
            int sel = lpadSelect(lp, e.ti);
            if (sel != INT32_MIN)
            {
                jump(f, f.f->bbOf[f.pc], d.succ[1]);
                // find landingpad instr (first non-phi)
                DI& l = f.f->code[f.pc];
                if (l.opc != Instruction::LandingPad) unsupported(s, "landingpad not first");
                Agg* a = new Agg;
                a->v.push_back(Val(ptr));
                a->v.push_back(Val((u64)(u32)sel));
                f.r[(size_t)l.dst] = Val::mka(a);
                f.pc++;
                return;
            }
        }
        killFrame(s);
    }
    violation(s, "uncaught exception");
}


// ---- externals -----------------------------------------------------------
static u64 doAlloc(State& s, u64 n, Kind k)
{
    if (n > (1u << ASHIFT) - 0x2000) violation(s, "allocation too large");
    u64 id = s.mem.alloc(newObj((u32)n, k, true));
    return addrOf(id);
}
static void doFree(State& s, u64 p)
{
    if (!p) return;
    u64 id = p >> ASHIFT;
    Obj* o = s.mem.get(id);
    if (!o) violation(s, "memory: free of wild pointer");
    if (!o->alive) violation(s, "memory: double free");
    if (p != addrOf(id) || (o->kind != K_HEAP && o->kind != K_EXC)) violation(s, "memory: invalid free");
    DEAD_HEAP->rc++;
    s.mem.set(id, DEAD_HEAP);
}
static Val newInput(State& s, const std::string& nm, u64 lo, u64 hi)
{
    if (hi < lo) unsupported(s, "empty range " + nm);
    if (hi == lo)
    {
        return Val(lo);
    }
    u64 span = hi - lo;
    if (span == 1)
    {
        Z3_ast b = mkVar(s, nm, 1);
        s.inputs.push_back({nm, b, true, lo});
        Val v = boolToInt(b, 64);
        bool dz;
        return binop(Instruction::Add, v, Val(lo), 64, dz);
    }
    unsigned w = 64 - (unsigned)__builtin_clzll(span);
    Z3_ast a = mkVar(s, nm, w);
    s.inputs.push_back({nm, a, false, lo});
    if (span != maskw(w)) addPC(s, simp(Z3_mk_bvule(C, a, toAst(Val(span), w))));
    Val v = castInt(Instruction::ZExt, Val::mk(a), w, 64);
    bool dz;
    return binop(Instruction::Add, v, Val(lo), 64, dz);
}
static void checkAssert(State& s, const Val& c, const std::string& msg)
{
    SH->asserts_checked++;
    if (!c.sym())
    {
        if (!(c.c & 1)) violation(s, "assertion failed: " + msg);
        return;
    }
    Val nv = notB(c);
    int r = nv.sym() ? feasible(s, nv.e) : (int)(nv.c & 1);
    if (r == UNKNOWN) throw PathEnd{P_UNSUP, "solver unknown"};
    if (r == SAT)
    {
        // fork the failing side off as a violation
        if (decide(s, c)) return; // the sibling fails on re-execution
        violation(s, "assertion failed: " + msg);
    }
}
static Val toBool(const Val& v, unsigned w)
{
    return icmp(CmpInst::ICMP_NE, v, Val((u64)0), w);
}
static void reg(const char* n, ExtFn f) { Ext* e = new Ext; e->name = n; e->fn = f; exts[n] = e; }

static double d_of(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 of_d(double d) { u64 v; memcpy(&v, &d, 8); return v; }

struct NoReturn {}; // external transferred control itself; do not finish the call

static void setupExts()
{
    auto alloc = [](State& s, std::vector<Val>& a, const DI&) {
        u64 n = concretize(s, a[0], 64);
        return Val(doAlloc(s, n, K_HEAP)); };
    for (auto n : {"_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamRKSt9nothrow_t", "_ZnwmRKSt9nothrow_t"}) reg(n, alloc);
    reg("calloc", [](State& s, std::vector<Val>& a, const DI&) {
        u64 n = concretize(s, a[0], 64), m = concretize(s, a[1], 64);
        u64 p = doAlloc(s, n * m, K_HEAP);
        Obj* o = s.mem.getw(p >> ASHIFT);
        free(o->uninit); o->uninit = nullptr;
        return Val(p); });
    auto fr = [](State& s, std::vector<Val>& a, const DI&) {
        doFree(s, concretize(s, a[0], 64)); return Val(); };
    for (auto n : {"_ZdlPv", "_ZdaPv", "free", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t"}) reg(n, fr);
    auto nop = [](State&, std::vector<Val>&, const DI&) { return Val((u64)0); };
    for (auto n : {"__cxa_atexit", "wsym_nop"}) reg(n, nop);
    reg("__assert_fail", [](State& s, std::vector<Val>& a, const DI&) -> Val {
        violation(s, "library assertion failed: " + readStr(s, a[0].c) + " (" + readStr(s, a[1].c) + ":" + std::to_string(a[2].c) + ")"); });
    reg("abort", [](State& s, std::vector<Val>&, const DI&) -> Val { violation(s, "abort() called"); });
    reg("_ZSt9terminatev", [](State& s, std::vector<Val>&, const DI&) -> Val { violation(s, "std::terminate() called"); });
    reg("__cxa_call_unexpected", [](State& s, std::vector<Val>&, const DI&) -> Val { violation(s, "unexpected exception: std::terminate()"); });
    reg("__cxa_pure_virtual", [](State& s, std::vector<Val>&, const DI&) -> Val { violation(s, "pure virtual call"); });
    reg("exit", [](State&, std::vector<Val>&, const DI&) -> Val { throw PathEnd{P_OK, "exit"}; });
    reg("wsym_exit", [](State&, std::vector<Val>&, const DI&) -> Val { throw PathEnd{P_OK, "exit"}; });
    // exceptions
    reg("__cxa_allocate_exception", [](State& s, std::vector<Val>& a, const DI&) {
        return Val(doAlloc(s, a[0].c, K_EXC)); });
    reg("__cxa_free_exception", [](State& s, std::vector<Val>& a, const DI&) { doFree(s, a[0].c); return Val(); });
    reg("__cxa_throw", [](State& s, std::vector<Val>& a, const DI& d) -> Val {
        auto* cb = cast<CallBase>(d.I);
        Constant* ti = cast<Constant>(cb->getArgOperand(1)->stripPointerCasts());
        s.exc[a[0].c] = Exc{ti, a[2].c, 0, false};
        unwind(s, a[0].c);
        throw NoReturn(); });
    reg("__cxa_begin_catch", [](State& s, std::vector<Val>& a, const DI&) {
        auto it = s.exc.find(a[0].c);
        if (it == s.exc.end()) unsupported(s, "begin_catch of unknown exception");
        if (it->second.rethrown) it->second.rethrown = false;
        else it->second.handlers++;
        s.th[s.cur].caught.push_back(a[0].c);
        return a[0]; });
    reg("__cxa_get_exception_ptr", [](State&, std::vector<Val>& a, const DI&) { return a[0]; });
    reg("__cxa_end_catch", [](State& s, std::vector<Val>&, const DI&) -> Val {
        auto& c = s.th[s.cur].caught;
        if (c.empty()) unsupported(s, "end_catch");
        u64 p = c.back();
        c.pop_back();
        Exc& e = s.exc.at(p);
        if (--e.handlers == 0)
        {
            u64 dt = e.dtor;
            s.exc.erase(p);
            if (dt)
            {
                // run the destructor as a call, memory is released lazily
                finishCall(s, Val());
                auto it = funcByAddr.find(dt);
                if (it == funcByAddr.end()) unsupported(s, "exception dtor");
                if (!it->second->isDeclaration())
                {
                    pushFrame(s, decode(it->second), {Val(p)});
                    s.th[s.cur].st.back().isDtor = true;
                }
                throw NoReturn();
            }
            doFree(s, p);
        }
        return Val(); });
    reg("__cxa_rethrow", [](State& s, std::vector<Val>&, const DI&) -> Val {
        auto& c = s.th[s.cur].caught;
        if (c.empty()) violation(s, "rethrow without exception: std::terminate()");
        u64 p = c.back();
        // the handler's own end_catch (cleanup path) decrements once, the
        // next begin_catch does not increment
        s.exc.at(p).handlers++;
        s.exc.at(p).rethrown = true;
        unwind(s, p);
        throw NoReturn(); });
    reg("_ZSt18uncaught_exceptionv", nop);
    reg("_ZSt19uncaught_exceptionsv", nop);
    reg("__cxa_guard_acquire", [](State& s, std::vector<Val>& a, const DI&) {
        Val v = loadBytes(s, a[0].c, 1, 8);
        return Val((u64)(v.c ? 0 : 1)); });
    reg("__cxa_guard_release", [](State& s, std::vector<Val>& a, const DI&) {
        storeBytes(s, a[0].c, 1, Val(1), 8); return Val(); });
    reg("__cxa_guard_abort", nop);
    // symbolic inputs
    reg("wsym_range", [](State& s, std::vector<Val>& a, const DI&) {
        return newInput(s, readStr(s, a[0].c), a[1].c, a[2].c); });
    reg("wsym_u64", [](State& s, std::vector<Val>& a, const DI&) {
        return newInput(s, readStr(s, a[0].c), 0, ~0ULL); });
    reg("wsym_assume", [](State& s, std::vector<Val>& a, const DI& d) -> Val {
        Val c = toBool(a[0], widthOf(d.I->getOperand(0)->getType()));
        if (!c.sym()) { if (!c.c) throw PathEnd{P_ASSUME, ""}; return Val(); }
        int r = feasible(s, c.e);
        if (r == UNSAT) throw PathEnd{P_ASSUME, ""};
        if (r == UNKNOWN) throw PathEnd{P_UNSUP, "solver unknown"};
        addPC(s, c.e);
        return Val(); });
    reg("wsym_assert", [](State& s, std::vector<Val>& a, const DI& d) -> Val {
        Val c = toBool(a[0], widthOf(d.I->getOperand(0)->getType()));
        checkAssert(s, c, readStr(s, a[1].c));
        return Val(); });
    reg("wsym_fail", [](State& s, std::vector<Val>& a, const DI&) -> Val {
        violation(s, "assertion failed: " + readStr(s, a[0].c)); });
    reg("wsym_unsupported", [](State& s, std::vector<Val>& a, const DI&) -> Val {
        unsupported(s, readStr(s, a[0].c)); });
    reg("wsym_cover", [](State& s, std::vector<Val>& a, const DI&) -> Val {
        s.covers.insert(readStr(s, a[0].c)); return Val(); });
    reg("wsym_note", [](State& s, std::vector<Val>& a, const DI&) -> Val {
        s.notes.push_back({readStr(s, a[0].c), a[1]}); return Val(); });
    reg("wsym_concretize", [](State& s, std::vector<Val>& a, const DI&) -> Val {
        return Val(concretize(s, a[0], 64)); });
    reg("wsym_is_symbolic", [](State&, std::vector<Val>& a, const DI&) -> Val {
        return Val((u64)a[0].sym()); });
    reg("wsym_fmt_double", [](State& s, std::vector<Val>& a, const DI&) -> Val {
        // (char* out, double v, int precision, int fixed) -> length
        if (a[1].sym()) unsupported(s, "symbolic double");
        char b[64];
        std::string fm = "%";
        if (a[3].c & 2) fm += "#";
        fm += ".*";
        fm += (a[3].c & 1) ? "f" : (a[3].c & 4) ? "e" : "g";
        int n = snprintf(b, sizeof b, fm.c_str(), (int)a[2].c, d_of(a[1].c));
        for (int i = 0; i <= n; i++) storeBytes(s, a[0].c + (u64)i, 1, Val((u64)(u8)b[i]), 8);
        return Val((u64)n); });
    reg("wsym_strtod", [](State& s, std::vector<Val>& a, const DI&) -> Val {
        std::string str = readStr(s, a[0].c);
        char* e;
        double d = strtod(str.c_str(), &e);
        if (a[1].c) storeBytes(s, a[1].c, 8, Val(a[0].c + (u64)(e - str.c_str())), 64);
        return Val(of_d(d)); });
    // threads
    reg("wsym_thread_spawn", [](State& s, std::vector<Val>& a, const DI&) -> Val {
        auto it = funcByAddr.find(a[0].c);
        if (it == funcByAddr.end()) unsupported(s, "spawn");
        int save = s.cur;
        s.th.emplace_back();
        s.cur = (int)s.th.size() - 1;
        pushFrame(s, decode(it->second), {a[1]});
        int id = s.cur;
        s.cur = save;
        return Val((u64)id); });
    reg("wsym_coswitch", [](State& s, std::vector<Val>& a, const DI&) -> Val {
        u64 t = concretize(s, a[0], 64);
        if (t >= s.th.size()) unsupported(s, "coswitch");
        finishCall(s, Val());
        s.cur = (int)t;
        throw NoReturn(); });
    reg("wsym_curthread", [](State& s, std::vector<Val>&, const DI&) -> Val { return Val((u64)s.cur); });
    reg("wsym_dump", [](State& s, std::vector<Val>& a, const DI&) -> Val {
        if (a[1].sym()) fprintf(stderr, "DUMP %s %s\n", readStr(s, a[0].c).c_str(), Z3_ast_to_string(C, a[1].e));
        else fprintf(stderr, "DUMP %s %lld\n", readStr(s, a[0].c).c_str(), (long long)a[1].c);
        return Val(); });
}

// ---- instruction execution ----------------------------------------------
static Val getAggIdx(const Val& v, const std::vector<unsigned>& idx, size_t k)
{
    if (k == idx.size()) return v;
    if (!v.a) return Val();
    return getAggIdx(v.a->v.at(idx[k]), idx, k + 1);
}
static Val setAggIdx(const Val& v, Type* t, const std::vector<unsigned>& idx, size_t k, const Val& nv)
{
    if (k == idx.size()) return nv;
    Agg* a = new Agg;
    unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
    if (v.a) a->v = v.a->v; else a->v.resize(n);
    Type* et = t->isStructTy() ? t->getStructElementType(idx[k]) : t->getArrayElementType();
    a->v[idx[k]] = setAggIdx(a->v[idx[k]], et, idx, k + 1, nv);
    return Val::mka(a);
}
static u64 resolvePtr(State& s, const Val& p) { return concretize(s, p, 64); }

static bool loadIte(State& s, const Val& p, u32 n, unsigned w, Val& out)
{
    // enumerate feasible addresses (bounded); all must be valid
    std::vector<u64> vals;
    std::vector<Z3_ast> cs;
    slice(s, p.e, cs);
    std::vector<Z3_ast> q = cs;
    for (int i = 0; i < 300; i++)
    {
        Z3_model m = nullptr;
        int r = solve(q, &m);
        if (r == UNSAT) break;
        if (r == UNKNOWN) return false;
        u64 k = evalNum(m, p.e, false);
        Z3_model_dec_ref(C, m);
        vals.push_back(k);
        q.push_back(Z3_mk_not(C, Z3_mk_eq(C, p.e, toAst(Val(k), 64))));
        if (i == 299) return false;
    }
    if (vals.empty()) return false;
    u64 id = vals[0] >> ASHIFT;
    Obj* o = s.mem.get(id);
    if (!o || !o->alive || o->kind == K_FUNC || o->uninit) return false;
    for (u64 v : vals)
    {
        u64 of = v & ((1ULL << ASHIFT) - 1);
        if (v >> ASHIFT != id || of < AOFF || of - AOFF + n > o->size) return false;
    }
    Val acc = loadBytes(s, vals[0], n, w);
    for (size_t i = 1; i < vals.size(); i++)
        acc = mkIte(Z3_mk_eq(C, p.e, toAst(Val(vals[i]), 64)), loadBytes(s, vals[i], n, w), acc, w);
    out = acc;
    return true;
}

static void doCall(State& s, const DI& d, Function* F, std::vector<Val>& args);

static Val intrinsic(State& s, Frame& f, const DI& d, std::vector<Val>& a, bool& handled)
{
    handled = true;
    unsigned w = d.w;
    bool dz;
    switch (d.iid)
    {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
    case Intrinsic::stackrestore: case Intrinsic::sideeffect:
        return Val();
    case Intrinsic::stacksave: return Val((u64)0);
    case Intrinsic::expect: case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation:
        return a[0];
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
    {
        u64 n = concretize(s, a[2], 64);
        u64 dst = resolvePtr(s, a[0]), src = resolvePtr(s, a[1]);
        copyBytes(s, dst, src, n, true);
        return Val();
    }
    case Intrinsic::memset: case Intrinsic::memset_inline:
    {
        u64 n = concretize(s, a[2], 64);
        u64 dst = resolvePtr(s, a[0]);
        if (!n) return Val();
        u32 off; u64 id;
        lookup(s, dst, n, off, id, true);
        if (a[1].sym()) { for (u64 i = 0; i < n; i++) storeBytes(s, dst + i, 1, a[1], 8); return Val(); }
        Obj* o = s.mem.getw(id);
        memset(o->data + off, (int)a[1].c, n);
        if (o->symb) memset((void*)(o->symb + off), 0, sizeof(SymB) * n);
        if (o->uninit) memset(o->uninit + off, 0, n);
        return Val();
    }
    case Intrinsic::umin: { Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1], w); return c.sym() ? mkIte(c.e, a[0], a[1], w) : c.c ? a[0] : a[1]; }
    case Intrinsic::umax: { Val c = icmp(CmpInst::ICMP_UGT, a[0], a[1], w); return c.sym() ? mkIte(c.e, a[0], a[1], w) : c.c ? a[0] : a[1]; }
    case Intrinsic::smin: { Val c = icmp(CmpInst::ICMP_SLT, a[0], a[1], w); return c.sym() ? mkIte(c.e, a[0], a[1], w) : c.c ? a[0] : a[1]; }
    case Intrinsic::smax: { Val c = icmp(CmpInst::ICMP_SGT, a[0], a[1], w); return c.sym() ? mkIte(c.e, a[0], a[1], w) : c.c ? a[0] : a[1]; }
    case Intrinsic::abs:
    {
        Val c = icmp(CmpInst::ICMP_SLT, a[0], Val((u64)0), w);
        Val n = binop(Instruction::Sub, Val((u64)0), a[0], w, dz);
        return c.sym() ? mkIte(c.e, n, a[0], w) : c.c ? n : a[0];
    }
    case Intrinsic::usub_sat:
    {
        Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1], w);
        Val n = binop(Instruction::Sub, a[0], a[1], w, dz);
        return c.sym() ? mkIte(c.e, Val((u64)0), n, w) : c.c ? Val((u64)0) : n;
    }
    case Intrinsic::uadd_sat:
    {
        Val n = binop(Instruction::Add, a[0], a[1], w, dz);
        Val c = icmp(CmpInst::ICMP_ULT, n, a[0], w);
        return c.sym() ? mkIte(c.e, Val(maskw(w)), n, w) : c.c ? Val(maskw(w)) : n;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
    {
        unsigned ww = widthOf(cast<CallBase>(d.I)->getArgOperand(0)->getType());
        Val r, ov;
        bool sg = d.iid == Intrinsic::sadd_with_overflow || d.iid == Intrinsic::ssub_with_overflow || d.iid == Intrinsic::smul_with_overflow;
        unsigned ops = d.iid == Intrinsic::uadd_with_overflow || d.iid == Intrinsic::sadd_with_overflow ? Instruction::Add
            : d.iid == Intrinsic::usub_with_overflow || d.iid == Intrinsic::ssub_with_overflow ? Instruction::Sub : Instruction::Mul;
        unsigned xw = ww * 2;
        if (!a[0].sym() && !a[1].sym())
        {
            __int128 x = sg ? (__int128)sx(a[0].c, ww) : (__int128)(a[0].c & maskw(ww));
            __int128 y = sg ? (__int128)sx(a[1].c, ww) : (__int128)(a[1].c & maskw(ww));
            __int128 z = ops == Instruction::Add ? x + y : ops == Instruction::Sub ? x - y : x * y;
            r = Val((u64)z & maskw(ww));
            __int128 back = sg ? (__int128)sx(r.c, ww) : (__int128)r.c;
            bool o;
            if (!sg && ww == 64 && ops == Instruction::Mul)
            { u64 t; o = __builtin_mul_overflow(a[0].c, a[1].c, &t); }
            else o = back != z;
            ov = Val((u64)o);
        }
        else
        {
            unsigned ext = sg ? Instruction::SExt : Instruction::ZExt;
            Val x = wide(castInt(ext, a[0], ww, xw), xw), y = wide(castInt(ext, a[1], ww, xw), xw);
            Val z = binop(ops, x, y, xw, dz);
            r = castInt(Instruction::Trunc, z, xw, ww);
            Val back = wide(castInt(ext, r, ww, xw), xw);
            ov = icmp(CmpInst::ICMP_NE, back, z, xw);
        }
        Agg* g = new Agg;
        g->v = {r, ov};
        return Val::mka(g);
    }
    case Intrinsic::bswap:
    {
        if (!a[0].sym()) return Val(__builtin_bswap64(a[0].c) >> (64 - w));
        Z3_ast r = nullptr;
        for (unsigned i = 0; i < w / 8; i++)
        {
            Z3_ast b = Z3_mk_extract(C, i * 8 + 7, i * 8, a[0].e);
            r = r ? Z3_mk_concat(C, r, b) : b;
        }
        return fromAst(simp(r), w);
    }
    case Intrinsic::ctpop: return Val((u64)__builtin_popcountll(concretize(s, a[0], w)));
    case Intrinsic::ctlz: { u64 v = concretize(s, a[0], w); return Val(v ? (u64)__builtin_clzll(v) - (64 - w) : w); }
    case Intrinsic::cttz: { u64 v = concretize(s, a[0], w); return Val(v ? (u64)__builtin_ctzll(v) : w); }
    case Intrinsic::fshl: case Intrinsic::fshr:
    {
        u64 sh = concretize(s, a[2], w) % w;
        bool l = d.iid == Intrinsic::fshl;
        if (!sh) return l ? a[0] : a[1];
        Val x = binop(Instruction::Shl, a[0], Val(l ? sh : w - sh), w, dz);
        Val y = binop(Instruction::LShr, a[1], Val(l ? w - sh : sh), w, dz);
        return binop(Instruction::Or, x, y, w, dz);
    }
    case Intrinsic::objectsize: return Val(maskw(64));
    case Intrinsic::is_constant: return Val((u64)0);
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation(s, "trap");
    case Intrinsic::eh_typeid_for:
        return Val((u64)typeId(cast<Constant>(cast<CallBase>(d.I)->getArgOperand(0)->stripPointerCasts())));
    case Intrinsic::fabs: if (!a[0].sym()) return Val(of_d(fabs(d_of(a[0].c)))); break;
    case Intrinsic::floor: if (!a[0].sym()) return Val(of_d(floor(d_of(a[0].c)))); break;
    case Intrinsic::ceil: if (!a[0].sym()) return Val(of_d(ceil(d_of(a[0].c)))); break;
    case Intrinsic::fmuladd: if (!a[0].sym()) return Val(of_d(d_of(a[0].c) * d_of(a[1].c) + d_of(a[2].c))); break;
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add:
    {
        Val acc = a[0].a->v[0];
        unsigned op = d.iid == Intrinsic::vector_reduce_or ? Instruction::Or : d.iid == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Add;
        for (size_t i = 1; i < a[0].a->v.size(); i++) acc = binop(op, acc, a[0].a->v[i], w, dz);
        return acc;
    }
    default: break;
    }
    handled = false;
    (void)f;
    return Val();
}

static Function* findF(const char* n)
{
    Function* F = M->getFunction(n);
    return F && !F->isDeclaration() ? F : nullptr;
}

static void doCall(State& s, const DI& d, Function* F, std::vector<Val>& args)
{
    if (!F->isDeclaration())
    {
        if (F->isVarArg() && args.size() > F->arg_size()) args.resize(F->arg_size()); // va_start is not encodable, so nobody looks at them
        pushFrame(s, decode(F), args);
        return;
    }
    std::string name = F->getName().str();
    if (Function* W = findF(("__wrap_" + name).c_str()))
    {
        pushFrame(s, decode(W), args);
        return;
    }
    Ext* e = nullptr;
    auto it = exts.find(name);
    if (it != exts.end()) e = it->second;
    if (e)
    {
        try
        {
            Val r = e->fn(s, args, d);
            finishCall(s, r);
        }
        catch (NoReturn&) {}
        return;
    }
    // varargs formatting functions: gather the varargs into an array
    static const std::map<std::string, std::pair<std::string, unsigned>> va = {
        {"snprintf", {"wsym_vsnprintf", 3}}, {"sprintf", {"wsym_vsprintf", 2}},
        {"sscanf", {"wsym_vsscanf", 2}}, {"__isoc23_sscanf", {"wsym_vsscanf", 2}},
        {"__isoc99_sscanf", {"wsym_vsscanf", 2}},
        {"printf", {"wsym_vprintf", 1}}, {"fprintf", {"wsym_vfprintf", 2}},
        {"open", {"wsym_vopen", 2}}};
    auto v = va.find(name);
    if (v != va.end())
    {
        Function* T = findF(v->second.first.c_str());
        if (!T) unsupported(s, "no model of " + name);
        unsigned nf = v->second.second;
        u64 n = args.size() > nf ? args.size() - nf : 0;
        u64 p = doAlloc(s, 8 * (n + 1), K_STACK);
        for (u64 i = 0; i < n; i++)
        {
            Type* t = cast<CallBase>(d.I)->getArgOperand((unsigned)(nf + i))->getType();
            Val x = args[nf + i];
            unsigned w = widthOf(t);
            if (w < 64) x = castInt(Instruction::SExt, x, w, 64);
            storeBytes(s, p + 8 * i, 8, x, 64);
        }
        storeBytes(s, p + 8 * n, 8, Val((u64)0), 64);
        std::vector<Val> na(args.begin(), args.begin() + nf);
        na.push_back(Val(p));
        pushFrame(s, decode(T), na);
        return;
    }
    unsupported(s, "external function " + demangle(name));
}

static Val fbin(State& s, unsigned opc, const Val& a, const Val& b, unsigned w)
{
    if (a.sym() || b.sym()) unsupported(s, "symbolic floating point");
    if (w == 64)
    {
        double x = d_of(a.c), y = d_of(b.c), r = 0;
        switch (opc)
        {
        case Instruction::FAdd: r = x + y; break;
        case Instruction::FSub: r = x - y; break;
        case Instruction::FMul: r = x * y; break;
        case Instruction::FDiv: r = x / y; break;
        case Instruction::FRem: r = fmod(x, y); break;
        }
        return Val(of_d(r));
    }
    float x, y, r = 0;
    memcpy(&x, &a.c, 4); memcpy(&y, &b.c, 4);
    switch (opc)
    {
    case Instruction::FAdd: r = x + y; break;
    case Instruction::FSub: r = x - y; break;
    case Instruction::FMul: r = x * y; break;
    case Instruction::FDiv: r = x / y; break;
    }
    u32 q; memcpy(&q, &r, 4);
    return Val((u64)q);
}

// Execute one instruction of the current thread.
static void step(State& s)
{
    Thread& T = s.th[s.cur];
    Frame& f = T.st.back();
    const DI& d = f.f->code[f.pc];
    s.ninstr++;
    bool dz;
    switch (d.opc)
    {
    case Instruction::Ret:
    {
        Val v = d.ops.empty() ? Val() : get(f, d.ops[0]);
        bool isDtor = f.isDtor;
        killFrame(s);
        if (T.st.empty())
        {
            if (s.cur == 0) throw PathEnd{P_OK, "return"};
            unsupported(s, "thread function returned");
        }
        if (!isDtor) finishCall(s, v);
        return;
    }
    case Instruction::Br:
    {
        int bb = f.f->bbOf[f.pc];
        if (d.ops.empty()) { jump(f, bb, d.succ[0]); return; }
        bool c = decide(s, get(f, d.ops[0]));
        jump(f, bb, d.succ[c ? 0 : 1]);
        return;
    }
    case Instruction::Switch:
    {
        int bb = f.f->bbOf[f.pc];
        Val v = get(f, d.ops[0]);
        if (!v.sym())
        {
            u64 x = v.c & maskw(d.w);
            for (size_t i = 0; i < d.cases.size(); i++)
                if (d.cases[i] == x) { jump(f, bb, d.succ[i + 1]); return; }
            jump(f, bb, d.succ[0]);
            return;
        }
        for (size_t i = 0; i < d.cases.size(); i++)
            if (decide(s, icmp(CmpInst::ICMP_EQ, v, Val(d.cases[i]), d.w)))
            { jump(f, bb, d.succ[i + 1]); return; }
        jump(f, bb, d.succ[0]);
        return;
    }
    case Instruction::Unreachable: violation(s, "unreachable code reached (undefined behaviour)");
    case Instruction::Alloca:
    {
        Val n = get(f, d.ops[0]);
        u64 k = concretize(s, n, 64);
        Obj* o = newObj((u32)(d.imm * k), K_STACK, true);
        u64 id = s.mem.alloc(o);
        f.allocas.push_back(id);
        f.r[(size_t)d.dst] = Val(addrOf(id));
        f.pc++;
        return;
    }
    case Instruction::Load:
    {
        Val p = get(f, d.ops[0]);
        if (p.sym())
        {
            Val out;
            if (d.w && loadIte(s, p, (u32)DL->getTypeStoreSize(d.ty), d.w, out))
            { f.r[(size_t)d.dst] = out; f.pc++; return; }
        }
        u64 a = resolvePtr(s, p);
        Val v = loadTy(s, a, d.ty);
        f.r[(size_t)d.dst] = v;
        f.pc++;
        return;
    }
    case Instruction::Store:
    {
        u64 a = resolvePtr(s, get(f, d.ops[1]));
        storeTy(s, a, get(f, d.ops[0]), d.ty);
        f.pc++;
        return;
    }
    case Instruction::GetElementPtr:
    {
        Val b = get(f, d.ops[0]);
        b = binop(Instruction::Add, b, Val(d.imm), 64, dz);
        for (size_t i = 0; i < d.gep.size(); i++)
        {
            Val x = get(f, d.ops[(size_t)d.gep[i].first]);
            if (d.idx[i] < 64) x = castInt(Instruction::SExt, x, d.idx[i], 64);
            x = binop(Instruction::Mul, x, Val(d.gep[i].second), 64, dz);
            b = binop(Instruction::Add, b, x, 64, dz);
        }
        f.r[(size_t)d.dst] = b;
        f.pc++;
        return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    {
        Val a = get(f, d.ops[0]), b = get(f, d.ops[1]);
        if (d.ty->isVectorTy())
        {
            unsigned w = widthOf(cast<FixedVectorType>(d.ty)->getElementType());
            Agg* g = new Agg;
            unsigned n = cast<FixedVectorType>(d.ty)->getNumElements();
            for (unsigned i = 0; i < n; i++)
                g->v.push_back(binop(d.opc, a.a ? a.a->v[i] : Val(), b.a ? b.a->v[i] : Val(), w, dz));
            f.r[(size_t)d.dst] = Val::mka(g);
            f.pc++;
            return;
        }
        if (b.sym() && (d.opc == Instruction::UDiv || d.opc == Instruction::SDiv ||
                        d.opc == Instruction::URem || d.opc == Instruction::SRem))
            if (decide(s, icmp(CmpInst::ICMP_EQ, b, Val((u64)0), d.w)))
                violation(s, "division by zero");
        Val r = binop(d.opc, a, b, d.w, dz);
        if (dz) violation(s, "division by zero");
        f.r[(size_t)d.dst] = r;
        f.pc++;
        return;
    }
    case Instruction::ICmp:
        if (d.ty->isVectorTy()) unsupported(s, "vector icmp");
        f.r[(size_t)d.dst] = icmp((unsigned)d.imm, get(f, d.ops[0]), get(f, d.ops[1]), d.w2);
        f.pc++;
        return;
    case Instruction::FCmp:
    {
        Val a = get(f, d.ops[0]), b = get(f, d.ops[1]);
        if (a.sym() || b.sym()) unsupported(s, "symbolic fcmp");
        double x, y;
        if (d.w2 == 64) { x = d_of(a.c); y = d_of(b.c); }
        else { float p, q; memcpy(&p, &a.c, 4); memcpy(&q, &b.c, 4); x = p; y = q; }
        bool un = std::isnan(x) || std::isnan(y), r = false;
        switch (d.imm)
        {
        case CmpInst::FCMP_OEQ: r = !un && x == y; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_UNE: r = un || x != y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break;
        case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_TRUE: r = true; break;
        }
        f.r[(size_t)d.dst] = Val((u64)r);
        f.pc++;
        return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        f.r[(size_t)d.dst] = fbin(s, d.opc, get(f, d.ops[0]), get(f, d.ops[1]), d.w);
        f.pc++;
        return;
    case Instruction::FNeg:
    {
        Val a = get(f, d.ops[0]);
        if (a.sym()) unsupported(s, "symbolic float");
        f.r[(size_t)d.dst] = Val(a.c ^ (1ULL << (d.w - 1)));
        f.pc++;
        return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
        if (d.ty->isVectorTy()) unsupported(s, "vector cast");
        f.r[(size_t)d.dst] = castInt(d.opc, get(f, d.ops[0]), d.w2, d.w);
        f.pc++;
        return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    case Instruction::Freeze: case Instruction::AddrSpaceCast:
    {
        Val v = get(f, d.ops[0]);
        if (d.opc == Instruction::PtrToInt && d.w < 64) v = castInt(Instruction::Trunc, v, 64, d.w);
        if (d.opc == Instruction::IntToPtr && d.w2 && d.w2 < 64) v = castInt(Instruction::ZExt, v, d.w2, 64);
        f.r[(size_t)d.dst] = v;
        f.pc++;
        return;
    }
    case Instruction::SIToFP: case Instruction::UIToFP:
    {
        Val v = get(f, d.ops[0]);
        if (v.sym()) unsupported(s, "symbolic int to fp");
        double r = d.opc == Instruction::SIToFP ? (double)sx(v.c, d.w2) : (double)(v.c & maskw(d.w2));
        if (d.w == 64) f.r[(size_t)d.dst] = Val(of_d(r));
        else { float q = (float)r; u32 z; memcpy(&z, &q, 4); f.r[(size_t)d.dst] = Val((u64)z); }
        f.pc++;
        return;
    }
    case Instruction::FPToSI: case Instruction::FPToUI:
    {
        Val v = get(f, d.ops[0]);
        if (v.sym()) unsupported(s, "symbolic fp to int");
        double r;
        if (d.w2 == 64) r = d_of(v.c); else { float q; memcpy(&q, &v.c, 4); r = q; }
        u64 x = d.opc == Instruction::FPToSI ? (u64)(int64_t)r : (u64)r;
        f.r[(size_t)d.dst] = Val(x & maskw(d.w));
        f.pc++;
        return;
    }
    case Instruction::FPExt: case Instruction::FPTrunc:
    {
        Val v = get(f, d.ops[0]);
        if (v.sym()) unsupported(s, "symbolic fp cast");
        if (d.opc == Instruction::FPExt) { float q; memcpy(&q, &v.c, 4); f.r[(size_t)d.dst] = Val(of_d(q)); }
        else { float q = (float)d_of(v.c); u32 z; memcpy(&z, &q, 4); f.r[(size_t)d.dst] = Val((u64)z); }
        f.pc++;
        return;
    }
    case Instruction::Select:
    {
        Val c = get(f, d.ops[0]);
        Val a = get(f, d.ops[1]), b = get(f, d.ops[2]);
        if (!c.sym()) f.r[(size_t)d.dst] = (c.c & 1) ? a : b;
        else if (d.w && !d.ty->isPointerTy() && !d.ty->isFloatingPointTy())
            f.r[(size_t)d.dst] = mkIte(c.e, a, b, d.w);
        else if (d.ty->isPointerTy() && !a.sym() && !b.sym() && a.c == b.c) f.r[(size_t)d.dst] = a;
        else { bool t = decide(s, c); f.r[(size_t)d.dst] = t ? a : b; }
        f.pc++;
        return;
    }
    case Instruction::ExtractValue:
        f.r[(size_t)d.dst] = getAggIdx(get(f, d.ops[0]), d.idx, 0);
        f.pc++;
        return;
    case Instruction::InsertValue:
        f.r[(size_t)d.dst] = setAggIdx(get(f, d.ops[0]), d.ty, d.idx, 0, get(f, d.ops[1]));
        f.pc++;
        return;
    case Instruction::ExtractElement:
        f.r[(size_t)d.dst] = get(f, d.ops[0]).a->v.at(concretize(s, get(f, d.ops[1]), 64));
        f.pc++;
        return;
    case Instruction::InsertElement:
    {
        Agg* g = new Agg;
        Val v = get(f, d.ops[0]);
        unsigned n = cast<FixedVectorType>(d.ty)->getNumElements();
        if (v.a) g->v = v.a->v; else g->v.resize(n);
        g->v.at(concretize(s, get(f, d.ops[2]), 64)) = get(f, d.ops[1]);
        f.r[(size_t)d.dst] = Val::mka(g);
        f.pc++;
        return;
    }
    case Instruction::ShuffleVector:
    {
        auto* sv = cast<ShuffleVectorInst>(d.I);
        Val a = get(f, d.ops[0]), b = get(f, d.ops[1]);
        unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
        Agg* g = new Agg;
        for (int m : sv->getShuffleMask())
            g->v.push_back(m < 0 ? Val() : (unsigned)m < n ? (a.a ? a.a->v[(size_t)m] : Val()) : (b.a ? b.a->v[(size_t)m - n] : Val()));
        f.r[(size_t)d.dst] = Val::mka(g);
        f.pc++;
        return;
    }
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicCmpXchg:
    {
        u64 a = resolvePtr(s, get(f, d.ops[0]));
        Type* t = cast<AtomicCmpXchgInst>(d.I)->getCompareOperand()->getType();
        unsigned w = widthOf(t);
        Val old = loadTy(s, a, t);
        bool eq = decide(s, icmp(CmpInst::ICMP_EQ, old, get(f, d.ops[1]), w));
        if (eq) storeTy(s, a, get(f, d.ops[2]), t);
        Agg* g = new Agg;
        g->v = {old, Val((u64)eq)};
        f.r[(size_t)d.dst] = Val::mka(g);
        f.pc++;
        return;
    }
    case Instruction::AtomicRMW:
    {
        auto* r = cast<AtomicRMWInst>(d.I);
        u64 a = resolvePtr(s, get(f, d.ops[0]));
        Val old = loadTy(s, a, d.ty), v = get(f, d.ops[1]), nv;
        switch (r->getOperation())
        {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v, d.w, dz); break;
        case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v, d.w, dz); break;
        case AtomicRMWInst::And: nv = binop(Instruction::And, old, v, d.w, dz); break;
        case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, v, d.w, dz); break;
        default: unsupported(s, "atomicrmw");
        }
        storeTy(s, a, nv, d.ty);
        f.r[(size_t)d.dst] = old;
        f.pc++;
        return;
    }
    case Instruction::LandingPad: unsupported(s, "landingpad executed");
    case Instruction::Resume:
    {
        Val v = get(f, d.ops[0]);
        u64 p = v.a->v[0].c;
        killFrame(s);
        unwind(s, p);
        return;
    }
    case Instruction::Call: case Instruction::Invoke:
    {
        std::vector<Val> a;
        size_t na = cast<CallBase>(d.I)->arg_size();
        a.reserve(na);
        for (size_t i = 0; i < na; i++) a.push_back(get(f, d.ops[i]));
        Function* F = d.callee;
        if (!F)
        {
            if (cast<CallBase>(d.I)->isInlineAsm())
            {
                if (d.dst >= 0) unsupported(s, "inline asm");
                finishCall(s, Val());
                return;
            }
            u64 p = resolvePtr(s, get(f, d.ops[na]));
            auto it = funcByAddr.find(p);
            if (it == funcByAddr.end())
                violation(s, p < 4096 ? "call through null pointer" : "call through invalid function pointer");
            F = it->second;
        }
        else if (d.iid)
        {
            bool h;
            Val r = intrinsic(s, f, d, a, h);
            if (!h) unsupported(s, "intrinsic " + F->getName().str());
            finishCall(s, r);
            return;
        }
        doCall(s, d, F, a);
        return;
    }
    default:
        unsupported(s, std::string("instruction ") + d.I->getOpcodeName());
    }
}

// ---- path driver ---------------------------------------------------------
static long myPaths = 0, mySampled = 0;
static u64 rng = 88172645463325252ULL;
static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

static void maybeSplit()
{
    // hand half of the oldest pending states to a new process if a core is free
    if (work.size() < 2) return;
    if (SH->active.load(std::memory_order_relaxed) >= OPT.jobs) return;
    long a = SH->active.load();
    if (a >= OPT.jobs) return;
    if (!SH->active.compare_exchange_strong(a, a + 1)) return;
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { SH->active--; return; }
    size_t h = work.size() / 2;
    if (p == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::vector<State*> mine(work.begin(), work.begin() + (long)h);
        // other half belongs to the parent; leak it here
        work.swap(mine);
        myPaths = 0; mySampled = 0;
        allCovers.clear();
        forkSites.clear();
        rng ^= (u64)(SH->procs.fetch_add(1) + 1) * 0x9E3779B97F4A7C15ULL;
    }
    else
    {
        work.erase(work.begin(), work.begin() + (long)h);
    }
}

static std::set<const DFunc*> dumpedFuncs;

static void runState(State* s)
{
    try
    {
        long lim = OPT.max_instr;
        for (;;)
        {
            step(*s);
            if (s->ninstr > lim) throw PathEnd{P_LIMIT, "instruction limit exceeded (possible non-termination)"};
        }
    }
    catch (PathEnd& e)
    {
        SH->instrs += s->ninstr;
        long dp = s->depth;
        if (dp > SH->max_depth) SH->max_depth = dp;
        for (auto& c : s->covers)
            if (allCovers.insert(c).second) emit("{\"kind\":\"cover\",\"msg\":\"" + esc(c) + "\"}");
        if (e.kind == P_OK)
        {
            SH->paths++;
            myPaths++;
            // reservoir-like sampling of complete paths for native validation
            long k = SH->seq.fetch_add(1);
            bool take = k < OPT.sample / 2 || (mySampled < OPT.sample && rnd() % (u64)(1 + k / 8) == 0);
            if (take) { mySampled++; emitPath(*s, "path", ""); }
        }
        else if (e.kind == P_ASSUME) SH->paths_assumed_away++;
        else if (e.kind == P_VIOL || e.kind == P_LIMIT)
        {
            SH->paths++;
            if (e.kind == P_LIMIT) SH->limit_paths++;
            if (emitPath(*s, e.kind == P_VIOL ? "violation" : "limit", e.msg))
            {
                long n = ++SH->violations;
                if (n >= OPT.max_viol) SH->stop = 1;
            }
            else { SH->unsupported++; emit("{\"kind\":\"unsupported\",\"msg\":\"violating path has no model: " + esc(e.msg) + "\"}"); }
        }
        else
        {
            SH->unsupported++;
            emit("{\"kind\":\"unsupported\",\"msg\":\"" + esc(e.msg) + "\"}");
            if (SH->unsupported > 3) SH->stop = 1;
        }
    }
    catch (NoReturn&) { abort(); }
    delete s;
}

static void z3err(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}

int main(int argc, char** argv)
{
    T0 = now();
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--out") OPT.out = nx();
        else if (a == "--jobs") OPT.jobs = atoi(nx().c_str());
        else if (a == "--timeout") OPT.timeout = atof(nx().c_str());
        else if (a == "--max-instr") OPT.max_instr = atol(nx().c_str());
        else if (a == "--max-viol") OPT.max_viol = atol(nx().c_str());
        else if (a == "--sample") OPT.sample = atol(nx().c_str());
        else if (a == "--entry") OPT.entry = nx();
        else if (a == "--seed") OPT.seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "-v") OPT.verbose = true;
        else OPT.bc = a;
    }
    DEADLINE = T0 + OPT.timeout;
    rng ^= OPT.seed * 0x2545F4914F6CDD1DULL;
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (SH) Shared();
    SH->active = 1;
    OUTFD = open(OPT.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (OUTFD < 0) { perror("out"); return 3; }

    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile(OPT.bc, err, ctx);
    if (!mod) { err.print("wsym", errs()); return 3; }
    M = mod.get();
    DL = &M->getDataLayout();

    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context(cfg); // non reference-counted context: asts are never collected
    Z3_set_error_handler(C, z3err);
    SOLVER = Z3_mk_simple_solver(C);
    Z3_solver_inc_ref(C, SOLVER);
    Z3_params ps = Z3_mk_params(C);
    Z3_params_inc_ref(C, ps);
    Z3_params_set_uint(C, ps, Z3_mk_string_symbol(C, "timeout"), 60000);
    Z3_solver_set_params(C, SOLVER, ps);

    DEAD_STACK = newObj(0, K_STACK, false); DEAD_STACK->alive = false;
    DEAD_HEAP = newObj(0, K_HEAP, false); DEAD_HEAP->alive = false;
    setupExts();

    State* init = new State;
    for (auto& F : *M)
    {
        Obj* o = newObj(1, K_FUNC, false);
        u64 id = init->mem.alloc(o);
        gaddr[&F] = addrOf(id);
        funcByAddr[addrOf(id)] = &F;
    }
    for (auto& G : M->globals())
    {
        if (G.getName().starts_with("llvm.")) { if (G.getName() == "llvm.global_ctors") {} }
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
        Obj* o = newObj((u32)(sz < 8 ? 8 : sz), K_GLOBAL, false);
        u64 id = init->mem.alloc(o);
        gaddr[&G] = addrOf(id);
    }
    for (auto& G : M->globals())
        if (G.hasInitializer() && !G.getName().starts_with("llvm."))
            initGlobal(*init, gaddr[&G], G.getInitializer());
    for (auto& G : M->globals())
        if (G.isConstant()) init->mem.get(gaddr[&G] >> ASHIFT)->ro = true;

    Function* entry = M->getFunction(OPT.entry);
    if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", OPT.entry.c_str()); return 3; }
    init->th.emplace_back();
    pushFrame(*init, decode(entry), {});
    // global constructors run first: push frames in reverse order, as
    // engine frames whose return value is dropped
    if (auto* G = M->getGlobalVariable("llvm.global_ctors"))
    {
        std::vector<std::pair<unsigned, Function*>> cs;
        if (auto* arr = dyn_cast<ConstantArray>(G->getInitializer()))
            for (auto& o : arr->operands())
            {
                auto* st = cast<ConstantStruct>(o);
                auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts());
                if (fn) cs.push_back({(unsigned)cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn});
            }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (size_t i = cs.size(); i-- > 0;)
        {
            pushFrame(*init, decode(cs[i].second), {});
            init->th[0].st.back().isDtor = true;
        }
    }
    work.push_back(init);

    while (!work.empty())
    {
        if (SH->stop) break;
        double t = now();
        if (t > DEADLINE) { SH->incomplete = 1; SH->stop = 1; break; }
        maybeSplit();
        State* s = work.back();
        work.pop_back();
        runState(s);
    }
    if (!work.empty() && !SH->stop) SH->incomplete = 1;
    SH->active--;
    // functions encoded by this process
    {
        std::string o = "{\"kind\":\"funcs\",\"names\":[";
        bool first = true;
        for (auto& p : dfuncs)
            if (p.second->used)
            {
                std::string n = demangle(p.first->getName().str());
                if (n.find("wsrep::") == std::string::npos) continue;
                o += (first ? "\"" : ",\"") + esc(n) + "\"";
                first = false;
            }
        emit(o + "]}");
    }
    if (OPT.verbose)
        for (auto& f : forkSites)
            emit("{\"kind\":\"forksite\",\"msg\":\"" + esc(f.first) + "\",\"n\":" + std::to_string(f.second) + "}");
    while (wait(nullptr) > 0 || errno == EINTR) {}
    if (getpid() != MAINPID) _exit(0);
    struct rusage ru;
    getrusage(RUSAGE_CHILDREN, &ru);
    std::string o = "{\"kind\":\"summary\"";
    auto add = [&](const char* k, long v) { o += std::string(",\"") + k + "\":" + std::to_string(v); };
    add("paths", SH->paths); add("assumed_away", SH->paths_assumed_away);
    add("forks", SH->forks); add("instrs", SH->instrs); add("branches", SH->branches);
    add("queries", SH->queries); add("sat", SH->queries_sat); add("unsat", SH->queries_unsat);
    add("unknown", SH->queries_unknown); add("cache_hits", SH->cache_hits);
    add("asserts", SH->asserts_checked); add("violations", SH->violations);
    add("incomplete", SH->incomplete); add("unsupported", SH->unsupported);
    add("max_depth", SH->max_depth); add("limit_paths", SH->limit_paths);
    add("stopped", SH->stop);
    char b[64];
    snprintf(b, sizeof b, ",\"solver_s\":%.3f,\"wall_s\":%.3f}", (double)SH->solver_us * 1e-6, now() - T0);
    emit(o + b);
    return 0;
}
