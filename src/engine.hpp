// Model-based history engine: runs operation histories with injected faults on a pool of variants and checks
// every observation against a model. Used by C01-C05, C15, C16, C19, C21.
#ifndef VERIF_ENGINE_HPP
#define VERIF_ENGINE_HPP
#ifndef VERIF_ALLOC
#define VERIF_ALLOC
#endif
#include "mon.hpp"
#include <boost/variant.hpp>
#include <boost/functional/hash.hpp>
#ifndef VERIF_NOSTREAM
#include <sstream>
#endif

namespace boost { inline std::size_t hash_value(const blank&) { return 17; } }
namespace eng {
using namespace mon;
enum { EMPTYV = -5 };

// ---------------------------------------------------------------- adapters: how the harness makes and reads contents
template <class U> struct Ad;        // primary: instrumented types
template <int N, int DF, int CP, int MV, int PAD> struct Ad< T<N,DF,CP,MV,PAD> > {
    typedef T<N,DF,CP,MV,PAD> type;
    enum { wrapped = 0, copyable = CP != 0, nmove = MV == 2, moves = MV != 0, ndc = DF == 2, tracked = 1, tid = N, loose_move = 0, self_contained = 1 };
    static type make(long v) { return type(v); }
    static long val(const type& x) {
        if (!x.pad_ok()) violation("C01,C19", "corrupt-content", "content bytes of type %d damaged", N);
        return x.get();
    }
    static int live(const type&) { return 1; }
    static long dflt() { return 0; }
    static const void* addr(const type& x) { return std::addressof(x); }
};
template <> struct Ad<int> {
    typedef int type;
    enum { wrapped = 0, copyable = 1, nmove = 0, moves = 0, ndc = 1, tracked = 0, tid = -1, loose_move = 0, self_contained = 1 };
    static int make(long v) { return (int)v; }
    static long val(const int& x) { return x; }
    static int live(const int&) { return 0; }
    static long dflt() { return 0; }
};
template <> struct Ad<char> {
    typedef char type;
    enum { wrapped = 0, copyable = 1, nmove = 0, moves = 0, ndc = 1, tracked = 0, tid = -1, loose_move = 0, self_contained = 1 };
    static char make(long v) { return (char)(v % 100); }
    static long val(const char& x) { return x; }
    static int live(const char&) { return 0; }
    static long dflt() { return 0; }
};
template <> struct Ad<boost::blank> {
    typedef boost::blank type;
    enum { wrapped = 0, copyable = 1, nmove = 0, moves = 0, ndc = 1, tracked = 0, tid = -2, loose_move = 0, self_contained = 1 };
    static type make(long) { return type(); }
    static long val(const type&) { return 0; }
    static int live(const type&) { return 0; }
    static long dflt() { return 0; }
};
#ifndef VERIF_NOSTREAM
template <> struct Ad<std::string> {
    typedef std::string type;
    enum { wrapped = 0, copyable = 1, nmove = 1, moves = 1, ndc = 1, tracked = 0, tid = -3, loose_move = 1, self_contained = 0 };
    static type make(long v) { char b[64]; snprintf(b, sizeof b, v % 2 ? "%ld" : "%ld#a-string-too-long-for-sso", v); return b; }
    static long val(const type& s) { return s.empty() ? (long)EMPTYV : std::strtol(s.c_str(), 0, 10); }
    static int live(const type&) { return 0; }
    static long dflt() { return EMPTYV; }
};
#endif
template <> struct Ad<std::vector<int> > {
    typedef std::vector<int> type;
    enum { wrapped = 0, copyable = 1, nmove = 1, moves = 1, ndc = 1, tracked = 0, tid = -4, loose_move = 1, self_contained = 0 };
    static type make(long v) { return type((std::size_t)(1 + v % 5), (int)v); }
    static long val(const type& s) { if (s.empty()) return EMPTYV; for (std::size_t i = 1; i < s.size(); ++i) if (s[i] != s[0]) return -99; return s[0]; }
    static int live(const type&) { return 0; }
    static long dflt() { return EMPTYV; }
};
// a vector of instrumented objects: content with inner objects
template <int N, int DF, int CP, int MV, int PAD> struct Ad<std::vector<T<N,DF,CP,MV,PAD> > > {
    typedef T<N,DF,CP,MV,PAD> E; typedef std::vector<E> type;
    enum { wrapped = 0, copyable = CP != 0, nmove = 1, moves = 1, ndc = 1, tracked = 0, tid = -5, loose_move = 1, self_contained = 0 };
    static type make(long v) { type r; r.reserve(3); for (int i = 0; i < 1 + v % 3; ++i) r.emplace_back(v); return r; }
    static long val(const type& s) { if (s.empty()) return EMPTYV; for (std::size_t i = 1; i < s.size(); ++i) if (!(s[i].get() == s[0].get())) return -99; return s[0].get(); }
    static int live(const type& s) { return (int)s.size(); }
    static long dflt() { return EMPTYV; }
};
template <class U> struct Ad<boost::recursive_wrapper<U> > {
    typedef U type;
    enum { wrapped = 1, copyable = Ad<U>::copyable, nmove = Ad<U>::nmove, moves = 1, ndc = 0, tracked = Ad<U>::tracked, tid = Ad<U>::tid, loose_move = 1, self_contained = 0 };
    static U make(long v) { return Ad<U>::make(v); }
    static long val(const U& x) { return Ad<U>::val(x); }
    static int live(const U& x) { return Ad<U>::live(x); }
    static long dflt() { return Ad<U>::dflt(); }
};
// nested variants: value encodes inner type
struct InnerVal : boost::static_visitor<long> { template <class U> long operator()(const U& x) const { return Ad<U>::val(x); } };
struct InnerLive : boost::static_visitor<int> { template <class U> int operator()(const U& x) const { return Ad<U>::live(x); } };
template <class A, class B> struct Ad<boost::variant<A, B> > {
    typedef boost::variant<A, B> type;
    enum { wrapped = 0, copyable = Ad<A>::copyable && Ad<B>::copyable, nmove = 0, moves = 1,
           ndc = std::is_nothrow_default_constructible<A>::value, tracked = 0, tid = -6, loose_move = 1, self_contained = 0 };
    static type make(long v) { if (v % 2) return type(Ad<A>::make(v)); return type(Ad<B>::make(v)); }
    static long val(const type& x) { InnerVal w; return boost::apply_visitor(w, x); }
    static int live(const type& x) { InnerLive w; return boost::apply_visitor(w, x); }
    static long dflt() { return Ad<A>::dflt(); }
};

// ---------------------------------------------------------------- type list helpers
template <class... Ts> struct List { enum { size = sizeof...(Ts) }; };
template <int I, class... Ts> struct Nth;
template <class A, class... R> struct Nth<0, A, R...> { typedef A type; };
template <int I, class A, class... R> struct Nth<I, A, R...> { typedef typename Nth<I - 1, R...>::type type; };
template <class... Ts> struct AllCopyable { enum { value = 1 }; };
template <class A, class... R> struct AllCopyable<A, R...> { enum { value = Ad<A>::copyable && AllCopyable<R...>::value }; };
// index of the documented fallback type, -1 if none
template <int I, class... Ts> struct BlankIdx { enum { value = -1 }; };
template <int I, class A, class... R> struct BlankIdx<I, A, R...> { enum { value = Ad<A>::tid == -2 ? I : BlankIdx<I + 1, R...>::value }; };
template <int I, class... Ts> struct NdcIdx { enum { value = -1 }; };
template <int I, class A, class... R> struct NdcIdx<I, A, R...> { enum { value = Ad<A>::ndc ? I : NdcIdx<I + 1, R...>::value }; };

enum Kind {
    K_DEF, K_TC, K_TL, K_TR, K_COPY, K_COPYNC, K_MOVE, K_ACOPY, K_AMOVE, K_ATC, K_ATL, K_ATR, K_SWAP, K_FSWAP, K_OWN, K_OWNMOVE,
    K_FORC, K_FORM, K_AFORC, K_AFORM, K_DTOR, K_CMP, K_LESS, K_HASH, K_VISIT, K_VISITNC, K_STREAM, K_GETR, K_OWNPART, K_N
};
inline const char* kname(int k) {
    static const char* n[] = { "default-construct", "construct(const T&)", "construct(T&)", "construct(T&&)", "copy-construct", "copy-construct(nonconst)",
        "move-construct", "copy-assign", "move-assign", "assign(const T&)", "assign(T&)", "assign(T&&)", "swap", "free-swap", "assign-own-content",
        "move-own-content", "construct-foreign-copy", "construct-foreign-move", "assign-foreign-copy", "assign-foreign-move", "destroy",
        "equal", "less", "hash", "visit-const", "visit", "stream", "get-rvalue", "assign-part-of-content" };
    return n[k];
}
struct Op { int kind, a, b, t; long v; long fault; int late; };
struct M { bool alive; int which; long val; bool taint; };
enum Outcome { OK, THREW, OTHER };

struct Addr : boost::static_visitor<const void*> {
    template <class U> const void* operator()(const U& x) const { return (const void*)&reinterpret_cast<const char&>(x); }
};
template <class V> struct ThrowVisitor : boost::static_visitor<long> {
    mutable int calls; ThrowVisitor() : calls(0) {}
    template <class U> long operator()(U& x) const { ++calls; point(); return 1 + (long)(sizeof(x) & 0); }
};

template <class Foreign, class... Ts> struct Engine {
    typedef boost::variant<Ts...> V;
    enum { m = sizeof...(Ts), copyable = AllCopyable<Ts...>::value, NS = 4,
           fb = (int)BlankIdx<0, Ts...>::value >= 0 ? (int)BlankIdx<0, Ts...>::value : (int)NdcIdx<0, Ts...>::value };
    enum { has_foreign = !std::is_same<Foreign, void>::value };
    typedef typename Nth<0, Ts...>::type T0;
    V* slot[NS]; M mod[NS]; void* mem[NS];
    long nextv;
    std::vector<Op> trace;
    const char* lname;

    // --- runtime type dispatch
    template <class F> struct Disp {
        template <int I> static typename std::enable_if<(I < (int)m)>::type go(int t, F& f) {
            if (t == I) { typedef typename Nth<I, Ts...>::type X; f.template call<X, I>(); } else go<I + 1>(t, f);
        }
        template <int I> static typename std::enable_if<(I >= (int)m)>::type go(int, F&) {}
    };
    template <class F> static void with_type(int t, F& f) { Disp<F>::template go<0>(t, f); }
    template <class F> static void all_types(F& f) { for (int t = 0; t < (int)m; ++t) Disp<F>::template go<0>(t, f); }

    struct FDflt { long v; template <class X, int I> void call() { v = Ad<X>::dflt(); } };
    static long dflt_of(int t) { FDflt f; f.v = 0; with_type(t, f); return f.v; }
    struct FNorm { long in, v; template <class X, int I> void call() { Outside o; v = Ad<X>::val(Ad<X>::make(in)); } };
    static long norm(int t, long v) { FNorm f; f.in = v; f.v = 0; with_type(t, f); return f.v; }
    template <class X, class Z = void> struct Inner { enum { moves = Ad<X>::moves }; };
    template <class X, class Z> struct Inner<boost::recursive_wrapper<X>, Z> { enum { moves = Ad<X>::moves }; };
    struct FFlags { bool tracked, wrapped, nmove, loose, moves, ncopy, imoves; template <class X, int I> void call() {
        tracked = Ad<X>::tracked; wrapped = Ad<X>::wrapped; nmove = Ad<X>::nmove; loose = Ad<X>::loose_move; moves = Ad<X>::moves; ncopy = std::is_nothrow_copy_constructible<X>::value; imoves = Inner<X>::moves; } };
    static FFlags flags(int t) { FFlags f = { false, false, false, false, false, false, false }; with_type(t, f); return f; }
    struct FCopiesOfNmove { long n; bool w; template <class X, int I> void call() { if (Ad<X>::tracked && Ad<X>::nmove && (w || !Ad<X>::wrapped)) n += type_copies()[Ad<X>::tid & 511]; } };
    struct FTid { int tid; template <class X, int I> void call() { tid = Ad<X>::tid; } };
    static int tid_of(int t) { FTid f; f.tid = 0; with_type(t, f); return f.tid; }
    long ident(int i) { Addr av; const void* a = boost::apply_visitor(av, *slot[i]); Registry& g = reg(); int k = g.lower(a); return k < g.n && g.r[k].addr == a ? g.r[k].id : -1; }   // which object a slot holds
    static long nmove_copies(bool wrapped) { FCopiesOfNmove f; f.n = 0; f.w = wrapped; all_types(f); return f.n; }

    Engine(const char* n) : nextv(10), lname(n) {
        for (int i = 0; i < NS; ++i) {
            mod[i].alive = false; mod[i].which = -1; mod[i].val = 0; mod[i].taint = false; slot[i] = 0; mem[i] = 0; new_mem(i);
        }
    }
    void new_mem(int i) {
        std::free(mem[i]); mem[i] = 0;
        std::size_t al = alignof(V) < sizeof(void*) ? sizeof(void*) : alignof(V);
        if (posix_memalign(&mem[i], al, sizeof(V))) std::abort();
#ifndef VERIF_NOFILL
        std::memset(mem[i], 0xCD, sizeof(V));
#endif
        slot[i] = static_cast<V*>(mem[i]);
    }
    ~Engine() { for (int i = 0; i < NS; ++i) std::free(mem[i]); }

    // --- reading a slot: full agreement of all observers (C01), returns (which,val)
    struct FRead {
        V* v; int w; const void* addr; long val; int live; bool ok; bool wrapped;
        template <class X, int I> void call() {
            typedef typename Ad<X>::type U;
            const V& cv = *v;
            U* p = boost::get<U>(v); const U* cp = boost::get<U>(&cv);
            const U* rp = boost::relaxed_get<U>(&cv); const U* sp = boost::strict_get<U>(&cv);
            if (cp != p || rp != p || sp != p) { bad("get-forms-disagree", I); }
            if ((p != 0) != (I == w)) { bad("get-vs-which", I); return; }
            if (I == w) {
                if ((const void*)p != addr) bad("get-vs-visit-address", I);
                if (std::addressof(boost::get<U>(*v)) != p || std::addressof(boost::get<U>(cv)) != p) bad("get-reference", I);
                if (!(cv.type() == boost::typeindex::type_id<U>())) bad("type", I);
                val = Ad<X>::val(*p); live = Ad<X>::live(*p); wrapped = Ad<X>::wrapped;
            }
        }
        void bad(const char* k, int i) { ok = false; violation("C01,C07", k, "which()=%d, asked type %d", w, i); }
    };
    bool read(int i, int& w, long& val, int& live, const void*& addr, bool& wrapped) {
        V* v = slot[i]; const V& cv = *v;
        w = cv.which();
        if (w < 0 || w >= (int)m) { violation("C01", "which-range", "which()=%d of %d types", w, (int)m); return false; }
        if (cv.empty()) violation("C01", "empty", "empty() is true");
        Addr av;
        FRead f; f.v = v; f.w = w; f.val = 0; f.live = 0; f.ok = true; f.wrapped = false;
        f.addr = boost::apply_visitor(av, cv);
        if (boost::apply_visitor(av, *v) != f.addr) violation("C01,C09", "visit-const-vs-nonconst", "different content address");
        all_types(f);
        val = f.val; live = f.live; addr = f.addr; wrapped = f.wrapped;
        return f.ok && !case_bad();
    }
    bool outside(int i, const void* addr) const {
        std::uintptr_t a = (std::uintptr_t)addr, b = (std::uintptr_t)slot[i];
        return a < b || a >= b + sizeof(V);
    }

    // --- executing an operation on the real objects
    struct FSrc {          // operations that take a value of a bounded type
        Engine* e; const Op* op; Outcome oc; long src_after; bool src_valid;
        template <class X, int I> void call() { run<X>(std::integral_constant<bool, Ad<X>::copyable != 0 && Engine::copyable != 0>()); }
        template <class X> void run(std::true_type) {
            typedef typename Ad<X>::type U;
            U src(Ad<X>::make(op->v)); const U& csrc = src; V* s = e->slot[op->a];
            e->begin(*op);
            oc = OK;
            try {
                Inside in;
                switch (op->kind) {
                case K_TC: new (s) V(csrc); break;
                case K_TL: new (s) V(src); break;
                case K_TR: new (s) V(std::move(src)); break;
                case K_ATC: { V& r = (*s = csrc); if (&r != s) violation("C04", "assign-returns", "operator= does not return *this"); break; }
                case K_ATL: *s = src; break;
                case K_ATR: { V& r = (*s = std::move(src)); if (&r != s) violation("C04", "assign-returns", "operator= does not return *this"); break; }
                }
            } catch (...) { oc = e->caught(); }
            disarm();
            src_after = Ad<X>::val(src);
        }
        template <class X> void run(std::false_type) {
            typedef typename Ad<X>::type U;
            U src(Ad<X>::make(op->v)); V* s = e->slot[op->a];
            e->begin(*op);
            oc = OK;
            try {
                Inside in;
                if (op->kind <= K_TR) new (s) V(std::move(src)); else *s = std::move(src);
            } catch (...) { oc = e->caught(); }
            disarm();
            src_after = Ad<X>::val(src);
        }
    };
    struct FOwn {
        Engine* e; const Op* op; Outcome oc;
        template <class X, int I> void call() { run<X>(std::integral_constant<bool, Engine::copyable != 0>()); }
        template <class X> void run(std::true_type) {
            typedef typename Ad<X>::type U; V* s = e->slot[op->a];
            e->begin(*op);
            try { Inside in; if (op->kind == K_OWN) *s = boost::get<U>(static_cast<const V&>(*s)); else *s = std::move(boost::get<U>(*s)); } catch (...) { oc = e->caught(); }
            disarm();
        }
        template <class X> void run(std::false_type) {
            typedef typename Ad<X>::type U; V* s = e->slot[op->a];
            e->begin(*op);
            try { Inside in; *s = std::move(boost::get<U>(*s)); } catch (...) { oc = e->caught(); }
            disarm();
        }
    };
    struct FGetR {          // U x = get<U>(std::move(v))
        Engine* e; const Op* op; Outcome oc; long got;
        template <class X, int I> void call() {
            typedef typename Ad<X>::type U; V* s = e->slot[op->a];
            e->begin(*op);
            try { Inside in; U x(boost::get<U>(std::move(*s))); Outside o; got = Ad<X>::val(x); } catch (...) { oc = e->caught(); }
            disarm();
        }
    };
    void begin(const Op& op) { for (int i = 0; i < 512; ++i) type_copies()[i] = type_births()[i] = 0; arm(op.fault, op.late); }
    Outcome caught() {
        disarm();
        bool sticky = fault().fired && fault().late == 2;   // several points may have thrown: any of those exceptions may arrive
        try { throw; }
        catch (const Injected& i) { if (sticky) return THREW; if (fault().fired && !fault().was_alloc && i.serial == fault().serial) return THREW; return OTHER; }
        catch (const std::bad_alloc&) { return sticky || (fault().fired && fault().was_alloc) ? THREW : OTHER; }
        catch (...) { return OTHER; }
    }
    Outcome exec_def(const Op& op, std::true_type) {
        Outcome oc = OK; begin(op);
        try { Inside in; new (slot[op.a]) V(); } catch (...) { oc = caught(); }
        disarm(); return oc;
    }
    Outcome exec_def(const Op&, std::false_type) { return OK; }
    Outcome exec_copy(const Op& op, std::true_type) {
        Outcome oc = OK; V* a = slot[op.a]; V* b = slot[op.b]; const V& cb = *b; begin(op);
        try {
            Inside in;
            switch (op.kind) {
            case K_COPY: new (a) V(cb); break;
            case K_COPYNC: new (a) V(*b); break;
            case K_ACOPY: { V& r = (*a = cb); if (&r != a) violation("C04", "assign-returns", "operator= does not return *this"); break; }
            }
        } catch (...) { oc = caught(); }
        disarm(); return oc;
    }
    Outcome exec_copy(const Op&, std::false_type) { return OK; }
    // foreign: build a Foreign variant holding the value (type t of *this* list), then convert
    struct FFor {
        Engine* e; const Op* op; Outcome oc; long src_after; int src_which_changed;
        template <class X, int I> void call() { run<X>(std::integral_constant<bool, Engine::has_foreign != 0>()); }
        template <class X> void run(std::false_type) {}
        template <class X> void run(std::true_type) {
            typedef typename Ad<X>::type U;
            Foreign f(Ad<X>::make(op->v)); const Foreign& cf = f; int w0 = f.which(); V* a = e->slot[op->a];
            e->begin(*op);
            try {
                Inside in;
                switch (op->kind) {
                case K_FORC: new (a) V(cf); break;
                case K_FORM: new (a) V(std::move(f)); break;
                case K_AFORC: *a = cf; break;
                case K_AFORM: *a = std::move(f); break;
                }
            } catch (...) { oc = e->caught(); }
            disarm();
            src_which_changed = f.which() != w0;
            U* p = boost::get<U>(&f);
            src_after = p ? Ad<X>::val(*p) : -1;
        }
    };

    // --- one step: execute, compare with the model, adopt. false: violation
    bool step(const Op& op0) {
        Op op = op0;
        M before[NS]; std::memcpy(before, mod, sizeof mod);
        trace.push_back(op);
        add_case(" %s(a=%d b=%d t=%d v=%ld fault=%ld%s);", kname(op.kind), op.a, op.b, op.t, op.v, op.fault, op.late == 2 ? "S" : op.late ? "L" : "");
        count("ops");
        bool ctor = op.kind <= K_MOVE || op.kind == K_FORC || op.kind == K_FORM;
        if (ctor && mod[op.a].alive) { destroy(op.a); before[op.a] = mod[op.a]; }
        if (ctor) {
#ifndef VERIF_NOFILL
            std::memset(mem[op.a], 0xCD, sizeof(V));
#endif
        }
        M& A = mod[op.a]; M& B = mod[op.b]; const M oA = A, oB = B;
        Outcome oc = OK; bool moveop = false; long got = 0; long cmpres = -1;
        {   // what a broken observation during this operation says about which property
            bool mv = op.kind == K_TR || op.kind == K_MOVE || op.kind == K_AMOVE || op.kind == K_ATR || op.kind == K_SWAP || op.kind == K_FSWAP || op.kind == K_FORM || op.kind == K_AFORM || op.kind == K_GETR || op.kind == K_OWNMOVE;
            bool cpy = op.kind == K_TC || op.kind == K_TL || op.kind == K_COPY || op.kind == K_COPYNC || op.kind == K_ACOPY || op.kind == K_ATC || op.kind == K_ATL || op.kind == K_FORC || op.kind == K_AFORC || op.kind == K_OWN || op.kind == K_SWAP || op.kind == K_FSWAP;
            bool t = (mod[op.a].alive && mod[op.a].taint) || (op.b != op.a && mod[op.b].alive && mod[op.b].taint);
            ctx_cats() = ""; if (cpy) ctx_cats() += ",C04"; if (mv) ctx_cats() += ",C05"; if (t) ctx_cats() += ",C02";
        }
        long src_after = op.v; bool have_src = false; bool src_rvalue = false; bool bothout = false;
        if (op.kind == K_AMOVE && oA.alive && oB.alive && oA.taint && oB.taint && oA.which == oB.which && op.a != op.b) { Addr av; bothout = outside(op.a, boost::apply_visitor(av, *slot[op.a])) && outside(op.b, boost::apply_visitor(av, *slot[op.b])); }
        bool inplace = false; long id0 = 0;     // assignment of the type already held: the content itself is assigned
        if (op.kind == K_ACOPY || op.kind == K_AMOVE || op.kind == K_ATC || op.kind == K_ATL || op.kind == K_ATR || op.kind == K_OWN || op.kind == K_OWNMOVE) {
            bool fromv = op.kind == K_ACOPY || op.kind == K_AMOVE; int rt = fromv ? oB.which : op.kind == K_OWN || op.kind == K_OWNMOVE ? oA.which : op.t;
            if (oA.alive && !oA.taint && rt == oA.which && !(fromv && oB.taint)) { FFlags fl = flags(rt); if (fl.tracked && !(fl.wrapped && op.kind == K_AMOVE)) { inplace = true; id0 = ident(op.a); } }
        }
        switch (op.kind) {
        case K_DEF: oc = exec_def(op, std::integral_constant<bool, std::is_default_constructible<typename Ad<T0>::type>::value>()); break;
        case K_TC: case K_TL: case K_TR: case K_ATC: case K_ATL: case K_ATR: {
            FSrc f; f.e = this; f.op = &op; f.oc = OK; f.src_after = 0; with_type(op.t, f); oc = f.oc; src_after = f.src_after; have_src = true;
            src_rvalue = op.kind == K_TR || op.kind == K_ATR || !copyable; moveop = src_rvalue; break; }
        case K_COPY: case K_COPYNC: case K_ACOPY: oc = exec_copy(op, std::integral_constant<bool, copyable != 0>()); break;
        case K_MOVE: begin(op); try { Inside in; new (slot[op.a]) V(std::move(*slot[op.b])); } catch (...) { oc = caught(); } disarm(); moveop = true; break;
        case K_AMOVE: begin(op); try { Inside in; V& r = (*slot[op.a] = std::move(*slot[op.b])); if (&r != slot[op.a]) violation("C05", "assign-returns", "operator= does not return *this"); }
            catch (...) { oc = caught(); } disarm(); moveop = true; break;
        case K_SWAP: begin(op); try { Inside in; slot[op.a]->swap(*slot[op.b]); } catch (...) { oc = caught(); } disarm(); moveop = true; break;
        case K_FSWAP: begin(op); try { Inside in; swap(*slot[op.a], *slot[op.b]); } catch (...) { oc = caught(); } disarm(); moveop = true; break;
        case K_OWN: case K_OWNMOVE: { FOwn f; f.e = this; f.op = &op; f.oc = OK; with_type(A.which, f); oc = f.oc; break; }
        case K_GETR: { FGetR f; f.e = this; f.op = &op; f.oc = OK; f.got = 0; with_type(A.which, f); oc = f.oc; got = f.got; moveop = true; break; }
        case K_FORC: case K_FORM: case K_AFORC: case K_AFORM: {
            FFor f; f.e = this; f.op = &op; f.oc = OK; f.src_after = op.v; f.src_which_changed = 0; with_type(op.t, f); oc = f.oc; src_after = f.src_after; have_src = true;
            src_rvalue = op.kind == K_FORM || op.kind == K_AFORM; moveop = src_rvalue;
            if (f.src_which_changed) violation(src_rvalue ? "C05,C06" : "C04,C06", "foreign-source-retyped", "which() of the foreign source changed");
            break; }
        case K_DTOR: destroy(op.a); return !case_bad();
        case K_CMP: case K_LESS: case K_HASH: case K_VISIT: case K_VISITNC: case K_STREAM: oc = observe(op, cmpres); break;
        default: return true;
        }
        bool fired = fault().fired && op.fault > 0; fault().fired = false;
        if (fired) { count("faults"); }
        if (oc == OTHER) { violation("C16,C01,C02", "exception-changed", "%s threw something other than the injected exception", kname(op.kind)); return false; }
        if (fired && oc == OK) { violation("C16,C02", "exception-swallowed", "%s completed although a content operation threw", kname(op.kind)); return false; }
        // (moving a wrapper allocates, so it may throw, and assignment between different types may have to copy it)
        bool same_type = op.kind == K_GETR || ((op.kind == K_ATR || op.kind == K_AFORM) ? oA.which == op.t : oA.which == oB.which) && !oA.taint && !(oB.alive && oB.taint);
        if (moveop && oc == OK && nmove_copies(ctor || same_type)) violation("C05", "copied-on-move", "%s copied a nothrow-movable content", kname(op.kind));
        if (inplace) {
            count("in_place"); long b = type_births()[tid_of(oA.which) & 511], id1 = ident(op.a);
            if (b) { violation("C04", "assign-constructs", "%s of the type already held constructed %ld objects instead of assigning the content", kname(op.kind), b); return false; }
            if (id1 != id0) { violation("C04", "assign-replaces", "%s of the type already held replaced the content object instead of assigning to it", kname(op.kind)); return false; }
        }
        // --- what the model allows: candidate (which,val) sets
        // target
        struct Cand { int w; long v; bool any; } cand[8]; int nc = 0;
#define CAND(W, VV) do { cand[nc].w = (W); cand[nc].v = (VV); cand[nc].any = false; ++nc; } while (0)
#define CANDANY(W) do { cand[nc].w = (W); cand[nc].v = 0; cand[nc].any = true; ++nc; } while (0)
        const char* cat = "C04,C01"; const char* key = "target-value";
        bool target = false;
        bool isassign = false;
        int rw = -1; long rv = 0;           // value the target gets on success
        switch (op.kind) {
        case K_DEF: rw = 0; rv = dflt_of(0); target = true; cat = "C01"; key = "default-value"; break;
        case K_TC: case K_TL: case K_TR: rw = op.t; rv = norm(op.t, op.v); target = true; cat = moveop ? "C05,C01" : "C04,C01"; break;
        case K_FORC: case K_FORM: rw = op.t; rv = norm(op.t, op.v); target = true; cat = moveop ? "C05,C06" : "C04,C06"; break;
        case K_COPY: case K_COPYNC: case K_MOVE: rw = oB.which; rv = oB.val; target = true; cat = moveop ? "C05,C01" : "C04,C01"; break;
        case K_ACOPY: case K_AMOVE: rw = oB.which; rv = oB.val; target = isassign = true; cat = moveop ? "C05,C01" : "C04,C01"; break;
        case K_ATC: case K_ATL: case K_ATR: rw = op.t; rv = norm(op.t, op.v); target = isassign = true; cat = moveop ? "C05,C01" : "C04,C01"; break;
        case K_AFORC: case K_AFORM: rw = op.t; rv = norm(op.t, op.v); target = isassign = true; cat = moveop ? "C05,C06" : "C04,C06"; break;
        case K_OWN: rw = oA.which; rv = oA.val; target = isassign = true; break;
        case K_OWNMOVE: rw = oA.which; rv = oA.val; target = isassign = true; cat = "C05"; break;
        }
        if (target && !isassign) {
            if (oc == OK) { A.alive = true; A.which = rw; A.val = rv; A.taint = false; CAND(rw, rv); if (op.kind == K_MOVE && 0) CANDANY(rw); }
            else { A.alive = false; }
        } else if (target) {
            if (oc == OK) {
                if (op.kind == K_OWNMOVE || (op.kind == K_AMOVE && op.a == op.b)) {
                    // self-move of a content is up to its type; instrumented types keep their value
                    if (flags(rw).loose) CANDANY(rw); else CAND(rw, rv);
                } else CAND(rw, rv);
                A.taint = A.taint && rw == oA.which;
            } else {
                cat = "C02"; key = "after-failed-assignment";
                CAND(oA.which, oA.val);
                bool loose_self = flags(oA.which).loose;
                if (oA.which == rw) { CAND(rw, rv); if (loose_self || moveop) CANDANY(rw); }
                if (fb >= 0) CAND(fb, dflt_of(fb));
                A.taint = true;
            }
        }
        // swap
        if (op.kind == K_SWAP || op.kind == K_FSWAP) {
            if (oc == OK) {
                cat = "C04,C01"; key = "swap-value";
                if (op.a != op.b) {
                    bool t0 = oA.taint, t1 = oB.taint; A = oB; B = oA; A.taint = t0 || t1; B.taint = t0 || t1;
                    if (!(check(op.b, B.which, B.val, cat, key))) return false;
                    if (oA.which != oB.which) { A.taint = B.taint = t0 || t1; }
                }
                CAND(A.which, A.val);
            } else {
                cat = "C01"; key = "after-failed-swap";
                CANDANY(oA.which); CANDANY(oB.which); if (fb >= 0) CAND(fb, dflt_of(fb));
                A.taint = true;
                if (op.a != op.b) {
                    B.taint = true;
                    if (!adopt(op.b, oA.which, oB.which, cat, key)) return false;
                }
            }
        }
        if (op.kind == K_GETR) {
            cat = "C05,C07"; key = "get-rvalue-source";
            if (oc == OK && got != oA.val) violation("C05,C07", "get-rvalue", "got %ld, content was %ld", got, oA.val);
            CAND(oA.which, oA.val);
            if (flags(oA.which).moves) { if (flags(oA.which).loose) CANDANY(oA.which); else CAND(oA.which, (long)MOVED); }
        }
        // source variant
        bool has_src_variant = op.kind == K_COPY || op.kind == K_COPYNC || op.kind == K_MOVE || op.kind == K_ACOPY || op.kind == K_AMOVE;
        if (has_src_variant && op.a != op.b) {
            if (!moveop) {
                if (!check(op.b, oB.which, oB.val, oc == OK ? "C04" : "C04,C02", "copy-source-changed")) return false;
            } else {
                // same type; value moved-from or (if the content had to be copied) unchanged
                int w; long v; int live; const void* ad; bool wr;
                if (!read(op.b, w, v, live, ad, wr)) { if (!case_bad()) violation("C01,C05", "move-source-unreadable", "-"); return false; }
                FFlags fl = flags(oB.which);
                bool okv = v == oB.val || (fl.moves && (fl.loose || v == (long)MOVED));
                if (w != oB.which) { violation("C05,C01", "move-source-retyped", "source held type %d, now %d", oB.which, w); return false; }
                if (!okv) { violation("C05", "move-source-value", "source value %ld, was %ld", v, oB.val); return false; }
                bool must = (fl.nmove && !fl.wrapped) || op.kind == K_MOVE || (fb >= 0 && !fl.ncopy) || bothout || (oA.which == oB.which && !oA.taint && !oB.taint);   // else the content may have to be copied
                if (oc == OK && must && fl.tracked && fl.imoves && v == oB.val && oB.val != (long)MOVED && !(fl.wrapped && oA.alive && oA.val == oB.val)) { violation("C05", "not-moved", "%s did not move the content", kname(op.kind)); return false; }
                B.val = v;
            }
        }
        if (have_src) {
            long want = norm(op.t, op.v);
            FFlags fl = flags(op.t);
            bool ok = src_after == want || (src_rvalue && fl.moves && (fl.loose || src_after == (long)MOVED));
            if (!ok) { violation(src_rvalue ? "C05" : oc == OK ? "C04" : "C04,C02", "source-value", "source value is %ld after the operation, was %ld", src_after, want); return false; }
            bool must = fl.nmove || ctor || (fb >= 0 && !fl.ncopy) || (oA.which == op.t && !oA.taint);
            if (src_rvalue && oc == OK && must && fl.imoves && fl.tracked && src_after != (long)MOVED) { violation("C05", "not-moved", "%s did not move its rvalue operand", kname(op.kind)); return false; }
        }
        // observers must not change anything and give the model's answer
        if (op.kind >= K_CMP && op.kind <= K_STREAM) {
            if (oc == OK && cmpres >= 0) {
                if (op.kind == K_CMP) { bool want = oA.which == oB.which && oA.val == oB.val; if ((cmpres != 0) != want) violation("C11", "equal", "%ld, expected %d", cmpres, (int)want); }
                if (op.kind == K_LESS) { bool want = oA.which < oB.which || (oA.which == oB.which && lessv(oA.which, oA.val, oB.val)); if ((cmpres != 0) != want) violation("C11", "less", "%ld, expected %d", cmpres, (int)want); }
            }
            CAND(oA.which, oA.val); cat = "C04"; key = "observer-changed-operand";
        }
        if (A.alive && nc) {
            int w; long v; int live; const void* ad; bool wr;
            if (!read(op.a, w, v, live, ad, wr)) { if (!case_bad()) violation("C01", "unreadable", "-"); return false; }
            bool hitc = false;
            for (int i = 0; i < nc; ++i) if (cand[i].w == w && (cand[i].any || cand[i].v == v)) hitc = true;
            if (!hitc) {
                violation(cat, key, "%s%s: now type %d value %ld; expected type %d value %ld; before type %d value %ld", kname(op.kind), oc == OK ? "" : " (failed)", w, v, cand[0].w, cand[0].v, oA.alive ? oA.which : -1, oA.val);
                return false;
            }
            A.which = w; A.val = v;
            if (outside(op.a, ad)) {
                if (!wr) { count("content_in_backup"); if (!A.taint) { violation("C15", "content-outside", "%s left the content outside the variant", kname(op.kind)); return false; } }
            } else if (wr) { violation("C14", "wrapped-inside", "wrapped content inside the variant"); }
            if (oc != OK) { count("failed_assignments"); if (w == fb && w != oA.which) count("fallback_taken"); }
            digest().add(w); digest().add(v);
        }
        digest().add(op.kind); digest().add(oc);
        // everything else unchanged, and exactly the expected objects alive
        int live_total = 0;
        for (int i = 0; i < NS; ++i) if (mod[i].alive) {
            int w; long v; int live; const void* ad; bool wr;
            if (i != op.a && i != op.b) {
                if (!check(i, before[i].which, before[i].val, "C04", "bystander-changed")) return false;
            }
            if (!read(i, w, v, live, ad, wr)) return false;
            live_total += live;
        }
        if (reg().n != live_total) { violation("C03", reg().n > live_total ? "leaked-object" : "missing-object", "%d content objects alive, %d expected after %s", reg().n, live_total, kname(op.kind)); return false; }
        std::uint64_t k = (std::uint64_t)op.kind; k = k * 131 + (std::uint64_t)(oA.alive ? oA.which + 1 : 0); k = k * 131 + (std::uint64_t)(oB.alive ? oB.which + 1 : 0);
        k = k * 131 + (std::uint64_t)op.t; k = k * 7 + (oA.taint ? 1 : 0) + (oB.taint ? 2 : 0); k = k * 31 + (std::uint64_t)(oc == OK ? 0 : op.fault); k = k * 3 + (op.a == op.b);
        distinct().add(k);
        return !case_bad();
    }
    struct FLess { long a, b; bool r; template <class X, int I> void call() { Outside o; r = lt(Ad<X>::make(a), Ad<X>::make(b), 0); }
        template <class U> static bool lt(const U& x, const U& y, ...) { return x < y; } };
    static bool lessv(int t, long a, long b) {
        FFlags f = flags(t); if (f.tracked) return a < b;
        FLess l; l.a = a; l.b = b; l.r = false; with_type(t, l); return l.r;
    }
    bool check(int i, int w0, long v0, const char* cat, const char* key) {
        int w; long v; int live; const void* ad; bool wr;
        if (!read(i, w, v, live, ad, wr)) return false;
        if (w != w0 || v != v0) { violation(cat, key, "slot %d: type %d value %ld, expected type %d value %ld", i, w, v, w0, v0); return false; }
        return true;
    }
    bool adopt(int i, int w1, int w2, const char* cat, const char* key) {
        int w; long v; int live; const void* ad; bool wr;
        if (!read(i, w, v, live, ad, wr)) { if (!case_bad()) violation(cat, key, "unreadable"); return false; }
        if (w != w1 && w != w2 && w != (int)fb) { violation(cat, key, "slot %d holds type %d", i, w); return false; }
        mod[i].which = w; mod[i].val = v; return true;
    }
    Outcome observe(const Op& op, long& res) { return observe_impl(op, res, std::integral_constant<bool, copyable != 0>()); }
    Outcome observe_impl(const Op& op, long& res, std::true_type) {
        Outcome oc = OK; const V& a = *slot[op.a]; const V& b = *slot[op.b]; begin(op); fault().allocs = false;
        try {
            Inside in;
            switch (op.kind) {
            case K_CMP: res = a == b; break;
            case K_LESS: res = a < b; break;
            case K_HASH: { std::size_t h = boost::hash<V>()(a); if (oc == OK && op.fault == 0 && h != boost::hash<V>()(a)) violation("C12", "hash-unstable", "-"); break; }
            case K_VISIT: { ThrowVisitor<V> w; boost::apply_visitor(w, a); if (w.calls != 1) violation("C09", "calls", "visitor called %d times", w.calls); break; }
            case K_VISITNC: { ThrowVisitor<V> w; boost::apply_visitor(w, *slot[op.a]); if (w.calls != 1) violation("C09", "calls", "visitor called %d times", w.calls); break; }
#ifndef VERIF_NOSTREAM
            case K_STREAM: stream(op, a); break;
#endif
            }
        } catch (...) { oc = caught(); }
        disarm(); fault().allocs = true; return oc;
    }
    Outcome observe_impl(const Op& op, long& res, std::false_type) {
        Outcome oc = OK; const V& a = *slot[op.a]; const V& b = *slot[op.b]; begin(op); fault().allocs = false;
        try {
            Inside in;
            switch (op.kind) {
            case K_CMP: res = a == b; break;
            case K_LESS: res = a < b; break;
            case K_VISIT: case K_VISITNC: { ThrowVisitor<V> w; boost::apply_visitor(w, a); if (w.calls != 1) violation("C09", "calls", "visitor called %d times", w.calls); break; }
            }
        } catch (...) { oc = caught(); }
        disarm(); fault().allocs = true; return oc;
    }
#ifndef VERIF_NOSTREAM
    struct FStr { const V* v; std::string s; template <class X, int I> void call() { str<X>(std::integral_constant<bool, Streamable<X>::value>()); }
        template <class X> void str(std::true_type) { std::ostringstream o; o << boost::get<typename Ad<X>::type>(*v); s = o.str(); }
        template <class X> void str(std::false_type) {} };
    template <class X> struct Streamable { enum { value = 1 }; };
    void stream(const Op& op, const V& a) { stream_impl(op, a, std::integral_constant<bool, streamable>()); }
    void stream_impl(const Op&, const V&, std::false_type) {}
    void stream_impl(const Op& op, const V& a, std::true_type) {
        std::string got;
        { Outside o; }
        std::ostringstream os;
        os << a;
        if (op.fault == 0) {
            Outside o; FStr f; f.v = &a; with_type(a.which(), f);
            if (os.str() != f.s) violation("C13", "stream-text", "'%s' instead of '%s'", os.str().c_str(), f.s.c_str());
        }
    }
#endif
    static const bool streamable = std::is_same<typename std::conditional<true, void, V>::type, int>::value; // streaming is covered by its own driver

    void destroy(int i) {
        if (!mod[i].alive) return;
        int n0 = reg().n; int w; long v; int live = 0; const void* ad; bool wr;
        bool okr = read(i, w, v, live, ad, wr);
        { Inside in; slot[i]->~V(); }
        mod[i].alive = false;
        if (okr && reg().n != n0 - live) violation("C03", "destroy-count", "destroying one variant changed the number of live contents by %d, expected %d", reg().n - n0, -live);
        new_mem(i);
    }
    void reset(bool final_check) {
        bool bad = case_bad();
        if (bad) { // state may be corrupt: abandon it
            for (int i = 0; i < NS; ++i) { mod[i].alive = false; mem[i] = 0; new_mem(i); }
        } else {
            for (int i = 0; i < NS; ++i) destroy(i);
            if (final_check && !case_bad()) {
                if (reg().n) violation("C03", "leak-at-end", "%d content objects alive after all variants are gone", reg().n);
                if (allocs().live) violation("C03", "memory-leak", "%ld blocks still allocated after all variants are gone", allocs().live);
            }
        }
        reg().clear(); allocs().clear();
        case_bad() = false; trace.clear(); nextv = 10; disarm(); fault().fired = false;
    }

    // ------------------------------------------------------------ systematic exploration
    struct State { int t; int j; long n; };   // type t; j>=0: survived a failed assignment from type j at fault n
    std::vector<State> states;
    Op mk(int k, int a, int b, int t, long f = 0, int late = 0) { Op o = { k, a, b, t, nextv++, f, late }; return o; }
    bool prep(int s, const State& st) {
        Op c = mk(K_TR, s, s, st.t);
        if (!step(c)) return false;
        if (st.j >= 0) {
            Op d = mk(K_TR, 3, 3, st.j);
            if (!step(d)) return false;
            Op e = mk(K_ACOPY, s, 3, 0, st.n);
            if (!step(e)) return false;
            destroy(3);
        }
        return !case_bad();
    }
    void find_states() {
        for (int t = 0; t < (int)m; ++t) { State s = { t, -1, 0 }; states.push_back(s); }
        if (!copyable) return;
        for (int t = 0; t < (int)m; ++t) {
            bool found = false;
            for (int j = 0; j < (int)m && !found; ++j) if (j != t) for (long n = 1; n <= 4 && !found; ++n) {
                set_case("%s: find backup state t=%d j=%d n=%ld:", lname, t, j, n);
                State s = { t, j, n };
                if (prep(0, s) && mod[0].alive && mod[0].which == t) {
                    int w; long v; int live; const void* ad; bool wr;
                    if (read(0, w, v, live, ad, wr) && !wr && outside(0, ad)) { states.push_back(s); found = true; count("backup_states"); }
                }
                reset(true);
            }
        }
    }
    std::vector<Op> menu() {     // operations between slots 0 and 1 and values of every type
        std::vector<Op> r;
        int pair_ops[] = { K_COPY, K_COPYNC, K_MOVE, K_ACOPY, K_AMOVE, K_SWAP, K_FSWAP };
        for (unsigned i = 0; i < sizeof pair_ops / sizeof *pair_ops; ++i) {
            int k = pair_ops[i];
            if (!copyable && (k == K_COPY || k == K_COPYNC || k == K_ACOPY)) continue;
            if (k <= K_MOVE) { r.push_back(mk(k, 2, 0, 0)); r.push_back(mk(k, 2, 1, 0)); }
            else { r.push_back(mk(k, 0, 1, 0)); r.push_back(mk(k, 1, 0, 0)); r.push_back(mk(k, 0, 0, 0)); }
        }
        for (int t = 0; t < (int)m; ++t) {
            if (copyable) { r.push_back(mk(K_ATC, 0, 0, t)); r.push_back(mk(K_ATL, 0, 0, t)); }
            r.push_back(mk(K_ATR, 0, 0, t));
            if (has_foreign) { if (copyable) { r.push_back(mk(K_AFORC, 0, 0, t)); r.push_back(mk(K_FORC, 2, 2, t)); } r.push_back(mk(K_AFORM, 0, 0, t)); r.push_back(mk(K_FORM, 2, 2, t)); }
            if (copyable) { r.push_back(mk(K_TC, 2, 2, t)); r.push_back(mk(K_TL, 2, 2, t)); }
            r.push_back(mk(K_TR, 2, 2, t));
        }
        if (copyable) r.push_back(mk(K_OWN, 0, 0, 0));
        r.push_back(mk(K_OWNMOVE, 0, 0, 0)); r.push_back(mk(K_GETR, 0, 0, 0));
        r.push_back(mk(K_CMP, 0, 1, 0)); r.push_back(mk(K_CMP, 0, 0, 0)); r.push_back(mk(K_LESS, 0, 1, 0)); r.push_back(mk(K_LESS, 1, 0, 0));
        if (copyable) r.push_back(mk(K_HASH, 0, 0, 0));
        r.push_back(mk(K_VISIT, 0, 0, 0)); r.push_back(mk(K_VISITNC, 0, 0, 0));
        if (std::is_default_constructible<typename Ad<T0>::type>::value) r.push_back(mk(K_DEF, 2, 2, 0));
        r.push_back(mk(K_DTOR, 0, 0, 0));
        return r;
    }
    bool usable(const Op& o) const {      // operand slots alive?
        bool ctor = o.kind <= K_MOVE || o.kind == K_FORC || o.kind == K_FORM;
        if (ctor) { return (o.kind >= K_COPY && o.kind <= K_MOVE) ? mod[o.b].alive : true; }
        if (!mod[o.a].alive) return false;
        switch (o.kind) { case K_ACOPY: case K_AMOVE: case K_SWAP: case K_FSWAP: case K_CMP: case K_LESS: return mod[o.b].alive; }
        return true;
    }
    // returns: did the fault of the last op fire
    bool scenario(const State& l, const State& r, const Op& o1, long n1, int late, const Op* o2, long n2, bool epilogue) {
        set_case("%s: systematic lhs=(%d,%d,%ld) rhs=(%d,%d,%ld):", lname, l.t, l.j, l.n, r.t, r.j, r.n);
        count("scenarios");
        bool fired = false;
        if (prep(0, l) && prep(1, r)) {
            Op a = o1; a.fault = n1; a.late = late; a.v = nextv++;
            if (usable(a)) {
                long f0 = fault().serial;
                bool ok = step(a);
                fired = fault().serial != f0;
                if (ok && o2) {
                    Op b = *o2; b.fault = n2; b.late = late; b.v = nextv++;
                    if (usable(b)) { f0 = fault().serial; ok = step(b); fired = fault().serial != f0; }
                }
                if (ok && epilogue) {
                    Op e[8]; int k = 0;
                    if (copyable) { e[k++] = mk(K_COPY, 2, 0, 0); e[k++] = mk(K_ACOPY, 1, 0, 0); e[k++] = mk(K_ACOPY, 0, 2, 0); }
                    e[k++] = mk(K_ATR, 1, 1, (l.t + 1) % (int)m); e[k++] = mk(K_SWAP, 0, 1, 0); e[k++] = mk(K_AMOVE, 0, 1, 0); e[k++] = mk(K_ATR, 0, 0, l.t);
                    for (int i = 0; i < k && ok; ++i) if (usable(e[i])) ok = step(e[i]);
                }
            }
        }
        if (!case_bad() && n1) sample("%s", the_case().buf);
        reset(true);
        return fired;
    }
    void systematic(std::uint64_t seed, long budget2) {
        find_states();
        std::vector<Op> ops = menu();
        Rng rng(seed * 77 + 5);
        // every operation, in every pair of states, with every fault position
        long base = 0;
        for (std::size_t l = 0; l < states.size(); ++l) for (std::size_t r = 0; r < states.size(); ++r) for (std::size_t o = 0; o < ops.size(); ++o)
            for (int late = 0; late < 3; ++late) for (long n = 0; n <= 16; ++n) {
                if (late && n == 0) continue;
                ++base;
                bool f = scenario(states[l], states[r], ops[o], n, late, 0, 0, true);
                if (n > 0 && !f) break;
                if (viol_count() > 60) return;
            }
        count("systematic_single", base);
        // sampled: two operations, both with faults
        for (long i = 0; i < budget2; ++i) {
            const State& l = states[rng.below((unsigned)states.size())]; const State& r = states[rng.below((unsigned)states.size())];
            const Op& a = ops[rng.below((unsigned)ops.size())]; const Op& b = ops[rng.below((unsigned)ops.size())];
            long n1 = rng.chance(2, 3) ? 1 + rng.below(4) : 0, n2 = rng.chance(1, 2) ? 1 + rng.below(4) : 0;
            { int lt = rng.chance(1, 2) ? 0 : 1 + (int)rng.below(2); scenario(l, r, a, n1, lt, &b, n2, true); }
            if (viol_count() > 60) return;
        }
    }
    // ------------------------------------------------------------ random histories
    void random(std::uint64_t seed, long histories, int len, int fault_pct) {
        static const int kinds[] = { K_DEF, K_TC, K_TL, K_TR, K_COPY, K_COPYNC, K_MOVE, K_ACOPY, K_ACOPY, K_ACOPY, K_AMOVE, K_AMOVE, K_ATC, K_ATL, K_ATR, K_SWAP, K_FSWAP,
            K_OWN, K_OWNMOVE, K_FORC, K_FORM, K_AFORC, K_AFORM, K_DTOR, K_CMP, K_LESS, K_HASH, K_VISIT, K_VISITNC, K_GETR };
        for (long h = 0; h < histories; ++h) {
            Rng rng(seed * 1000003 + (std::uint64_t)h);
            set_case("%s: random seed=%llu history=%ld:", lname, (unsigned long long)seed, h);
            count("histories");
            for (int i = 0; i < 2; ++i) step(mk(K_TR, i, i, (int)rng.below((unsigned)m)));
            for (int s = 0; s < len && !case_bad(); ++s) {
                unsigned rk = rng.below(sizeof kinds / sizeof *kinds); int ra = (int)rng.below(3), rb = (int)rng.below(3), rt = (int)rng.below((unsigned)m);   // drawn in a fixed order: histories are the same for every compiler
                Op o = mk(kinds[rk], ra, rb, rt);
                bool ctor = o.kind <= K_MOVE || o.kind == K_FORC || o.kind == K_FORM;
                if (ctor && o.kind >= K_COPY && o.kind <= K_MOVE && o.a == o.b) o.b = (o.a + 1) % 3;
                if (!copyable && (o.kind == K_COPY || o.kind == K_COPYNC || o.kind == K_ACOPY || o.kind == K_FORC || o.kind == K_AFORC || o.kind == K_HASH || o.kind == K_OWN || o.kind == K_TC || o.kind == K_TL || o.kind == K_ATC || o.kind == K_ATL)) continue;
                if (!has_foreign && (o.kind == K_FORC || o.kind == K_FORM || o.kind == K_AFORC || o.kind == K_AFORM)) continue;
                if (o.kind == K_DEF && !std::is_default_constructible<typename Ad<T0>::type>::value) continue;
                if (!usable(o)) continue;
                if ((int)rng.below(100) < fault_pct) { o.fault = 1 + rng.below(5); o.late = rng.chance(1, 2) ? 0 : 1 + (int)rng.below(2); }
                if (!step(o)) break;
                if (std::strlen(the_case().buf) > 3600) set_case("%s: random seed=%llu history=%ld (tail):", lname, (unsigned long long)seed, h);
            }
            if (h == 0) sample("%s", the_case().buf);
            reset(true);
            if (viol_count() > 60) return;
        }
    }
};

} // namespace eng
#endif
