// C10: visitation of several variants: full product of content types, operand categories, visitor and result kinds.
#include "common.hpp"
#include <memory>
#include <string>
#include <vector>

typedef T<1,0,1,1> C1; typedef T<2,0,1,1,24> C2; typedef T<3,0,1,0> E1; typedef T<5,0,2,2> A1; typedef T<6,0,0,2> M1; typedef T<8,0,2,2,16> A2; typedef T<9,0,1,2> B1;
template <class U> struct Val { static U make(long v) { return U(v); } static long of(const U& u) { return u.get(); } };
template <> struct Val<int> { static int make(long v) { return (int)v; } static long of(int v) { return v; } };
template <> struct Val<char> { static char make(long v) { return (char)(v % 100); } static long of(char v) { return v; } };
template <> struct Val<std::string> { static std::string make(long v) { char b[64]; snprintf(b, sizeof b, "%ld-some-long-enough-string-body", v); return b; } static long of(const std::string& s) { return s.empty() ? -1 : std::atol(s.c_str()); } };
// the result deduction of the generic form looks at the declared element types, wrappers included
template <class U> struct Val<recursive_wrapper<U> > { static long of(const recursive_wrapper<U>& u) { return Val<U>::of(u.get()); } };

enum { MAXN = 5 };
struct Arg { int type; const void* addr; bool lref, cnst; long val; };
struct Log { int calls, n; Arg a[MAXN]; int copies; const void* self; bool cself; void reset() { calls = n = 0; copies = 0; self = 0; cself = false; } };
static Log g; static bool g_throw; static long g_slots[64];
struct Boom { int n; long cookie; };
struct Counted { int state; Counted() : state(0) {} Counted(const Counted& o) : state(o.state) { ++g.copies; } };
template <class U> int tid_of() { return -1; }
#define TID(U, N) template <> int tid_of<U>() { return N; }
TID(C1, 1) TID(C2, 2) TID(E1, 3) TID(A1, 5) TID(M1, 6) TID(A2, 8) TID(B1, 9) TID(int, 20) TID(char, 21) TID(std::string, 22)
template <class U> void note1(U&& u) {
    typedef typename std::remove_reference<U>::type R; typedef typename std::remove_cv<R>::type D;
    Arg& a = g.a[g.n++]; a.type = tid_of<D>(); a.addr = (const void*)&reinterpret_cast<const volatile char&>(u); a.lref = std::is_lvalue_reference<U>::value; a.cnst = std::is_const<R>::value; a.val = Val<D>::of(u);
}
template <class... U> int note(const void* self, bool cself, U&&... u) {
    ++g.calls; g.n = 0; g.self = self; g.cself = cself;
    int d[] = { (note1(std::forward<U>(u)), 0)... }; (void)d;
    if (g_throw) { Boom b = { g.calls, 4711 }; throw b; }
    return (int)sizeof...(U);
}
#define BODY(E) \
    template <class... U> auto_t operator()(U&&... u) { int t = note(this, false, std::forward<U>(u)...); this->state += 1; (void)t; E; } \
    template <class... U> auto_t operator()(U&&... u) const { int t = note(this, true, std::forward<U>(u)...); (void)t; E; }
struct VInt : Counted, boost::static_visitor<long> { typedef long auto_t; BODY(return 100 + t) };
struct VVoid : Counted, boost::static_visitor<> { typedef void auto_t; BODY(return) };
struct VRef : Counted, boost::static_visitor<long&> { typedef long& auto_t; BODY(return g_slots[t]) };
struct VUniq : Counted, boost::static_visitor<std::unique_ptr<int> > { typedef std::unique_ptr<int> auto_t; BODY(return std::unique_ptr<int>(new int(t))) };
struct VNoCopy : boost::static_visitor<long> { int state; VNoCopy() : state(0) {} VNoCopy(const VNoCopy&) = delete; typedef long auto_t; BODY(return 100 + t) };
struct PInt : Counted { typedef long auto_t; BODY(return 100 + t) };
struct PVoid : Counted { typedef void auto_t; BODY(return) };
struct PRef : Counted { typedef long& auto_t; BODY(return g_slots[t]) };
struct PUniq : Counted { typedef std::unique_ptr<int> auto_t; BODY(return std::unique_ptr<int>(new int(t))) };
template <class R> struct Expect;
template <> struct Expect<long> { static bool ok(long r, int t) { return r == 100 + t; } };
template <> struct Expect<long&> { static bool ok(long& r, int t) { return &r == &g_slots[t]; } };
template <> struct Expect<std::unique_ptr<int> > { static bool ok(const std::unique_ptr<int>& r, int t) { return r && *r == t; } };
template <class R, class G> typename std::enable_if<!std::is_void<R>::value>::type res(int t, G gg) { CHECK("C10", Expect<R>::ok(gg(), t), "result", "visitor result not passed through"); }
template <class R, class G> typename std::enable_if<std::is_void<R>::value>::type res(int, G gg) { gg(); }

template <int C> struct Cat;
template <> struct Cat<0> { template <class V> static V& pass(V& v) { return v; } };
template <> struct Cat<1> { template <class V> static const V& pass(V& v) { return v; } };
template <> struct Cat<2> { template <class V> static V&& pass(V& v) { return std::move(v); } };

struct TidVis : boost::static_visitor<int> { template <class U> int operator()(const U&) const { return tid_of<U>(); } };
struct ValVis : boost::static_visitor<long> { template <class U> long operator()(const U& u) const { return Val<U>::of(u); } };
// how to put content i into a fresh variant
template <class V> struct Maker;
template <class... Ts> struct Maker<boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V; enum { n = sizeof...(Ts) };
    template <class X> static V* mk(long v) { return new V(Val<typename Unwrap<X>::type>::make(v)); }
    static V* make(int i, long v) { typedef V* (*F)(long); static const F f[] = { &mk<Ts>... }; return f[i](v); }
};
struct Exp { int type; const void* addr; long val; int cat; };
static void judge(const char* form, int n, const Exp* e, bool threw, const void* self, bool cself, bool check_self) {
    CHECK("C10", g.calls == 1, form, "visitor called %d times", g.calls);
    CHECK("C10", g.n == n, form, "visitor got %d arguments instead of %d", g.n, n);
    for (int i = 0; i < n; ++i) {
        const Arg& a = g.a[i];
        CHECK("C10", a.type == e[i].type, form, "argument %d has type %d, operand holds type %d", i, a.type, e[i].type);
        CHECK("C10", a.val == e[i].val, form, "argument %d has value %ld, operand holds %ld", i, a.val, e[i].val);
        if (e[i].cat == 2) CHECK("C10", !a.lref, form, "rvalue operand %d passed as lvalue", i);
        else {
            CHECK("C10", a.addr == e[i].addr, form, "argument %d is not the content of operand %d", i, i);
            CHECK("C10", a.lref, form, "lvalue operand %d passed as rvalue", i);
            CHECK("C10", a.cnst == (e[i].cat == 1), form, "constness of operand %d not kept", i);
        }
    }
    CHECK("C10", g.copies == 0, form, "visitor copied %d times", g.copies);
    if (check_self) CHECK("C10", g.self == self && g.cself == cself, form, "another visitor object (or constness) was used");
    CHECK("C10", threw == g_throw, form, threw ? "unexpected exception" : "exception swallowed");
}
template <class V> Exp expect(V& v, int cat) { Exp e; TidVis t; ValVis x; e.type = boost::apply_visitor(t, (const V&)v); e.addr = content_addr(v); e.val = boost::apply_visitor(x, (const V&)v); e.cat = cat; return e; }
template <class V> void after(const char* form, V& v, const Exp& e) {
    TidVis t; ValVis x;
    CHECK("C10", boost::apply_visitor(t, (const V&)v) == e.type, form, "operand changed its type");
    if (e.cat != 2) CHECK("C10", content_addr(v) == e.addr && boost::apply_visitor(x, (const V&)v) == e.val, form, "lvalue operand changed");
}
template <class F> void guarded(const char* form, F f, bool& threw) {
    threw = false;
    try { f(); } catch (const Boom& b) { threw = true; CHECK("C10", b.n == 1 && b.cookie == 4711, form, "exception changed"); } catch (...) { threw = true; violation("C10,C16", form, "exception replaced"); }
}
#define RES(EX) do { typedef decltype(EX) R; CHECK("C10", (SAME(R, typename VI::auto_t)), "result-type", "result type changed"); res<R>((int)sizeof...(Vs), [&]() -> R { return EX; }); } while (0)

template <int... Cs> struct Cats {};
static const char* g_list = "";
static bool g_all_moves = true;     // no content type of the operands lacks a move constructor
template <int... Cs> struct HasRv { static const bool value = false; };
template <int C, int... Cs> struct HasRv<C, Cs...> { static const bool value = C == 2 || HasRv<Cs...>::value; };
template <class V> int reload(V& v, const Exp& e) { if (e.cat == 2) { std::unique_ptr<V> f(Maker<V>::make(v.which(), e.val)); v = std::move(*f); } return 0; }
// with rvalue operands (renewed each time): again with a const visitor and with a temporary
template <class VI, int... Cs, class... Vs> void run_again(const char* form, Cats<Cs...>, std::false_type, VI& vis, const Exp* e, Vs&... v) {
    bool threw; const VI& cvis = vis; int i = 0;
    { int dd[] = { reload(v, e[i++])... }; (void)dd; }
    g.reset(); guarded(form, [&] { RES(boost::apply_visitor(cvis, Cat<Cs>::pass(v)...)); }, threw); judge(form, (int)sizeof...(Vs), e, threw, &vis, true, true);
    { i = 0; int dd[] = { (after(form, v, e[i++]), 0)... }; (void)dd; }
    { i = 0; int dd[] = { reload(v, e[i++])... }; (void)dd; }
    g.reset(); guarded(form, [&] { RES(boost::apply_visitor(VI(), Cat<Cs>::pass(v)...)); }, threw); judge(form, (int)sizeof...(Vs), e, threw, 0, true, false);
    { i = 0; int dd[] = { (after(form, v, e[i++]), 0)... }; (void)dd; }
}
// without rvalue operands: again with a const visitor, with a temporary, and delayed
template <class VI, int... Cs, class... Vs> void run_again(const char* form, Cats<Cs...>, std::true_type, VI& vis, const Exp* e, Vs&... v) {
    bool threw; const VI& cvis = vis;
    g.reset(); guarded(form, [&] { RES(boost::apply_visitor(cvis, Cat<Cs>::pass(v)...)); }, threw); judge(form, (int)sizeof...(Vs), e, threw, &vis, true, true);
    g.reset(); guarded(form, [&] { RES(boost::apply_visitor(VI(), Cat<Cs>::pass(v)...)); }, threw); judge(form, (int)sizeof...(Vs), e, threw, 0, true, false);
    g.reset(); guarded(form, [&] { RES(boost::apply_visitor(vis)(Cat<Cs>::pass(v)...)); }, threw); judge("delayed", (int)sizeof...(Vs), e, threw, &vis, false, true);
    { int i = 0; int dd[] = { (after(form, v, e[i++]), 0)... }; (void)dd; }
    CHECK("C10", g_throw || vis.state == 2, form, "visitor state %d, expected 2", vis.state);
}
template <class VI, int... Cs, class... Vs> void run1(const char* form, Cats<Cs...>, Vs&... v) {
    int w[] = { v.which()... };
    std::uint64_t k = shash(form); for (unsigned i = 0; i < sizeof...(Vs); ++i) k = mix(k, (std::uint64_t)w[i]); { int cs[] = { Cs... }; for (unsigned i = 0; i < sizeof...(Cs); ++i) k = mix(k, (std::uint64_t)cs[i]); }
    set_case("%s: %s n=%d which=%d,%d,%d throw=%d", g_list, form, (int)sizeof...(Vs), w[0], sizeof...(Vs) > 1 ? w[1] : -1, sizeof...(Vs) > 2 ? w[2] : -1, (int)g_throw);
    distinct().add(k);
    Exp e[] = { expect(v, Cs)... }; bool threw; VI vis;
    long c0 = ev().copies;
    g.reset(); guarded(form, [&] { RES(boost::apply_visitor(vis, Cat<Cs>::pass(v)...)); }, threw); judge(form, (int)sizeof...(Vs), e, threw, &vis, false, true);
    if (g_all_moves) CHECK("C10", ev().copies == c0, form, "contents were copied");
    { int i = 0; int dd[] = { (after(form, v, e[i++]), 0)... }; (void)dd; }
    run_again(form, Cats<Cs...>(), std::integral_constant<bool, !HasRv<Cs...>::value>(), vis, e, v...);
}
#if __cplusplus >= 201402L
template <int... Cs, class... Vs> void lambda1(Cats<Cs...>, Vs&... v) {
    Exp e[] = { expect(v, Cs)... }; bool threw; int hits = 0;
    set_case("%s: lambda n=%d", g_list, (int)sizeof...(Vs));
    auto lam = [&hits](auto&&... u) -> long { ++hits; return 100 + note(0, true, std::forward<decltype(u)>(u)...); };
    g.reset(); guarded("lambda", [&] { long r = boost::apply_visitor(lam, Cat<Cs>::pass(v)...); CHECK("C10", r == 100 + (long)sizeof...(Vs), "lambda", "result %ld", r); }, threw);
    judge("lambda", (int)sizeof...(Vs), e, threw, 0, true, false); CHECK("C10", hits == 1, "lambda", "%d calls", hits);
    { int i = 0; int dd[] = { (after("lambda", v, e[i++]), 0)... }; (void)dd; }
}
#endif
// full product of contents; VM is the number of throwing/non-throwing rounds
template <class F, class... Vs> struct Product;
template <class F, class V1, class V2> struct Product<F, V1, V2> { static void run(F f) {
    long x = 10;
    for (int th = 0; th < 2; ++th) for (int i = 0; i < Maker<V1>::n; ++i) for (int j = 0; j < Maker<V2>::n; ++j) { g_throw = th != 0; std::unique_ptr<V1> a(Maker<V1>::make(i, x++ % 90)); std::unique_ptr<V2> b(Maker<V2>::make(j, x++ % 90)); f(*a, *b); } g_throw = false; } };
template <class F, class V1, class V2, class V3> struct Product<F, V1, V2, V3> { static void run(F f) {
    long x = 10;
    for (int th = 0; th < 2; ++th) for (int i = 0; i < Maker<V1>::n; ++i) for (int j = 0; j < Maker<V2>::n; ++j) for (int k = 0; k < Maker<V3>::n; ++k) { g_throw = th != 0;
        std::unique_ptr<V1> a(Maker<V1>::make(i, x++ % 90)); std::unique_ptr<V2> b(Maker<V2>::make(j, x++ % 90)); std::unique_ptr<V3> c(Maker<V3>::make(k, x++ % 90)); f(*a, *b, *c); } g_throw = false; } };
template <class F, class V1, class V2, class V3, class V4> struct Product<F, V1, V2, V3, V4> { static void run(F f) {
    long x = 10;
    for (int th = 0; th < 2; ++th) for (int i = 0; i < Maker<V1>::n; ++i) for (int j = 0; j < Maker<V2>::n; ++j) for (int k = 0; k < Maker<V3>::n; ++k) for (int l = 0; l < Maker<V4>::n; ++l) { g_throw = th != 0;
        std::unique_ptr<V1> a(Maker<V1>::make(i, x++ % 90)); std::unique_ptr<V2> b(Maker<V2>::make(j, x++ % 90)); std::unique_ptr<V3> c(Maker<V3>::make(k, x++ % 90)); std::unique_ptr<V4> d(Maker<V4>::make(l, x++ % 90)); f(*a, *b, *c, *d); } g_throw = false; } };
template <class F, class V1, class V2, class V3, class V4, class V5> struct Product<F, V1, V2, V3, V4, V5> { static void run(F f) {
    long x = 10;
    for (int th = 0; th < 2; ++th) for (int i = 0; i < Maker<V1>::n; ++i) for (int j = 0; j < Maker<V2>::n; ++j) for (int k = 0; k < Maker<V3>::n; ++k) for (int l = 0; l < Maker<V4>::n; ++l) for (int m = 0; m < Maker<V5>::n; ++m) { g_throw = th != 0;
        std::unique_ptr<V1> a(Maker<V1>::make(i, x++ % 90)); std::unique_ptr<V2> b(Maker<V2>::make(j, x++ % 90)); std::unique_ptr<V3> c(Maker<V3>::make(k, x++ % 90)); std::unique_ptr<V4> d(Maker<V4>::make(l, x++ % 90)); std::unique_ptr<V5> e(Maker<V5>::make(m, x++ % 90)); f(*a, *b, *c, *d, *e); } g_throw = false; } };
template <class VI, class C> struct Call { const char* form; template <class... Vs> void operator()(Vs&... v) const { run1<VI>(form, C(), v...); } };
#if __cplusplus >= 201402L
template <class C> struct Lam { template <class... Vs> void operator()(Vs&... v) const { lambda1(C(), v...); } };
#endif
template <class VI, class C, class... Vs> void go(const char* form) { Call<VI, C> c = { form }; Product<Call<VI, C>, Vs...>::run(c); }
template <class C, class... Vs> void golam() {
#if __cplusplus >= 201402L
    Product<Lam<C>, Vs...>::run(Lam<C>());
#endif
}
#if __cplusplus >= 201402L
#define IF14(...) __VA_ARGS__
#else
#define IF14(...)
#endif
template <class V1, class V2> void all9(const char* list) {
    g_list = list;
#define G2(VI, A, B) go<VI, Cats<A, B>, V1, V2>(#VI #A #B);
#define G9(VI) G2(VI,0,0) G2(VI,0,1) G2(VI,0,2) G2(VI,1,0) G2(VI,1,1) G2(VI,1,2) G2(VI,2,0) G2(VI,2,1) G2(VI,2,2)
    G9(VInt) G2(VVoid,0,1) G2(VRef,1,0) G2(VUniq,2,2) G2(VNoCopy,0,0) G2(VRef,2,2) G2(VVoid,0,2)
    IF14(G9(PInt) G2(PVoid,0,1) G2(PRef,1,0) G2(PUniq,2,2) G2(PRef,2,0) golam<Cats<0,1>, V1, V2>(); golam<Cats<2,0>, V1, V2>(); golam<Cats<0,2>, V1, V2>();)
}
// the same variant given twice
template <class VI, class V> void same_operand() {
    for (int i = 0; i < Maker<V>::n; ++i) { std::unique_ptr<V> a(Maker<V>::make(i, 33)); run1<VI>("same operand twice", Cats<0, 1>(), *a, *a); run1<VI>("same operand three times", Cats<0, 1, 0>(), *a, *a, *a); }
}
template <class V, class A, class B> void backup() {
    B b(3); V v(A(1)); V w(B(8));
    if (into_backup<A>(v, 5, b)) {
        run1<VInt>("backup,plain", Cats<0, 0>(), v, w); run1<VInt>("plain,backup", Cats<1, 0>(), w, v); run1<VInt>("backup x3", Cats<0, 1, 0>(), v, w, v); run1<VInt>("rvalue backup", Cats<0, 2>(), w, v);
        into_backup<A>(v, 6, b); run1<VInt>("rvalue backup first", Cats<2, 0>(), v, w);
        IF14(into_backup<A>(v, 7, b); run1<PInt>("backup cpp14", Cats<0, 1>(), v, w); run1<PInt>("backup cpp14 x3", Cats<0, 1, 0>(), w, w, v);)
    }
}

int main(int argc, char** argv) {
    long reps = argc > 2 ? std::atol(argv[2]) : 1;
    typedef boost::variant<A1, int, A2> VA; typedef boost::variant<std::string, A1> VB; typedef boost::variant<C1, recursive_wrapper<A2>, int> VW; typedef boost::variant<M1, A1> VM; typedef boost::variant<C1, C2, B1> VT; typedef boost::variant<A1, int> V2; typedef boost::variant<A2, char> V2b; typedef boost::variant<B1> V1;
    for (long r = 0; r < reps; ++r) {
#if PART == 1
        all9<VA, VA>("same");
#elif PART == 2
        all9<VB, VA>("different");
#elif PART == 3
        all9<VW, VB>("wrapped");
#elif PART == 4
        g_list = "move-only"; go<VInt, Cats<0, 0>, VM, VM>("VInt00"); go<VInt, Cats<2, 2>, VM, VM>("VInt22"); go<VInt, Cats<2, 0>, VM, VA>("VInt20"); go<VInt, Cats<0, 2>, VA, VM>("VInt02"); go<VInt, Cats<2, 2, 2>, VM, VM, VM>("VInt222"); go<VInt, Cats<0, 2, 1>, VM, VM, VM>("VInt021");
        IF14(go<PInt, Cats<2, 2>, VM, VM>("PInt22"); go<PInt, Cats<1, 2>, VM, VM>("PInt12"); go<PInt, Cats<2, 1, 2>, VM, VM, VM>("PInt212");)
        g_list = "same operand"; same_operand<VInt, VA>(); IF14(same_operand<PInt, VA>();)
        g_list = "backup"; g_all_moves = false; backup<VT, C1, C2>(); backup<VT, C2, C1>(); backup<VT, C1, B1>(); g_all_moves = true;
#elif PART == 5 || PART == 6
        g_list = "three";
#define G3(VI, A, B, C) go<VI, Cats<A, B, C>, VA, VA, VB>(#VI #A #B #C);
#define GG(VI, A, B) G3(VI, A, B, 0) G3(VI, A, B, 1) G3(VI, A, B, 2)
#if PART == 5
        GG(VInt,0,0) GG(VInt,0,2) GG(VInt,1,1) GG(VInt,2,0) GG(VInt,2,2) G3(VVoid,0,0,1) G3(VRef,0,1,0) G3(VUniq,1,0,0) G3(VNoCopy,0,0,0) G3(VRef,2,1,2)
#else
        IF14(GG(PInt,0,0) GG(PInt,0,2) GG(PInt,1,1) GG(PInt,2,0) GG(PInt,2,2) G3(PVoid,0,0,1) G3(PRef,0,1,0) G3(PUniq,1,0,0) golam<Cats<0, 0, 0>, VA, VA, VB>(); golam<Cats<2, 1, 0>, VA, VA, VB>(); golam<Cats<0, 1, 2>, VA, VA, VB>();)
        go<VInt, Cats<0, 1, 0>, VW, V2, VW>("wrapped VInt010"); go<VInt, Cats<2, 1, 2>, VW, V2, VW>("wrapped VInt212");
#endif
#elif PART == 7
        g_list = "four"; go<VInt, Cats<0, 0, 0, 0>, V2, V2, V2b, V2>("VInt0000"); go<VInt, Cats<1, 0, 1, 0>, V2, V2, V2b, V2>("VInt1010"); go<VInt, Cats<2, 2, 2, 2>, V2, V2, V2b, V2>("VInt2222"); go<VInt, Cats<0, 2, 1, 2>, V2, V2, V2b, V2>("VInt0212"); go<VRef, Cats<0, 1, 0, 1>, V2, V2, V2, V2>("VRef0101"); go<VVoid, Cats<0, 1, 0, 1>, V2, V2, V2, V2>("VVoid0101");
        IF14(go<PInt, Cats<0, 0, 0, 0>, V2, V2, V2b, V2>("PInt0000"); go<PInt, Cats<2, 1, 2, 0>, V2, V2, V2b, V2>("PInt2120"); go<PRef, Cats<1, 1, 0, 0>, V2, V2, V2b, V2>("PRef1100");)
#elif PART == 8
        g_list = "five"; go<VInt, Cats<0, 0, 0, 0, 0>, V2, V2, V2b, V2, V2>("VInt00000"); go<VInt, Cats<0, 1, 2, 1, 0>, V2, V2, V2b, V2, V2>("VInt01210"); go<VInt, Cats<2, 2, 2, 2, 2>, V2, V1, V2b, V2, V2>("VInt22222");
        IF14(go<PInt, Cats<0, 1, 0, 1, 0>, V2, V2, V2b, V2, V2>("PInt01010"); go<PInt, Cats<2, 0, 1, 0, 2>, V1, V2, V2b, V2, V2>("PInt20102");)
#endif
    }
    if (reg().n) violation("C03", "leak", "%d objects alive at the end", reg().n);
    finish(); return 0;
}
