// C09: unary visitation: exactly once, on the content itself, category and constness kept, results and exceptions passed through.
#include "common.hpp"
#include <memory>
#include <string>
#include <vector>

typedef T<1,0,1,1> C1; typedef T<2,0,1,1,24> C2; typedef T<3,0,1,0> E1; typedef T<4,2,1,2> F1; typedef T<5,0,2,2> A1; typedef T<6,0,0,2> M1; typedef T<7,0,2,1,8> D1;
template <int N> struct Tag { long x; explicit Tag(long v = 0) : x(v) {} };
struct Base { long x; explicit Base(long v = 0) : x(v) {} }; struct Derived : Base { explicit Derived(long v = 0) : Base(v) {} };
template <class U> struct Val { static U make(long v) { return U(v); } };
template <> struct Val<std::string> { static std::string make(long v) { return std::string((std::size_t)(v % 40), 'a'); } };
template <> struct Val<std::vector<int> > { static std::vector<int> make(long v) { return std::vector<int>((std::size_t)(v % 9), (int)v); } };
template <> struct Val<blank> { static blank make(long) { return blank(); } };
template <class A, class B> struct Val<boost::variant<A, B> > { static boost::variant<A, B> make(long v) { if (v & 1) return Val<A>::make(v); return Val<B>::make(v); } };

struct Log { int calls; int type; bool lref, cnst; const void* addr; int copies; const void* self; bool cself;
    void reset() { calls = 0; type = -1; lref = cnst = false; addr = 0; copies = 0; self = 0; cself = false; } };
static Log g;
struct Boom { int n; long cookie; };
template <class... Ts> struct IdOf { template <class U> static int of() { return IndexOf<U, Ts...>::value; } };
struct Res { long a; int b; explicit Res(long x, int y) : a(x), b(y) {} Res(const Res&) = default; Res() = delete; };
static long g_slots[64]; static bool g_throw = false;

// one recording body for all visitors
template <class... Ts> struct Recorder {
    template <class U> static int note(U&& u, const void* self, bool cself) {
        typedef typename std::remove_reference<U>::type R; typedef typename std::remove_cv<R>::type D;
        ++g.calls; g.type = IndexOf<D, Ts...>::value; g.lref = std::is_lvalue_reference<U>::value; g.cnst = std::is_const<R>::value;
        g.addr = (const void*)&reinterpret_cast<const volatile char&>(u); g.self = self; g.cself = cself;
        if (g_throw) { Boom b = { g.calls, 4711 + g.type }; throw b; }
        return g.type;
    }
};
// counts its own copies and carries state
struct Counted { int state; Counted() : state(0) {} Counted(const Counted& o) : state(o.state) { ++g.copies; } };

#define VIS_BODY(EXPR_NC, EXPR_C) \
    template <class U> auto_t operator()(U&& u) { int t = Recorder<Ts...>::note(std::forward<U>(u), this, false); this->state += 1; (void)t; EXPR_NC; } \
    template <class U> auto_t operator()(U&& u) const { int t = Recorder<Ts...>::note(std::forward<U>(u), this, true); (void)t; EXPR_C; }

template <class... Ts> struct VInt : Counted, boost::static_visitor<long> { typedef long auto_t; VIS_BODY(return 100 + t, return 100 + t) };
template <class... Ts> struct VVoid : Counted, boost::static_visitor<> { typedef void auto_t; VIS_BODY(return, return) };
template <class... Ts> struct VRef : Counted, boost::static_visitor<long&> { typedef long& auto_t; VIS_BODY(return g_slots[t], return g_slots[t]) };
template <class... Ts> struct VCRef : Counted, boost::static_visitor<const long&> { typedef const long& auto_t; VIS_BODY(return g_slots[t], return g_slots[t]) };
template <class... Ts> struct VRes : Counted, boost::static_visitor<Res> { typedef Res auto_t; VIS_BODY(return Res(t, 5), return Res(t, 5)) };
template <class... Ts> struct VUniq : Counted, boost::static_visitor<std::unique_ptr<int> > { typedef std::unique_ptr<int> auto_t; VIS_BODY(return std::unique_ptr<int>(new int(t)), return std::unique_ptr<int>(new int(t))) };
template <class... Ts> struct VStr : Counted, boost::static_visitor<std::string> { typedef std::string auto_t; VIS_BODY(return std::string((std::size_t)t + 20, 'q'), return std::string((std::size_t)t + 20, 'q')) };
template <class... Ts> struct VPtr : Counted, boost::static_visitor<const void*> { typedef const void* auto_t; VIS_BODY(return &g_slots[t], return &g_slots[t]) };
template <class... Ts> struct VNoCopy : boost::static_visitor<long> { int state; VNoCopy() : state(0) {} VNoCopy(const VNoCopy&) = delete; VNoCopy& operator=(const VNoCopy&) = delete; typedef long auto_t; VIS_BODY(return 100 + t, return 100 + t) };
template <class... Ts> struct VPlain : Counted { typedef long auto_t; VIS_BODY(return 100 + t, return 100 + t) };                  // no result_type (C++14 form)
template <class... Ts> struct VPlainRef : Counted { typedef long& auto_t; VIS_BODY(return g_slots[t], return g_slots[t]) };
template <class... Ts> struct VPlainVoid : Counted { typedef void auto_t; VIS_BODY(return, return) };
template <class... Ts> struct VPlainUniq : Counted { typedef std::unique_ptr<int> auto_t; VIS_BODY(return std::unique_ptr<int>(new int(t)), return std::unique_ptr<int>(new int(t))) };

template <class R> struct Expect;     // judges a result
template <> struct Expect<long> { static bool ok(long r, int t) { return r == 100 + t; } };
template <> struct Expect<long&> { static bool ok(long& r, int t) { return &r == &g_slots[t]; } };
template <> struct Expect<const long&> { static bool ok(const long& r, int t) { return &r == &g_slots[t]; } };
template <> struct Expect<Res> { static bool ok(const Res& r, int t) { return r.a == t && r.b == 5; } };
template <> struct Expect<std::unique_ptr<int> > { static bool ok(const std::unique_ptr<int>& r, int t) { return r && *r == t; } };
template <> struct Expect<std::string> { static bool ok(const std::string& r, int t) { return r == std::string((std::size_t)t + 20, 'q'); } };
template <> struct Expect<const void*> { static bool ok(const void* r, int t) { return r == &g_slots[t]; } };

template <class L> struct Run;
template <class... Ts> struct Run<boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V;
    const char* lname; Rng rng;
    Run(const char* n, std::uint64_t s) : lname(n), rng(s) {}

    enum Cat { LV, CLV, RV, CRV };
    struct Want { int t; const void* addr; bool lref, cnst; bool any_cat; };
    void judge(const V& v, const Want& w, const char* form, bool threw, const void* self, bool cself, bool check_self) {
        CHECK("C09", g.calls == 1, form, "visitor called %d times", g.calls);
        CHECK("C09", g.type == w.t, form, "visitor got type %d, content is type %d", g.type, w.t);
        CHECK("C09", g.addr == w.addr, form, "visitor got an object that is not the content");
        CHECK("C09", w.any_cat || g.lref == w.lref, form, w.lref ? "lvalue variant visited as rvalue" : "rvalue variant visited as lvalue");
        CHECK("C09", g.cnst == w.cnst, form, "constness not kept");
        CHECK("C09", g.copies == 0, form, "visitor copied %d times", g.copies);
        if (check_self) { CHECK("C09", g.self == self, form, "another visitor object was called"); CHECK("C09", g.cself == cself, form, "visitor constness changed"); }
        CHECK("C09", threw == g_throw, form, threw ? "unexpected exception" : "exception swallowed");
        CHECK("C09", v.which() == w.t && content_addr(v) == w.addr, form, "visitation changed the variant");
    }
    template <class F, class VI> void call(F f, VI& vis, V& v, const Want& w0, const char* form, bool cself, bool check_self = true) {
        Want w = w0; set_case("%s: %s on which()=%d throw=%d", lname, form, v.which(), (int)g_throw);
        seen(form, shash(lname), v.which(), (int)g_throw, is_outside(v), w.lref, w.cnst);
        g.reset(); bool threw = false; long ev0 = ev().copies + ev().moves + ev().casg + ev().masg;
        try { f(vis, v); }
        catch (const Boom& b) { threw = true; CHECK("C09", b.n == 1 && b.cookie == 4711 + w.t, form, "exception object changed"); }
        catch (...) { violation("C09,C16", form, "exception replaced by another"); threw = true; }
        judge(v, w, form, threw, &vis, cself, check_self);
        CHECK("C09", ev().copies + ev().moves + ev().casg + ev().masg == ev0, form, "visitation copied or moved the content");
    }
#define RESULT(EX) do { typedef decltype(EX) R; CHECK("C09", (SAME(R, typename VI::auto_t)), "result-type", "result type changed"); res<R>(w, [&]() -> R { return EX; }); } while (0)
    template <class R, class G> typename std::enable_if<!std::is_void<R>::value>::type res(int t, G gg) { CHECK("C09", Expect<R>::ok(gg(), t), "result", "visitor result not passed through"); }
    template <class R, class G> typename std::enable_if<std::is_void<R>::value>::type res(int, G gg) { gg(); }

    template <class VI> void forms(V& v, int t, bool member, bool delayed, bool cpp14) {
        VI vis; const VI cvis; const void* ad = content_addr(v); const int w = t;
        Want l = { t, ad, true, false, false }, c = { t, ad, true, true, false }, r = { t, ad, false, false, false }, cr = { t, ad, false, true, true };
        int st0 = vis.state;
        call([&](VI& x, V& y) { RESULT(boost::apply_visitor(x, y)); }, vis, v, l, "apply_visitor(vis, v)", false);
        call([&](VI& x, V& y) { RESULT(boost::apply_visitor(x, (const V&)y)); }, vis, v, c, "apply_visitor(vis, const v)", false);
        call([&](VI& x, V& y) { RESULT(boost::apply_visitor(x, std::move(y))); }, vis, v, r, "apply_visitor(vis, rvalue v)", false);
        call([&](VI& x, V& y) { RESULT(boost::apply_visitor(x, std::move((const V&)y))); }, vis, v, cr, "apply_visitor(vis, const rvalue v)", false);
        CHECK("C09", g_throw || vis.state == st0 + 4, "visitor-state", "visitor state not kept: %d", vis.state - st0);
        call([&](const VI& x, V& y) { RESULT(boost::apply_visitor(x, y)); }, cvis, v, l, "apply_visitor(const vis, v)", true);
        call([&](const VI& x, V& y) { RESULT(boost::apply_visitor(x, (const V&)y)); }, cvis, v, c, "apply_visitor(const vis, const v)", true);
        call([&](const VI& x, V& y) { RESULT(boost::apply_visitor(x, std::move(y))); }, cvis, v, r, "apply_visitor(const vis, rvalue v)", true);
        call([&](VI&, V& y) { RESULT(boost::apply_visitor(VI(), y)); }, vis, v, l, "apply_visitor(temporary, v)", true, false);
        call([&](VI&, V& y) { RESULT(boost::apply_visitor(VI(), (const V&)y)); }, vis, v, c, "apply_visitor(temporary, const v)", true, false);
        call([&](VI&, V& y) { RESULT(boost::apply_visitor(VI(), std::move(y))); }, vis, v, r, "apply_visitor(temporary, rvalue v)", true, false);
    }
    template <class VI> void members(V& v, int t) {
        VI vis; const VI cvis; const void* ad = content_addr(v); const int w = t;
        Want l = { t, ad, true, false, false }, c = { t, ad, true, true, false }, r = { t, ad, false, false, false }, cr = { t, ad, false, true, true };
        call([&](VI& x, V& y) { RESULT(y.apply_visitor(x)); }, vis, v, l, "v.apply_visitor(vis)", false);
        call([&](VI& x, V& y) { RESULT(((const V&)y).apply_visitor(x)); }, vis, v, c, "const v.apply_visitor(vis)", false);
        call([&](VI& x, V& y) { RESULT(std::move(y).apply_visitor(x)); }, vis, v, r, "rvalue v.apply_visitor(vis)", false);
        call([&](const VI& x, V& y) { RESULT(y.apply_visitor(x)); }, cvis, v, l, "v.apply_visitor(const vis)", true);
    }
    template <class VI> void delayed(V& v, int t) {
        VI vis; const void* ad = content_addr(v); const int w = t;
        Want l = { t, ad, true, false, false }, c = { t, ad, true, true, false };
        call([&](VI& x, V& y) { RESULT(boost::apply_visitor(x)(y)); }, vis, v, l, "delayed(v)", false);
        call([&](VI& x, V& y) { RESULT(boost::apply_visitor(x)((const V&)y)); }, vis, v, c, "delayed(const v)", false);
        call([&](VI& x, V& y) { auto d = boost::apply_visitor(x); auto e = d; RESULT(e(y)); }, vis, v, l, "copied delayed(v)", false);
    }
    void visit_all(V& v, int t) {
        for (int th = 0; th < 2; ++th) {
            g_throw = th != 0;
#define ALLF(X) forms<X<Ts...> >(v, t, true, true, false); delayed<X<Ts...> >(v, t);
            ALLF(VInt) ALLF(VVoid) ALLF(VRef) ALLF(VCRef) ALLF(VRes) ALLF(VUniq) ALLF(VStr) ALLF(VPtr) ALLF(VNoCopy)
            members<VInt<Ts...> >(v, t); members<VVoid<Ts...> >(v, t); members<VRef<Ts...> >(v, t); members<VNoCopy<Ts...> >(v, t); members<VUniq<Ts...> >(v, t);
#if __cplusplus >= 201402L
            ALLF(VPlain) ALLF(VPlainRef) ALLF(VPlainVoid) ALLF(VPlainUniq)
            lambdas(v, t);
#endif
        }
        g_throw = false;
        nested(v, t);
    }
#if __cplusplus >= 201402L
    void lambdas(V& v, int t) {
        const void* ad = content_addr(v); Want l = { t, ad, true, false, false }, c = { t, ad, true, true, false }, r = { t, ad, false, false, false }, cr = { t, ad, false, true, true };
        int hits = 0; long base = 1000;
        auto lam = [&hits, base](auto&& u) -> long { ++hits; Recorder<Ts...>::note(std::forward<decltype(u)>(u), 0, true); return base + (long)sizeof(u) * 0 + g.type; };
        typedef decltype(lam) LT;
        call([&](LT& x, V& y) { long q = boost::apply_visitor(x, y); CHECK("C09", q == base + t, "lambda", "result %ld", q); }, lam, v, l, "lambda(v)", true, false);
        call([&](LT& x, V& y) { long q = boost::apply_visitor(x, (const V&)y); CHECK("C09", q == base + t, "lambda", "result %ld", q); }, lam, v, c, "lambda(const v)", true, false);
        call([&](LT& x, V& y) { long q = boost::apply_visitor(x, std::move(y)); CHECK("C09", q == base + t, "lambda", "result %ld", q); }, lam, v, r, "lambda(rvalue v)", true, false);
        call([&](LT& x, V& y) { long q = boost::apply_visitor(std::move(x), y); CHECK("C09", q == base + t, "lambda", "result %ld", q); }, lam, v, l, "rvalue lambda(v)", true, false);
        CHECK("C09", hits == 4, "lambda-state", "lambda ran %d times instead of 4", hits);
        int n = 0;
        auto mut = [n](auto&& u) mutable -> int& { Recorder<Ts...>::note(std::forward<decltype(u)>(u), 0, false); ++n; return n; };
        typedef decltype(mut) MT;
        int before = -1;
        call([&](MT& x, V& y) { int& q = boost::apply_visitor(x, y); before = q; CHECK("C09", q == 1, "mutable-lambda", "state %d", q); }, mut, v, l, "mutable lambda(v)", true, false);
        if (!g_throw) call([&](MT& x, V& y) { int& q = boost::apply_visitor(x, y); CHECK("C09", q == 2, "mutable-lambda", "state %d, the visitor was copied", q); }, mut, v, l, "mutable lambda(v)", true, false);
    }
#endif
    struct Inner : boost::static_visitor<int> { const V* v; int depth; Inner(const V* p, int d) : v(p), depth(d) {}
        template <class U> int operator()(const U& u) const { if (!depth) return 1; Inner i(v, depth - 1); return 1 + boost::apply_visitor(i, *v); } };
    void nested(V& v, int) { Inner i(&v, 5); int r = boost::apply_visitor(i, v); CHECK("C09", r == 6, "nested", "nested visitation returned %d", r); }

    // changing the content through a visitor is seen by every observer
    template <class U> struct Setter : boost::static_visitor<bool> { const U* to; bool operator()(U& u) const { assign(u, std::integral_constant<bool, std::is_copy_assignable<U>::value>()); return true; } template <class X> bool operator()(X&) const { return false; }
        void assign(U& u, std::true_type) const { u = *to; } void assign(U&, std::false_type) const {} };
    template <class U> void modify(V& v, int t, long val) {
        U to(Val<U>::make(val)); Setter<U> s; s.to = &to; long c0 = ev().casg;
        bool r = boost::apply_visitor(s, v);
        CHECK("C09", r && v.which() == t, "modify", "modifying visitor did not reach the content");
    }
    // moving the content out of an rvalue variant
    template <class U> struct Taker : boost::static_visitor<bool> { std::vector<U>* out; bool operator()(U&& u) const { out->push_back(std::move(u)); return true; } bool operator()(const U&) const { return false; } template <class X> bool operator()(const X&) const { return false; } };
    template <class U> void take(V& v, int t) {
        std::vector<U> out; Taker<U> tk; tk.out = &out; long c0 = ev().copies;
        bool r = boost::apply_visitor(tk, std::move(v));
        CHECK("C09,C05", r && out.size() == 1 && v.which() == t, "take", "moving visitor did not get an rvalue");
        CHECK("C09,C05", SAME(U, E1) || ev().copies == c0, "take", "rvalue visitation copied the content");
    }
    template <class U> void one(long val) {
        enum { t = IndexOf<U, Ts...>::value };
        { V v(Val<U>::make(val)); visit_all(v, t); }
        { V v(Val<U>::make(val)); modify<U>(v, t, val + 3); visit_all(v, t); }
        { V v(Val<U>::make(val)); take<U>(v, t); }
    }
    void all() { int d[] = { (this->template one<typename Unwrap<Ts>::type>((long)rng.below(1000)), 0)... }; (void)d; }
};
template <class V> struct Backup {
    template <class A, class B> static void run(Run<V>& r, int t) {
        B b(3); V v(A(1));
        if (into_backup<A>(v, 5, b)) { r.visit_all(v, t); V w(v); r.visit_all(w, t); }
    }
};
// ---------------------------------------------------------------- visitor_ptr
struct Traced { static int copies; static const void* from; int n; Traced(int k = 1) : n(k) {} Traced(const Traced& o) : n(o.n) { ++copies; from = &o; } Traced& operator=(const Traced& o) { n = o.n; return *this; } };
int Traced::copies; const void* Traced::from;
template <> struct Val<Traced> { static Traced make(long v) { return Traced((int)v); } };
static int pf_calls; static const void* pf_addr; static long pf_val;
template <class U> long by_cref(const U& u) { ++pf_calls; pf_addr = &u; return 42; }
template <class U> long by_ref(U& u) { ++pf_calls; pf_addr = &u; return 43; }
template <class U> long by_val(U u) { ++pf_calls; return 44; }
template <class U> void v_cref(const U& u) { ++pf_calls; pf_addr = &u; }
template <class U> const U& r_cref(const U& u) { ++pf_calls; pf_addr = &u; return u; }
template <class U> long throws_bv(const U&) { ++pf_calls; Boom b = { 9, 9 }; throw b; }
template <class L> struct PtrRun;
template <class... Ts> struct PtrRun<boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V; const char* lname;
    template <class VI, class VV> void one(const char* what, VI vis, VV& v, bool match, const void* ad, bool check_addr) {
        set_case("%s: visitor_ptr(%s) on which()=%d", lname, what, v.which()); seen("visitor_ptr", shash(lname), shash(what), v.which(), match);
        for (int k = 0; k < 2; ++k) {
            pf_calls = 0; pf_addr = 0; Traced::copies = 0; Traced::from = 0; bool bad = false, other = false;
            try { if (k) { const VI& cv = vis; boost::apply_visitor(cv, v); } else boost::apply_visitor(vis, v); }
            catch (const boost::bad_visit& e) { bad = true; if (!e.what() || !*e.what()) violation("C09,C16", "bad_visit", "no message"); const std::exception& se = e; (void)se; }
            catch (...) { other = true; }
            CHECK("C09", !other, "visitor_ptr", "threw something else");
            CHECK("C09", bad == !match, "visitor_ptr", match ? "bad_visit although the type matches" : "no bad_visit for another type");
            CHECK("C09", pf_calls == (match ? 1 : 0), "visitor_ptr", "function called %d times", pf_calls);
            if (match && check_addr) CHECK("C09", pf_addr == ad, "visitor_ptr", "function did not get the content");
            CHECK("C09", Traced::copies == 0 || (match && !check_addr && Traced::copies == 1 && Traced::from == ad), "visitor_ptr", "the content was copied %d times on its way to the function", Traced::copies);
        }
    }
    template <class X, class U> void ask(V& v) {
        const V& cv = v; const void* ad = content_addr(v); bool m = SAME(X, U);
        one("const T&", boost::visitor_ptr(&by_cref<U>), v, m, ad, true); one("const T&", boost::visitor_ptr(&by_cref<U>), cv, m, ad, true);
        one("T&", boost::visitor_ptr(&by_ref<U>), v, m, ad, true);
        one("T", boost::visitor_ptr(&by_val<U>), v, m, ad, false); one("T", boost::visitor_ptr(&by_val<U>), cv, m, ad, false);
        one("void const T&", boost::visitor_ptr(&v_cref<U>), v, m, ad, true);
        one("const T& -> const T&", boost::visitor_ptr(&r_cref<U>), v, m, ad, true);
        try { pf_calls = 0; boost::apply_visitor(boost::visitor_ptr(&throws_bv<U>), cv); violation("C09", "visitor_ptr", "exception swallowed"); }
        catch (const Boom&) { CHECK("C09", m && pf_calls == 1, "visitor_ptr", "function of another type called"); } catch (const boost::bad_visit&) { CHECK("C09", !m, "visitor_ptr", "bad_visit although the type matches"); }
    }
    template <class X> void content() {
        V v(Val<X>::make(7)); int d[] = { (this->template ask<X, typename Unwrap<Ts>::type>(v), 0)... }; (void)d;
        ask<X, Base>(v); ask<X, double>(v);
    }
    void all() { int d[] = { (this->template content<typename Unwrap<Ts>::type>(), 0)... }; (void)d; }
};

int main(int argc, char** argv) {
    std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], 0, 10) : 1; long reps = argc > 2 ? std::atol(argv[2]) : 3;
    for (long r = 0; r < reps; ++r) {
        std::uint64_t s = seed * 1000 + (std::uint64_t)r;
#define RUN(NAME, ...) do { typedef boost::variant<__VA_ARGS__> V; Run<V> x(NAME, s); x.all(); } while (0)
#define PTR(NAME, ...) do { typedef boost::variant<__VA_ARGS__> V; PtrRun<V> x; x.lname = NAME; x.all(); } while (0)
#if PART == 1
        RUN("instrumented", C1, F1, A1, D1);
        RUN("single", C2);
#elif PART == 2
        RUN("std", int, std::string, std::vector<int>, blank, double);
#elif PART == 3
        RUN("wrapped", recursive_wrapper<C1>, A1, recursive_wrapper<std::string>);
        RUN("move-only", M1, int, A1);
#elif PART == 4
        { typedef boost::variant<C1, C2, E1> V; Run<V> x("throwing", s); x.all(); Backup<V>::run<C1, C2>(x, 0); Backup<V>::run<C2, E1>(x, 1); Backup<V>::run<E1, C1>(x, 2); }
#elif PART == 5
        PTR("ptr-std", int, std::string, Derived); PTR("ptr-traced", int, Traced); PTR("ptr-wrapped", recursive_wrapper<Derived>, Base, int, recursive_wrapper<C1>);
        RUN("tags", Tag<0>, Tag<1>, Tag<2>, Tag<3>, Tag<4>, Tag<5>);
#elif PART == 6
        RUN("nested", boost::variant<A1, std::string>, int, C1);
        RUN("hier", Base, Derived, recursive_wrapper<Tag<1> >);
#endif
    }
    if (reg().n) violation("C03", "leak", "%d objects alive at the end", reg().n);
    finish(); return 0;
}
