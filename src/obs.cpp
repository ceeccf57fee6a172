// C21: a program whose every observation goes into the digest: each constructor, assignment, swap, comparison, hash, stream and visitor
// call the library makes on contents and visitors, in order, and every result. Equal in every supported configuration.
#include "common.hpp"
#include <boost/variant/apply_visitor.hpp>
#include <boost/variant/visitor_ptr.hpp>
#include <boost/functional/hash.hpp>
#include <boost/mpl/vector.hpp>
#include <sstream>
#include <algorithm>
#ifndef PART
#define PART 1
#endif
static bool trace_on = false; static long nev = 0;
static void ev(const char* what, long a = 0, long b = 0, long c = 0) { Outside o; ++nev; count("events"); if (trace_on) std::fprintf(stderr, "%ld %s %ld %ld %ld\n", nev, what, a, b, c); digest().add((long)shash(what)); digest().add(a); digest().add(b); digest().add(c); }
// N: identity; MV: 0 no moves, 1 moves, 2 nothrow moves; SW: own swap; NDC: nothrow default construction
template <int N, int MV, int SW, int NDC> struct EvBase { long v; explicit EvBase(long x) : v(x) {} };
template <int N, int SW, int DF> struct E0 {      // copy only
    long v; explicit E0(long x) : v(x) { ev("value", N, v); } E0(const E0& o) : v(o.v) { ev("copy", N, v); point(); } E0& operator=(const E0& o) { ev("copy=", N, v, o.v); point(); v = o.v; return *this; } ~E0() { ev("~", N, v); }
};
template <int N, int SW, int DF> struct E1 {      // moves that may throw
    long v; E1() : v(0) { ev("default", N); point(); } explicit E1(long x) : v(x) { ev("value", N, v); } E1(const E1& o) : v(o.v) { ev("copy", N, v); point(); } E1(E1&& o) : v(o.v) { ev("move", N, v); point(); o.v = -1; }
    E1& operator=(const E1& o) { ev("copy=", N, v, o.v); point(); v = o.v; return *this; } E1& operator=(E1&& o) { ev("move=", N, v, o.v); point(); long t = o.v; o.v = -2; v = t; return *this; } ~E1() { ev("~", N, v); }
};
template <int N, int SW, int DF> struct E2 {      // nothrow moves
    long v; E2() noexcept(DF == 2) : v(0) { ev("default", N); } explicit E2(long x) : v(x) { ev("value", N, v); } E2(const E2& o) : v(o.v) { ev("copy", N, v); point(); } E2(E2&& o) noexcept : v(o.v) { ev("move", N, v); o.v = -1; }
    E2& operator=(const E2& o) { ev("copy=", N, v, o.v); point(); v = o.v; return *this; } E2& operator=(E2&& o) noexcept { ev("move=", N, v, o.v); long t = o.v; o.v = -2; v = t; return *this; } ~E2() { ev("~", N, v); }
};
template <int N> struct E3 {                      // move only
    long v; explicit E3(long x) : v(x) { ev("value", N, v); } E3(E3&& o) noexcept : v(o.v) { ev("move", N, v); o.v = -1; } E3(const E3&) = delete; E3& operator=(const E3&) = delete; E3& operator=(E3&& o) noexcept { ev("move=", N, v, o.v); long t = o.v; o.v = -2; v = t; return *this; } ~E3() { ev("~", N, v); }
};
#define OPS(TPL, X, N) TPL bool operator==(const X& a, const X& b) { ev("==", N, a.v, b.v); point(); return a.v == b.v; } TPL bool operator<(const X& a, const X& b) { ev("<", N, a.v, b.v); point(); return a.v < b.v; } TPL std::size_t hash_value(const X& a) { ev("hash", N, a.v); point(); return (std::size_t)a.v * 31u + N; } TPL std::ostream& operator<<(std::ostream& o, const X& a) { ev("<<", N, a.v); point(); return o << N << ':' << a.v; }
#define CM ,
OPS(template <int N CM int SW CM int DF>, E0<N CM SW CM DF>, N) OPS(template <int N CM int SW CM int DF>, E1<N CM SW CM DF>, N) OPS(template <int N CM int SW CM int DF>, E2<N CM SW CM DF>, N) OPS(template <int N>, E3<N>, N)
template <int N, int DF> void swap(E0<N,1,DF>& a, E0<N,1,DF>& b) { ev("swap", N, a.v, b.v); point(); std::swap(a.v, b.v); }
template <int N, int DF> void swap(E1<N,1,DF>& a, E1<N,1,DF>& b) { ev("swap", N, a.v, b.v); point(); std::swap(a.v, b.v); }
template <int N, int DF> void swap(E2<N,1,DF>& a, E2<N,1,DF>& b) { ev("swap", N, a.v, b.v); std::swap(a.v, b.v); }
namespace boost { inline std::size_t hash_value(const blank&) { ev("hash", -1); return 17; } }
template <class X> struct Mk { static X make(long v) { return X(v); } }; template <> struct Mk<blank> { static blank make(long) { return blank(); } };
template <class X> long val(const X& x) { return x.v; } inline long val(const blank&) { return -7; } inline long val(int x) { return x; }

// a visitor that logs its own copies and the category of its argument
struct Vis { typedef long result_type; long id; explicit Vis(long i) : id(i) {} Vis(const Vis& o) : id(o.id + 1000) { ev("visitor copy", o.id); } Vis(Vis&& o) : id(o.id + 100) { ev("visitor move", o.id); }
    template <class U> static long cat(U&&) { return std::is_lvalue_reference<U>::value ? std::is_const<typename std::remove_reference<U>::type>::value ? 2 : 1 : std::is_const<U>::value ? 4 : 3; }
    template <class U> long operator()(U&& u) const { ev("visit", id, cat(std::forward<U>(u)), val(u)); point(); return val(u); } template <class U> long operator()(U&& u) { ev("visit nc", id, cat(std::forward<U>(u)), val(u)); point(); return val(u); }
};
struct Vis2 { typedef long result_type; template <class U, class W> long operator()(const U& u, const W& w) const { ev("visit2", val(u), val(w)); point(); return val(u) * 100 + val(w); } template <class U, class W, class Z> long operator()(const U& u, const W& w, const Z& z) const { ev("visit3", val(u), val(w), val(z)); return val(u) + val(w) + val(z); } };
template <class X> void fun(const X& x) { ev("function", val(x)); }

template <class V> struct Obs;
template <class... Ts> struct Obs<boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V; enum { N = sizeof...(Ts) };
    template <class A> static V* mk(long v) { return new V(Mk<typename Unwrap<A>::type>::make(v)); }
    // a fresh variant of the i-th type, without library moves beyond the one construction
    static V* at(int i, long v) { V* r = 0; int k = 0; int d[] = { (k++ == i ? (void)(r = mk<Ts>(v)) : (void)0, 0)... }; (void)d; return r; }
    static void look(const char* what, const V& v) { Outside o; ev(what, v.which(), v.empty()); Vis x(9); ev("value", boost::apply_visitor(x, v)); int d[] = { (ev("get", boost::get<typename Unwrap<Ts>::type>(&v) != 0), 0)... }; (void)d; }
    template <class F> static void run(const char* op, long f, F fn) { ev(op, f); int got = 0; { Inside in; arm(f > 5 ? f - 5 : f, f > 5 ? 2 : 0); try { fn(); } catch (const Injected&) { got = 1; } catch (const std::bad_alloc&) { got = 2; } catch (const boost::bad_visit&) { got = 3; } disarm(); } ev("outcome", got); count(got ? "faults" : "completed"); count("evaluations"); }
    struct P { V* p; explicit P(V* q) : p(q) {} ~P() { Inside in; delete p; } V& operator*() const { return *p; } };
    static void pairs() {
        for (int t = 0; t < N; ++t) for (int u = 0; u < N; ++u) for (long f = 0; f < 11; ++f) for (int op = 0; op < 9; ++op) {
            set_case("op %d, types %d %d, fault %ld", op, t, u, f); seen("pair", op, t, u, f, sizeof(V)); P a(at(t, 5)), b(at(u, 6)); const V& ca = *a; const V& cb = *b; (void)ca; (void)cb;
            switch (op) {
                case 0: cp(f, *a, *b, std::integral_constant<bool, std::is_copy_constructible<typename NthT<0, Ts...>::type>::value>()); break;
                case 1: run("move assign", f, [&] { *a = std::move(*b); }); break;
                case 2: run("swap", f, [&] { (*a).swap(*b); }); break;
                case 3: run("free swap", f, [&] { using std::swap; swap(*a, *b); }); break;
                case 4: run("compare", f, [&] { ev("r", ca == cb); ev("r", ca < cb); ev("r", ca != cb); ev("r", ca > cb); ev("r", ca <= cb); ev("r", ca >= cb); }); break;
                case 5: run("visit2", f, [&] { Vis2 v; ev("r", boost::apply_visitor(v, ca, cb)); ev("r", boost::apply_visitor(v, *a, *b)); ev("r", boost::apply_visitor(v, ca, cb, ca)); }); break;
                case 6: run("move construct", f, [&] { V c(std::move(*a)); look("c", c); }); break;
                case 7: run("self", f, [&] { (*a).swap(*a); ev("r", ca == ca); }); break;
                case 8: run("hash and text", f, [&] { ev("hash", (long)(boost::hash<V>()(ca) == boost::hash<V>()(ca))); Outside o; std::ostringstream os; { Inside i; os << ca; } ev(os.str().c_str()); }); break;
            }
            look("a", *a); look("b", *b);
            // whatever it is now, it goes on working
            run("then swap", 0, [&] { (*a).swap(*b); }); look("a", *a); look("b", *b); run("then move assign", 0, [&] { *b = std::move(*a); }); look("a", *a); look("b", *b);
        }
    }
    static void cp(long, V&, V&, std::false_type) {}
    static void cp(long f, V& a, V& b, std::true_type) { run("copy assign", f, [&] { a = static_cast<const V&>(b); }); run("copy construct", f, [&] { V c(static_cast<const V&>(a)); look("c", c); }); run("own content", f, [&] { a = static_cast<const V&>(a); }); }
    template <class A> static void value(int t) { typedef typename Unwrap<A>::type X;
        for (int u = 0; u < N; ++u) for (long f = 0; f < 11; ++f) { set_case("value %d into %d, fault %ld", t, u, f); seen("value", t, u, f, sizeof(V)); P a(at(u, 5)); X x(Mk<X>::make(8)); run("rvalue assign", f, [&] { *a = std::move(x); }); look("a", *a);
            vcp<X>(f, *a, std::integral_constant<bool, std::is_copy_constructible<X>::value>()); look("a", *a); }
        for (long f = 0; f < 3; ++f) { P a(at(t, 4)); run("visit", f, [&] { Vis v(1); const Vis cv(2); const V& c = *a; ev("r", boost::apply_visitor(v, c)); ev("r", boost::apply_visitor(v, *a)); ev("r", boost::apply_visitor(cv, c)); ev("r", boost::apply_visitor(Vis(3), *a)); ev("r", boost::apply_visitor(Vis(4), c)); ev("r", (*a).apply_visitor(v)); ev("r", boost::apply_visitor(v)(*a)); ev("r", boost::apply_visitor(v)(c)); });
            run("visit rvalue", f, [&] { Vis v(5); ev("r", boost::apply_visitor(v, std::move(*a))); ev("r", boost::apply_visitor(Vis(6), std::move(*a))); }); look("a", *a);
            run("visitor_ptr", f, [&] { boost::apply_visitor(boost::visitor_ptr(&fun<X>), *a); }); run("visitor_ptr", f, [&] { boost::apply_visitor(boost::visitor_ptr(&fun<int>), *a); }); }
    }
    template <class X> static void vcp(long, V&, std::false_type) {}
    template <class X> static void vcp(long f, V& a, std::true_type) { X x(Mk<X>::make(9)); run("value assign", f, [&] { a = static_cast<const X&>(x); }); look("a", a); run("lvalue assign", f, [&] { a = x; }); run("construct", f, [&] { V c(static_cast<const X&>(x)); look("c", c); }); run("construct", f, [&] { V c(x); look("c", c); }); run("construct", f, [&] { V c(std::move(x)); look("c", c); }); }
    template <class Z> static typename std::enable_if<std::is_default_constructible<typename Unwrap<Z>::type>::value>::type dflt() { for (long f = 0; f < 3; ++f) run("default", f, [] { V v; look("d", v); }); }
    template <class Z> static typename std::enable_if<!std::is_default_constructible<typename Unwrap<Z>::type>::value>::type dflt() {}
    static void go(const char* name) { ev(name); ev("index", sizeof...(Ts)); dflt<typename NthT<0, Ts...>::type>(); int t = 0; int d[] = { (value<Ts>(t), ++t)... }; (void)d; pairs(); 
        { std::vector<V> w; for (int i = 0; i < 12; ++i) { V* p = at(i % N, 50 - i); { Inside in; w.push_back(std::move(*p)); } delete p; } { Inside in; std::stable_sort(w.begin(), w.end(), [](const V& a, const V& b) { return a < b; }); } Outside o; for (const V& v : w) look("sorted", v); }
        // conversions
        ev("traits", std::is_nothrow_move_constructible<V>::value, std::is_nothrow_move_assignable<V>::value, std::is_nothrow_default_constructible<V>::value); }
};
// conversions between variants, log of everything
template <class D, class S, class X> void conv(const char* n) {
    for (long f = 0; f < 11; ++f) { ev(n, f); set_case("%s fault %ld", n, f); seen(n, f); X x(Mk<X>::make(3)); S s(x); const S cs(x); typedef Obs<D> O;
        O::run("construct", f, [&] { D d(cs); O::look("d", d); }); O::run("construct", f, [&] { D d(s); O::look("d", d); }); O::run("construct", f, [&] { D d(std::move(s)); O::look("d", d); }); 
        D* t = O::at(1, 7); O::run("assign", f, [&] { *t = cs; }); O::look("t", *t); O::run("assign", f, [&] { *t = std::move(s); }); O::look("t", *t); delete t; }
}
typedef E0<1,0,0> A0; typedef E0<2,1,0> A1; typedef E1<3,0,0> B0; typedef E1<4,1,0> B1; typedef E2<5,0,1> C0; typedef E2<6,1,1> C1; typedef E2<7,0,2> D0; typedef E2<8,1,2> D1; typedef E3<9> M0; typedef E3<10> M1;
int main(int, char**) {
    using boost::variant; trace_on = std::getenv("OBS_TRACE") != 0;
#define G(...) Obs<variant<__VA_ARGS__> >::go(#__VA_ARGS__);
#if 0
#elif PART == 1
    G(A0, B1, C1) G(C0, C1)
#elif PART == 2
    G(D0, B0, A1) G(B1, blank, C0) G(D1)
#elif PART == 3
    G(recursive_wrapper<C1>, B0) G(A1, recursive_wrapper<B1>, C0) G(M0, M1, C0)
#elif PART == 4
    typedef boost::make_variant_over<boost::mpl::vector<B0, D1, C0> >::type S; Obs<variant<C1, D1, B1> >::go("plain");
    conv<variant<A0, C0, B0, D1>, variant<B0, C0>, C0>("sub to super"); conv<variant<C0, recursive_wrapper<B0>, A1>, variant<A1, recursive_wrapper<B0> >, B0>("wrapped"); conv<variant<D1, B0, C0>, variant<B0, D1>, B0>("with fallback"); conv<variant<A0, A1>, variant<A1>, A1>("copy only");
    (void)sizeof(S);
#endif
    if (std::getenv("OBS_TRACE")) std::fprintf(stderr, "%ld events\n", nev);
    finish(); return 0;
}
