// C21: the same histories with exceptions enabled and disabled (-fno-exceptions): nothing throws in them except failing gets, which go
// through boost::throw_exception. Checked against a model of (index, value) pairs; the digests of all observations are compared too.
#include "common.hpp"
#include <boost/functional/hash.hpp>
#include <boost/throw_exception.hpp>
#include <csetjmp>
#include <sstream>
#include <string>
#include <vector>
static std::string g_what;
#ifdef BOOST_NO_EXCEPTIONS
static std::jmp_buf g_jump;
namespace boost {
BOOST_NORETURN void throw_exception(std::exception const& e) { g_what = e.what(); std::longjmp(g_jump, 1); }
BOOST_NORETURN void throw_exception(std::exception const& e, boost::source_location const&) { g_what = e.what(); std::longjmp(g_jump, 1); }
}
template <class F> bool fails(F& f) { g_what.clear(); in_sut() = 0; if (setjmp(g_jump) == 0) { f(); return false; } in_sut() = 0; return true; }
#else
template <class F> bool fails(F& f) { g_what.clear(); try { f(); return false; } catch (const std::exception& e) { g_what = e.what(); return true; } }
#endif
template <class X> struct Val { static X make(long v) { return X(v); } static long val(const X& x) { return x.get(); } };
template <> struct Val<int> { static int make(long v) { return (int)v; } static long val(int x) { return x; } };
template <> struct Val<std::string> { static std::string make(long v) { return std::to_string(v); } static long val(const std::string& s) { return std::stol(s.empty() ? "-5" : s); } };
template <class X> struct Un { typedef X type; }; template <class X> struct Un<recursive_wrapper<X> > { typedef X type; };
struct Value : boost::static_visitor<long> { template <class X> long operator()(const X& x) const { return Val<X>::val(x); } template <class X, class Y> long operator()(const X& x, const Y& y) const { return Val<X>::val(x) * 3 + Val<Y>::val(y); } template <class X, class Y, class Z> long operator()(const X& x, const Y& y, const Z& z) const { return Val<X>::val(x) * 9 + Val<Y>::val(y) * 3 + Val<Z>::val(z); } };
template <class... Ts> struct Run {
    typedef boost::variant<Ts...> V; enum { N = sizeof...(Ts), POOL = 4 };
    struct M { int w; long v; };
    template <class X> static void put(V& v, long x, int how) { typedef typename Un<X>::type U; U u(Val<U>::make(x)); Inside in; if (how == 0) v = static_cast<const U&>(u); else if (how == 1) v = std::move(u); else { V t(std::move(u)); if (how == 2) v = t; else v.swap(t); } }
    template <class X> static long norm(long x) { typedef typename Un<X>::type U; return Val<U>::val(Val<U>::make(x)); }
    template <class X> struct Bad { const V* v; long got; void operator()() { Inside in; got = Val<X>::val(boost::get<X>(*v)); } }; template <class X> struct BadP { V* v; long got; void operator()() { Inside in; got = Val<X>::val(boost::polymorphic_get<X>(*v)); } };
    template <class X> static void look(V& v, const M& m, int i) {
        typedef typename Un<X>::type U; const V& c = v; const U* p = boost::get<U>(&c); CHECK("C21,C07", (p != 0) == (m.w == i), "get", "get of type %d on type %d", i, m.w); if (p) CHECK("C21,C04", Val<U>::val(*p) == m.v, "value", "holds %ld, expected %ld", Val<U>::val(*p), m.v);
        Bad<U> b = { &c, 0 }; bool f = fails(b); CHECK("C21,C07", f == (m.w != i) && (f ? g_what.find("bad_get") != std::string::npos : b.got == m.v), "get-reference", "reference get of type %d on type %d: failed %d (%s)", i, m.w, (int)f, g_what.c_str());
        BadP<U> q = { &v, 0 }; f = fails(q); CHECK("C21,C08", f == (m.w != i) && (f ? g_what.find("bad_polymorphic_get") != std::string::npos : q.got == m.v), "polymorphic-get", "polymorphic get of type %d on type %d: failed %d (%s)", i, m.w, (int)f, g_what.c_str()); digest().add((std::uint64_t)f * 7 + (std::uint64_t)i);
    }
    static void check(V* p, const M* m, const char* op) {
        typedef void (*L)(V&, const M&, int); static const L looks[] = { &Run::template look<Ts>... };
        for (int i = 0; i < POOL; ++i) { CHECK("C21,C01", p[i].which() == m[i].w, "which", "%s: type %d, expected %d", op, p[i].which(), m[i].w); if (p[i].which() != m[i].w) return; Value vis; CHECK("C21,C04", boost::apply_visitor(vis, p[i]) == m[i].v, "value", "%s: %ld, expected %ld", op, boost::apply_visitor(vis, p[i]), m[i].v); for (int k = 0; k < N; ++k) looks[k](p[i], m[i], k); digest().add((std::uint64_t)(m[i].w * 100003 + m[i].v)); }
    }
    static void go(const char* name, std::uint64_t seed, int histories, int steps) {
        typedef void (*P)(V&, long, int); static const P puts[] = { &Run::template put<Ts>... }; typedef long (*Nm)(long); static const Nm norms[] = { &Run::template norm<Ts>... };
        for (int h = 0; h < histories; ++h) {
            Rng rng(seed * 7919 + (std::uint64_t)h); long live0 = reg().n; set_case("%s: history %d", name, h); count("histories");
            { V p[POOL]; M m[POOL]; for (int i = 0; i < POOL; ++i) { int t = (int)rng.below(N); long v = 1 + (long)rng.below(500); puts[t](p[i], v, (int)rng.below(4)); m[i].w = t; m[i].v = norms[t](v); }
            for (int s = 0; s < steps && !case_bad(); ++s) {
                int op = (int)rng.below(8), a = (int)rng.below(POOL), b = (int)rng.below(POOL), t = (int)rng.below(N), how = (int)rng.below(4); long v = 1 + (long)rng.below(500); add_case(" %d(%d %d %d %ld)", op, a, b, t, v); count("ops"); seen(name, op, m[a].w, m[b].w, t, how);
                switch (op) {
                case 0: case 1: puts[t](p[a], v, how); m[a].w = t; m[a].v = norms[t](v); break;
                case 2: { Inside in; p[a] = static_cast<const V&>(p[b]); } m[a] = m[b]; break;
                case 3: { Inside in; V c(p[b]); V d(std::move(c)); p[a] = std::move(d); } m[a] = m[b]; break;
                case 4: { Inside in; p[a].swap(p[b]); } { M x = m[a]; m[a] = m[b]; m[b] = x; } break;
                case 5: { bool e, l; { Inside in; e = p[a] == p[b]; l = p[a] < p[b]; } CHECK("C21,C11", e == (m[a].w == m[b].w && m[a].v == m[b].v) , "equal", "== is %d", (int)e); if (m[a].w != m[b].w) CHECK("C21,C11", l == (m[a].w < m[b].w), "less", "< is %d", (int)l); digest().add((std::uint64_t)e * 2 + l); break; }
                case 6: { Value vis; long r2, r3; { Inside in; r2 = boost::apply_visitor(vis, p[a], p[b]); r3 = boost::apply_visitor(vis, p[a], p[b], p[t % POOL]); } CHECK("C21,C10", r2 == m[a].v * 3 + m[b].v && r3 == m[a].v * 9 + m[b].v * 3 + m[t % POOL].v, "visit", "multi-visitation gave %ld %ld", r2, r3); break; }
                case 7: { std::size_t x, y; { Inside in; x = boost::hash<V>()(p[a]); y = boost::hash<V>()(p[b]); } CHECK("C21,C12", !(m[a].w == m[b].w && m[a].v == m[b].v) || x == y, "hash", "equal variants, different hashes"); std::ostringstream os; { Inside in; os << p[a]; } for (char ch : os.str()) digest().add((std::uint64_t)(unsigned char)ch); break; }
                }
                check(p, m, "step");
            } }
            CHECK("C21,C03", reg().n == live0, "leak", "%ld contents alive", (long)reg().n - live0);
        }
    }
};
int main(int argc, char** argv) {
    std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], 0, 10) : 1; int n = argc > 2 ? std::atoi(argv[2]) : 20;
    Run<int, T<1,0,1,1>, T<2,0,1,1,24>, std::string>::go("fallback", seed, n, 40);
    Run<T<3,1,1,1>, T<4,0,1,0>, T<5,0,2,2> >::go("no fallback", seed, n, 40);
    Run<T<6,1,1,0>, recursive_wrapper<T<7,0,1,1> >, T<8,0,1,2>, T<9,0,2,1> >::go("wrapped", seed, n, 40);
    Run<T<10,2,1,1>, T<1,0,1,1>, recursive_wrapper<std::string>, int>::go("fallback first", seed, n, 40);
    finish(); return 0;
}
