// C04/C05: right-hand sides that are parts of the variant's own content, and variants as elements of standard containers and algorithms, against plain models.
#include "common.hpp"
#include <algorithm>
#include <boost/functional/hash.hpp>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#ifndef PART
#define PART 1
#endif
template <class P> struct HoldOf {   // a content with parts of type P: a member, array elements, elements of a vector, a heap object, a base
    P p; std::vector<P> ps; P arr[2]; std::shared_ptr<P> sp; long k; T<99,0,1,1> guard;
    explicit HoldOf(long v) : p(v), arr{P(v + 10), P(v + 11)}, sp(std::make_shared<P>(v + 20)), k(v), guard(v) { for (int i = 0; i < 3; ++i) ps.push_back(P(v + 30 + i)); }
    long get() const { guard.get(); return k; }
};
template <class P> bool operator==(const HoldOf<P>& a, const HoldOf<P>& b) { return a.k == b.k; } template <class P> bool operator<(const HoldOf<P>& a, const HoldOf<P>& b) { return a.k < b.k; }
template <class P> struct DerivedOf : P { T<98,0,1,1> guard; explicit DerivedOf(long v) : P(v), guard(v) {} };   // the part is a base
struct Val : boost::static_visitor<long> { template <class U> long operator()(const U& u) const { return u.get(); } };
template <class V> long value(const V& v) { Val x; return boost::apply_visitor(x, v); }
template <class P, class V> void expect(const V& v, long val, const char* how, int st) { const P* p = boost::get<P>(&v); CHECK("C04,C05,C03", p && p->get() == val, "own-part", "%s (state %d): the variant holds %s %ld, not the part's value %ld", how, st, p ? "the type but value" : "another type, index", p ? p->get() : (long)v.which(), val); }

template <class V, class H, class P, class Other> void parts(const char* name) {
    for (int st = 0; st < 2; ++st) for (long k = 100; k < 400; k += 100) {
        struct Mk { static V* make(int st, long k, bool& ok) { V* v = new V(H(k)); ok = true; if (st == 1) { Other o(1); ok = into_backup<H>(*v, k, o); } return v; } };
        bool ok; std::unique_ptr<V> h;
#define PARTS_CASE(how, rhs, want) { h.reset(Mk::make(st, k, ok)); if (ok) { set_case("%s: " how ", state %d", name, st); seen(name, shash(how), st, k); V& v = *h; H& c = boost::get<H>(v); (void)c; { Inside in; v = rhs; } expect<P>(v, want, how, st); V w(v); expect<P>(w, want, how " and copy", st); count("own_parts"); } h.reset(); }
        PARTS_CASE("const member", static_cast<const P&>(c.p), k) PARTS_CASE("member", c.p, k) PARTS_CASE("moved member", std::move(c.p), k)
        PARTS_CASE("const vector element", static_cast<const P&>(c.ps[2]), k + 32) PARTS_CASE("vector element", c.ps[0], k + 30) PARTS_CASE("moved vector element", std::move(c.ps[1]), k + 31)
        PARTS_CASE("const array element", static_cast<const P&>(c.arr[1]), k + 11) PARTS_CASE("array element", c.arr[0], k + 10) PARTS_CASE("moved array element", std::move(c.arr[1]), k + 11)
        PARTS_CASE("const heap part", static_cast<const P&>(*c.sp), k + 20) PARTS_CASE("moved heap part", std::move(*c.sp), k + 20) PARTS_CASE("variant made of a part", V(c.p), k)
        // constructing from a part leaves the owner alone
        h.reset(Mk::make(st, k, ok)); if (ok) { set_case("%s: construction from a part", name); const V c(*h); V n(boost::get<H>(*h).ps[1]); expect<P>(n, k + 31, "construction from a part", st); CHECK("C04", boost::get<H>(&*h) && value(*h) == k && boost::get<H>(*h).ps[1].get() == k + 31, "owner", "constructing from a part changed the owner"); V m(boost::get<H>(c).arr[0]); expect<P>(m, k + 10, "construction from a const part", st);
            *h = *h; CHECK("C04", value(*h) == k && boost::get<H>(*h).ps.size() == 3 && boost::get<H>(*h).sp, "self", "self-assignment changed the content"); V& al = *h; al = boost::get<H>(*h); CHECK("C04", value(*h) == k && boost::get<H>(*h).ps.size() == 3, "own-content", "assigning the own content changed it"); swap(*h, *h); CHECK("C04", value(*h) == k && boost::get<H>(*h).ps.size() == 3, "self-swap", "self-swap changed the content"); }
    }
}
template <class V, class D, class P> void bases(const char* name) { for (long k = 5; k < 8; ++k) { set_case("%s: base of the own content", name); seen(name, k);
    { V v((D(k))); const P& p = boost::get<D>(v); v = p; expect<P>(v, k, "const base subobject", 0); } { V v((D(k))); P& p = boost::get<D>(v); v = p; expect<P>(v, k, "base subobject", 0); } { V v((D(k))); P& p = boost::get<D>(v); v = std::move(p); expect<P>(v, k, "moved base subobject", 0); } } }

// containers: a sequence of variants against a sequence of (index, value)
typedef std::pair<int, long> M;
template <class V, class... Ts> struct MakeV { typedef V (*F)(long); static V at(int i, long v) { static const F f[] = { &one<Ts>... }; return f[i](v); } template <class A> static V one(long v) { return V(typename Unwrap<A>::type(v)); } };
template <class V> M obs(const V& v) { return M(v.which(), value(v)); }
template <class V, class C> void same(const C& c, const std::vector<M>& m, const char* op) { CHECK("C04", c.size() == m.size(), "container-size", "%s: %d elements for %d", op, (int)c.size(), (int)m.size()); std::size_t i = 0; for (typename C::const_iterator it = c.begin(); it != c.end() && i < m.size(); ++it, ++i) { M o = obs(*it); CHECK("C04,C05,C01", o == m[i], "container-element", "%s: element %d is (%d, %ld), the model has (%d, %ld)", op, (int)i, o.first, o.second, m[i].first, m[i].second); if (o != m[i]) return; } }
template <class V> struct ContainerOf; 
template <class... Ts> struct ContainerOf<boost::variant<Ts...> > { typedef boost::variant<Ts...> V; typedef MakeV<V, Ts...> K;
  template <class C> static void go(const char* name, Rng& r, int steps) {
    long live0 = reg().n; { C c; std::vector<M> m;
    for (int s = 0; s < steps; ++s) { int op = (int)r.below(18); int t = (int)r.below(sizeof...(Ts)); long v = (long)r.below(40); std::size_t n = m.size(), a = n ? r.below((unsigned)n) : 0, b = n ? r.below((unsigned)n) : 0; set_case("%s: step %d op %d size %d at %d %d", name, s, op, (int)n, (int)a, (int)b); seen(name, op, n < 6 ? n : 6, n ? m[a].first : -1, n ? m[b].first : -1); count("ops");
        switch (op) {
        case 0: case 1: if (n < 40) { c.push_back(K::at(t, v)); m.push_back(M(t, v)); } break;
        case 2: if (n && n < 40) { c.push_back(c[a]); M x = m[a]; m.push_back(x); } break;                         // an element of itself
        case 3: if (n && n < 40) { c.insert(c.begin() + (long)a, c[b]); M x = m[b]; m.insert(m.begin() + (long)a, x); } break;
        case 4: if (n) { c.erase(c.begin() + (long)a); m.erase(m.begin() + (long)a); } break;
        case 5: std::sort(c.begin(), c.end()); std::sort(m.begin(), m.end()); break;
        case 6: std::stable_sort(c.begin(), c.end(), std::greater<V>()); std::stable_sort(m.begin(), m.end(), std::greater<M>()); break;
        case 7: std::reverse(c.begin(), c.end()); std::reverse(m.begin(), m.end()); break;
        case 8: if (n) { std::rotate(c.begin(), c.begin() + (long)a, c.end()); std::rotate(m.begin(), m.begin() + (long)a, m.end()); } break;
        case 9: if (n) { c[a] = c[b]; M x = m[b]; m[a] = x; } break;
        case 10: if (n && a != b) { c[a] = std::move(c[b]); c[b] = K::at(t, v); m[a] = m[b]; m[b] = M(t, v); } break;
        case 11: if (n) { std::swap(c[a], c[b]); std::swap(m[a], m[b]); } break;
        case 12: if (n) { c[a].swap(c[b]); std::swap(m[a], m[b]); } break;
        case 13: c.erase(std::unique(c.begin(), c.end()), c.end()); m.erase(std::unique(m.begin(), m.end()), m.end()); break;
        case 14: { C d(c); same<V>(d, m, "copy of the container"); C e(std::move(c)); c = d; same<V>(e, m, "move of the container"); if (n) { d[a] = K::at(t, v + 50); } same<V>(c, m, "copy is independent"); } break;
        case 15: { V x(K::at(t, v)); c.erase(std::remove(c.begin(), c.end(), x), c.end()); m.erase(std::remove(m.begin(), m.end(), M(t, v)), m.end()); } break;
        case 16: std::make_heap(c.begin(), c.end()); std::sort_heap(c.begin(), c.end()); std::sort(m.begin(), m.end()); break;
        case 17: { std::multiset<V> q(c.begin(), c.end()); std::multiset<M> w(m.begin(), m.end()); C d(q.begin(), q.end()); std::vector<M> y(w.begin(), w.end()); same<V>(d, y, "multiset"); V x(K::at(t, v)); CHECK("C11,C04", q.count(x) == w.count(M(t, v)), "set-count", "count in a set of variants");
            std::unordered_multiset<V, boost::hash<V> > u(c.begin(), c.end()); CHECK("C12", u.count(x) == w.count(M(t, v)), "hash-count", "count in a hash set of variants: %d for %d", (int)u.count(x), (int)w.count(M(t, v))); std::map<V, long> mp; std::map<M, long> mm; for (std::size_t i = 0; i < n; ++i) { mp[c[i]] += (long)i; mm[m[i]] += (long)i; } bool eq = mp.size() == mm.size(); std::map<M, long>::iterator z = mm.begin(); for (typename std::map<V, long>::iterator i = mp.begin(); eq && i != mp.end(); ++i, ++z) eq = obs(i->first) == z->first && i->second == z->second; CHECK("C11,C04", eq, "map", "map keyed by variants differs from the model"); } break;
        }
        same<V>(c, m, "step"); if (case_bad()) break; }
    } CHECK("C03", reg().n == live0, "container-leak", "%d contents alive after the container", (int)(reg().n - live0)); }
  static void run(const char* name, long seed, int n) { for (int i = 0; i < n && !case_bad(); ++i) { Rng r((std::uint64_t)(seed * 1000 + i)); if (i % 2) go<std::vector<V> >(name, r, 120); else go<std::deque<V> >(name, r, 120); count("histories"); } }
};
using boost::variant;
int main(int argc, char** argv) {
    long seed = argc > 1 ? std::atol(argv[1]) : 1; int n = argc > 2 ? std::atoi(argv[2]) : 30;
    typedef T<1,0,1,1> A; typedef T<2,0,2,2> B; typedef T<3,2,1,2,8> C; typedef T<4,0,1,2> D; typedef T<5,0,2,1> E; typedef T<6,0,1,0> F; (void)n; (void)seed;
#if PART == 1
    parts<variant<HoldOf<A>, A, B>, HoldOf<A>, A, A>("throwing part"); parts<variant<B, HoldOf<B>, A>, HoldOf<B>, B, A>("nothrow part"); parts<variant<HoldOf<C>, C>, HoldOf<C>, C, C>("fallback part");
#elif PART == 2
    parts<variant<A, recursive_wrapper<HoldOf<A> > >, HoldOf<A>, A, A>("wrapped holder, throwing part"); parts<variant<recursive_wrapper<HoldOf<B> >, B, A>, HoldOf<B>, B, A>("wrapped holder, nothrow part"); parts<variant<HoldOf<A>, recursive_wrapper<A>, B>, HoldOf<A>, A, A>("wrapped throwing part"); parts<variant<recursive_wrapper<HoldOf<B> >, recursive_wrapper<B>, A>, HoldOf<B>, B, A>("both wrapped");
#elif PART == 3
    parts<variant<HoldOf<D>, D>, HoldOf<D>, D, D>("nothrow move part"); parts<variant<HoldOf<E>, E>, HoldOf<E>, E, E>("nothrow copy, throwing move part"); parts<variant<F, HoldOf<F> >, HoldOf<F>, F, F>("copy-only part");
    bases<variant<DerivedOf<A>, A>, DerivedOf<A>, A>("derived, throwing"); bases<variant<B, DerivedOf<B> >, DerivedOf<B>, B>("derived, nothrow"); bases<variant<DerivedOf<D>, recursive_wrapper<D> >, DerivedOf<D>, D>("derived, wrapped base");
    // built-in and library contents
    for (int k = 0; k < 20; ++k) { set_case("library contents %d", k); seen("library", k); typedef variant<std::string, int, std::vector<std::string> > V;
        std::string lng((std::size_t)(k * 7 + 1), 'a' + k); std::vector<std::string> vs; vs.push_back("x"); vs.push_back(lng); vs.push_back("y");
        { V v(vs); v = boost::get<std::vector<std::string> >(v)[1]; CHECK("C04", boost::get<std::string>(&v) && boost::get<std::string>(v) == lng, "own-part-string", "element of the own vector of strings"); }
        { V v(vs); v = std::move(boost::get<std::vector<std::string> >(v)[1]); CHECK("C04,C05", boost::get<std::string>(&v) && boost::get<std::string>(v) == lng, "own-part-string", "moved element of the own vector of strings"); }
        { V v(vs); v = boost::get<std::vector<std::string> >(v)[1].c_str(); CHECK("C04", boost::get<std::string>(&v) && boost::get<std::string>(v) == lng, "own-part-cstr", "characters of the own vector of strings"); }
        { V v(lng); v = boost::get<std::string>(v).c_str(); CHECK("C04", boost::get<std::string>(&v) && boost::get<std::string>(v) == lng, "own-part-cstr", "characters of the own string"); v = boost::get<std::string>(v); CHECK("C04", boost::get<std::string>(v) == lng, "own-string", "own string"); v = (int)boost::get<std::string>(v)[0]; CHECK("C04", boost::get<int>(&v) && boost::get<int>(v) == 'a' + k, "own-char", "character of the own string"); v = boost::get<int>(v); v = boost::get<int>(v) + 1; CHECK("C04", boost::get<int>(v) == 'b' + k, "own-int", "own int"); }
        struct Q { int a[4]; double d; }; typedef variant<Q, int, double> W; Q q = { { k, k + 1, k + 2, k + 3 }, k + 0.5 }; for (int i = 0; i < 4; ++i) { W v(q); v = boost::get<Q>(v).a[i]; CHECK("C04", boost::get<int>(&v) && boost::get<int>(v) == k + i, "own-part-int", "int of the own aggregate"); W w(q); w = std::move(boost::get<Q>(w).a[i]); CHECK("C04", boost::get<int>(&w) && boost::get<int>(w) == k + i, "own-part-int", "moved int of the own aggregate"); } { W v(q); v = boost::get<Q>(v).d; CHECK("C04", boost::get<double>(&v) && boost::get<double>(v) == k + 0.5, "own-part-double", "double of the own aggregate"); }
        typedef variant<std::shared_ptr<int>, int> S; { S v(std::make_shared<int>(k)); v = *boost::get<std::shared_ptr<int> >(v); CHECK("C04", boost::get<int>(&v) && boost::get<int>(v) == k, "own-part-pointee", "object owned by the own content"); } }
#elif PART == 4
    ContainerOf<variant<A, B, C> >::run("sequence of mixed", seed, n); ContainerOf<variant<A, F> >::run("sequence of throwing", seed, n); ContainerOf<variant<B, D, E> >::run("sequence of nothrow moves", seed, n);
#else
    ContainerOf<variant<recursive_wrapper<A>, B> >::run("sequence of wrapped", seed, n); ContainerOf<variant<recursive_wrapper<D>, recursive_wrapper<F>, E> >::run("sequence of wrapped 2", seed, n); ContainerOf<variant<C> >::run("sequence of single", seed, n);
#endif
    CHECK("C03", reg().n == 0, "leak", "%d contents alive at the end", (int)reg().n);
    finish(); return 0;
}
