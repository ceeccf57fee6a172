// C01, C02, C14: what default construction and the fallback leave behind, in storage full of other bytes.
#include "common.hpp"
#include <boost/mpl/vector.hpp>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
#ifndef PART
#define PART 1
#endif
enum En { e0, e1 = 7 }; struct Agg { int a; char b; double c; void* d; }; struct Deep { Agg x[2]; int y; }; struct NoUser { int a; std::string s; short b; };   // implicit constructors only
struct Bits { unsigned a : 3, b : 13; long c; }; struct Der : Agg { int z; }; struct Mem { int Agg::*p; void (Agg::*f)(); }; union Un { long l; char c[8]; }; struct Def { int a; double b; Def() = default; };
struct User { int a; User() : a(41) {} };
template <class X> struct Z { static bool ok(const X& x) { return x == X(); } };
template <> struct Z<Agg> { static bool ok(const Agg& x) { return x.a == 0 && x.b == 0 && x.c == 0 && x.d == 0; } };
template <> struct Z<Deep> { static bool ok(const Deep& x) { return Z<Agg>::ok(x.x[0]) && Z<Agg>::ok(x.x[1]) && x.y == 0; } };
template <> struct Z<NoUser> { static bool ok(const NoUser& x) { return x.a == 0 && x.s.empty() && x.b == 0; } };
template <> struct Z<Bits> { static bool ok(const Bits& x) { return x.a == 0 && x.b == 0 && x.c == 0; } };
template <> struct Z<Der> { static bool ok(const Der& x) { return Z<Agg>::ok(x) && x.z == 0; } };
template <> struct Z<Mem> { static bool ok(const Mem& x) { return x.p == 0 && x.f == 0; } };
template <> struct Z<Un> { static bool ok(const Un& x) { return x.l == 0; } };
template <> struct Z<Def> { static bool ok(const Def& x) { return x.a == 0 && x.b == 0; } };
template <> struct Z<User> { static bool ok(const User& x) { return x.a == 41; } };
template <> struct Z<blank> { static bool ok(const blank&) { return true; } };
template <int N, int D, int C, int M, int P> struct Z<T<N, D, C, M, P> > { static bool ok(const T<N, D, C, M, P>& x) { return x.get() == 0 && x.pad_ok(); } };
template <class A, class B> struct Z<boost::variant<A, B> > { static bool ok(const boost::variant<A, B>& x) { typedef typename Unwrap<A>::type X; return x.which() == 0 && boost::get<X>(&x) && Z<X>::ok(boost::get<X>(x)); } };

template <class V, class X> void judge(const char* name, const char* how, V& v) {
    const V& c = v; set_case("%s: %s", name, how); seen(name, shash(how), sizeof(V));
    CHECK("C01,C14", c.which() == 0, how, "which() is %d", c.which());
    CHECK("C01", !c.empty(), how, "empty"); CHECK("C01", c.type() == boost::typeindex::type_id<X>().type_info(), how, "type() is %s", c.type().name());
    const X* p = boost::get<X>(&c); CHECK("C01,C07", p != 0, how, "get finds no content of the first type");
    if (p) { CHECK("C01,C14,C19", Z<X>::ok(*p), how, "content of %s is not value-initialized", name); CHECK("C01", content_addr(c) == (const void*)&reinterpret_cast<const char&>(*p), how, "visitation reaches another object"); }
}
template <class V> struct Room { alignas(alignof(V)) unsigned char b[sizeof(V) * 3]; V* at(int i) { return reinterpret_cast<V*>(b + sizeof(V) * (unsigned)i); } void fill(int k) { unsigned char x[] = { 0xAB, 0xFF, 0x01, 0x80, 0x55 }; for (std::size_t i = 0; i < sizeof b; ++i) b[i] = k < 5 ? x[k] : (unsigned char)(i * 37 + (unsigned)k); } };
template <class V> struct First; template <class A, class... R> struct First<boost::variant<A, R...> > { typedef typename Unwrap<A>::type type; };
template <class V, class X> void dflt(const char* name, long reps) {
    std::unique_ptr<Room<V> > room(new Room<V>);
    for (int k = 0; k < 5 + reps; ++k) {
        room->fill(k); { V* p = new (room->at(1)) V(); judge<V, X>(name, "V()", *p); p->~V(); }
        room->fill(k); { V* p = new (room->at(1)) V; judge<V, X>(name, "new V", *p); p->~V(); }
        room->fill(k); { V* p = new (room->at(1)) V{}; judge<V, X>(name, "V{}", *p); p->~V(); }
        { struct Holder { char c; V v; V w[2]; Holder() : c('x'), v() {} }; std::unique_ptr<Holder> h(new Holder); judge<V, X>(name, "member", h->v); judge<V, X>(name, "array member", h->w[0]); judge<V, X>(name, "array member", h->w[1]); }
        { std::unique_ptr<V[]> a(new V[4]); for (int i = 0; i < 4; ++i) judge<V, X>(name, "new V[4]", a[(std::size_t)i]); }
    }
}
template <class V, class X> void more(const char* name) {
    std::deque<V> d; d.resize(7); for (V& v : d) judge<V, X>(name, "deque", v); std::vector<V> w(5); for (V& v : w) judge<V, X>(name, "vector", v); std::map<int, V> m; judge<V, X>(name, "map", m[3]); judge<V, X>(name, "map", m[4]);
    // a default constructed variant works like any other
    { V a, b; { V c(static_cast<const V&>(a)); judge<V, X>(name, "copy of default", c); V m(std::move(c)); judge<V, X>(name, "move of default", m); } a = b; judge<V, X>(name, "assigned default", a); a.swap(b); judge<V, X>(name, "swapped default", a); judge<V, X>(name, "swapped default", b); a = V(); judge<V, X>(name, "V() assigned", a); }
}
// the same first type in several surroundings
template <class X> void first(const char* name, long reps) {
    dflt<boost::variant<X>, X>(name, reps); more<boost::variant<X, std::string>, X>(name); dflt<boost::variant<X, T<3, 0, 1, 1>, T<4, 0, 1, 0, 40> >, X>(name, reps);
    dflt<boost::variant<recursive_wrapper<X>, char>, X>(name, reps); typedef boost::mpl::vector<X, T<5, 0, 1, 2>, std::vector<int> > Seq; dflt<typename boost::make_variant_over<Seq>::type, X>(name, reps);
    dflt<typename boost::make_recursive_variant<X, std::vector<boost::recursive_variant_> >::type, X>(name, reps);
    set_case("%s: recursive_wrapper alone", name); for (int i = 0; i < 3; ++i) { recursive_wrapper<X> w; CHECK("C14", Z<X>::ok(w.get()), "wrapper", "default constructed recursive_wrapper<%s> is not value-initialized", name); recursive_wrapper<X> c(w), m(std::move(w)); CHECK("C14", Z<X>::ok(c.get()) && Z<X>::ok(m.get()), "wrapper", "copy or move of it is not"); }
}
// after a failed assignment, the fallback is value-initialized although the storage was used by something else
typedef T<1, 0, 1, 1, 64> C1; typedef T<2, 0, 1, 0, 48> C2;
template <class X, class V> void fb(const char* name, int idx) {
    for (int sticky = 0; sticky < 3; sticky += 2) for (long n = 1; n < 4; ++n) for (int mode = 0; mode < 6; ++mode) {
        V v(C1(77)); C2 c(5); V s(c); bool threw = false; set_case("%s: fallback, fault %ld, assignment %d", name, n, mode); seen("fallback", shash(name), n, mode, sizeof(V));
        { Inside in; arm(n, sticky); try { switch (mode) { case 0: v = c; break; case 1: v = static_cast<const V&>(s); break; case 2: v = std::move(s); break; case 3: v = std::move(c); break; case 4: v.swap(s); break; case 5: v = V(C2(c)); break; } } catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } disarm(); } fault_ctx() = false;
        if (!threw) continue;
        count("fallbacks");
        if (const C1* p = boost::get<C1>(&v)) { CHECK("C02", p->get() == 77 || (mode == 4 && p->get() == MOVED), "kept", "the value kept is %ld", p->get()); continue; }
        if (const C2* p = boost::get<C2>(&v)) { CHECK("C02", mode == 4 && p->get() >= MOVED, "kept", "new type after a failure"); continue; }
        const X* p = boost::get<X>(&v); CHECK("C02,C01", p && v.which() == idx && v.type() == boost::typeindex::type_id<X>().type_info(), "fallback", "after a failed assignment the variant holds type %d, not its fallback type %d", v.which(), idx);
        if (p) { CHECK("C02,C01", Z<X>::ok(*p), "fallback-value", "the fallback %s is not value-initialized", name); count("fallbacks_checked"); }
    }
}
template <class X> void fallbacks(const char* name) { fb<X, boost::variant<C1, C2, X> >(name, 2); fb<X, boost::variant<X, C1, C2> >(name, 0); fb<X, boost::variant<C1, X, C2, T<9, 2, 1, 1> > >(name, 1); fb<X, boost::variant<T<8, 1, 1, 1>, C1, C2, X, char> >(name, 3); }
int main(int argc, char** argv) {
    long reps = argc > 2 ? std::atol(argv[2]) : 1;
#define F(X) first<X>(#X, reps);
#define B(X) fallbacks<X>(#X);
    typedef int Agg::*PM; typedef void (*FP)(int); typedef boost::variant<Agg, int> VV; typedef boost::variant<recursive_wrapper<int>, char> VW; typedef std::pair<int, double> Pr; typedef std::vector<int> Vi; typedef std::shared_ptr<int> Sp; typedef T<20, 1, 1, 1, 8> TT; typedef T<21, 2, 2, 2> TN; typedef T<22, 1, 0, 2> TM; typedef unsigned char UC; typedef const char* CS; typedef long long LL;
#if 0
#elif PART == 1
    F(int) F(bool) F(UC) F(double) F(En) F(CS)
#elif PART == 2
    F(Agg) F(Deep) F(NoUser) F(Bits) F(Der)
#elif PART == 3
    F(Vi) F(VV) F(VW) F(TT) F(TN) { dflt<boost::variant<TM, std::unique_ptr<int> >, TM>("move-only", 1); }
#elif PART == 5
    F(PM) F(FP) F(LL) F(Pr) F(blank)
#elif PART == 6
    F(Mem) F(Un) F(Def) F(User) F(Sp) F(float)
#elif PART == 4
    B(int) B(bool) B(double) B(En) B(CS) B(PM) B(FP)
#elif PART == 7
    B(Agg) B(Deep) B(Bits) B(Der) B(Mem) B(Un) B(Def) B(LL) B(TN)
    fb<blank, boost::variant<C1, int, C2, blank> >("blank", 3); fb<blank, boost::variant<blank, C1, C2, int> >("blank", 0); fb<blank, boost::variant<C1, C2, Agg, char, blank, double> >("blank", 4);
#endif
    if (reg().n) violation("C03", "leak", "%d objects alive at the end", reg().n);
    finish(); return 0;
}
