// C18: variants over reference types: identity of the referred-to object, shared changes, no copies, no destruction.
#include "common.hpp"
#include <boost/functional/hash.hpp>
#include <sstream>
#include <string>
typedef T<1,0,1,1> O1; typedef T<2,0,1,2> O2; typedef T<3,2,1,0,8> O3;
struct Bs { long v; virtual ~Bs() {} explicit Bs(long x) : v(x) {} bool operator==(const Bs& o) const { return v == o.v; } bool operator<(const Bs& o) const { return v < o.v; } private: Bs(const Bs&); Bs& operator=(const Bs&); };   // cannot be copied at all
struct Dv : Bs { char pad[40]; explicit Dv(long x) : Bs(x) {} }; struct Pad2 { long z; virtual ~Pad2() {} Pad2() : z(1) {} }; struct Dm : Pad2, Bs { explicit Dm(long x) : Bs(x) {} };
inline std::size_t hash_value(const Bs& b) { return (std::size_t)b.v; } inline std::ostream& operator<<(std::ostream& o, const Bs& b) { return o << b.v; }
template <class X> long val(const X& x) { return x.get(); } inline long val(const int& x) { return x; } inline long val(const Bs& x) { return x.v; } inline long val(const std::string& s) { return (long)s.size(); } inline long val(const double& d) { return (long)d; }
template <class X> void set(X& x, long v) { x = X(v); } inline void set(Bs& x, long v) { x.v = v; } inline void set(std::string& x, long v) { x.assign((std::size_t)v, 'k'); }
template <class X> X fresh(long v) { return X(v); } template <> std::string fresh<std::string>(long v) { return std::string((std::size_t)v, 'k'); }
struct Addr : boost::static_visitor<const void*> { template <class X> const void* operator()(X& x) const { return static_cast<const volatile void*>(&x) ? (const void*)&x : 0; } };
struct Set : boost::static_visitor<void> { long v; template <class X> void operator()(X& x) const { set(x, v); } template <class X> void operator()(const X&) const {} };
struct Two : boost::static_visitor<std::pair<const void*, const void*> > { template <class A, class B> std::pair<const void*, const void*> operator()(A& a, B& b) const { return std::make_pair((const void*)&a, (const void*)&b); } };
struct Tell : boost::static_visitor<long> { template <class X> long operator()(const X& x) const { return val(x); } };
template <class V> std::string text(const V& v) { std::ostringstream o; o << v; return o.str(); }
template <class X> std::string text_c(const X& v) { std::ostringstream o; o << v; return o.str(); }

template <class V, class X, int I, class Plain, class Asked> void one(const char* name, X& x, bool mutate) {
    long ser0 = reg().next_id, dt0 = ev().dtor; long live0 = reg().n;
    for (long k = 1; k <= 20; ++k) {
        set_case("%s: type %d round %ld", name, I, k); seen(name, I, k);
        long c0 = ev().copies + ev().moves + ev().casg + ev().masg, d0 = ev().dtor;
        { V v(x); V w(v); const V c(v); V m(std::move(w)); V n = c; V* h = new V(m); V arr[2] = { v, n };
          V* all[] = { &v, &m, &n, h, &arr[0], &arr[1] }; Addr ad; Tell tl; const void* px = (const void*)&x;
          for (int q = 0; q < 6; ++q) { V& r = *all[q]; CHECK("C18", r.which() == I, "which", "copy %d of a reference variant has which() %d", q, r.which()); CHECK("C18", boost::apply_visitor(ad, r) == px, "identity-visit", "visitation of copy %d reaches another object", q); CHECK("C18", (const void*)boost::get<Asked>(&r) == px && (const void*)&boost::get<Asked>(r) == px, "identity-get", "get on copy %d gives another object", q); const V& cr = r; CHECK("C18", (const void*)boost::get<Asked>(&cr) == px && (const void*)&boost::get<Asked>(cr) == px, "identity-get-const", "const get on copy %d gives another object", q); CHECK("C18", r.type() == typeid(X) || r.type() == boost::typeindex::type_id<Asked>().type_info(), "type", "type() is wrong"); }
          CHECK("C18", boost::apply_visitor(ad, c) == px, "identity-const", "visitation of a const copy reaches another object");
          Two tw; std::pair<const void*, const void*> pr = boost::apply_visitor(tw, v, *h); CHECK("C18,C10", pr.first == px && pr.second == px, "identity-two", "binary visitation reaches another object");
          CHECK("C18", boost::apply_visitor(tl, v) == val(x) && text(v) == text_c(x), "value", "value or text differs from the object's");
          CHECK("C18", v == *h && !(v < *h) && !(v != *h) && v <= *h && boost::hash<V>()(v) == boost::hash<V>()(*h), "compare", "references to one object compare unequal");
          long cA = ev().copies + ev().moves + ev().casg + ev().masg; CHECK("C18", cA == c0, "copied", "a reference variant copied its object %ld times", cA - c0);
          if (mutate) { Set st; st.v = 100 + k; boost::apply_visitor(st, *h); CHECK("C18", val(x) == 100 + k, "write-through", "a change through the variant did not reach the object"); for (int q = 0; q < 6; ++q) CHECK("C18", boost::apply_visitor(tl, *all[q]) == 100 + k, "shared-change", "a change of the object is not seen through copy %d", q); }
          long c1 = ev().copies; delete h; CHECK("C18", ev().copies == c1, "copied", "copies in destruction"); }
        (void)d0; CHECK("C18,C03", reg().n == live0, "destroyed", "the referred-to object was destroyed or duplicated (%d live, %ld before)", (int)reg().n, live0);
    }
    (void)ser0; (void)dt0;
}
// converting to plain types copies the value; the copy is then independent
template <class V, class P, class X> void plain(const char* name, X& x) {
    for (long k = 1; k <= 20; ++k) {
        set_case("%s: conversion to plain, round %ld", name, k); seen(name, 99, k); set(x, k); V v(x); const V c(v); Tell tl;
        P p(v), q(c), r(fresh<X>(0)), s(fresh<X>(0)); r = v; s = c; P* all[] = { &p, &q, &r, &s };
        for (int i = 0; i < 4; ++i) { X* g = boost::get<X>(all[i]); CHECK("C18", g && g != &x && val(*g) == k, "to-plain", "conversion %d to a plain variant did not copy the value", i); }
        set(x, 200 + k); for (int i = 0; i < 4; ++i) { X* g = boost::get<X>(all[i]); CHECK("C18", g && val(*g) == k, "to-plain-independent", "plain copy %d changed with the object", i); if (g) set(*g, 7); }
        CHECK("C18", val(x) == 200 + k && boost::apply_visitor(tl, v) == 200 + k, "to-plain-back", "changing the plain copy changed the object");
    }
}
// widening conversions between reference variants keep the identity
template <class V, class W, class A, class X> void widen(const char* name, X& x) { set_case("%s: between reference variants", name); V v(x); W w(v); const V c(v); W u(c); Addr ad; const void* px = (const void*)static_cast<const A*>(&x);
    CHECK("C18,C06", boost::apply_visitor(ad, w) == px && boost::apply_visitor(ad, u) == px && (const void*)boost::get<A>(&w) == px, "widen", "conversion between reference variants changed the object"); seen(name); }
int main(int argc, char** argv) {
    (void)argc; (void)argv; using boost::variant;
    int reps = argc > 2 ? std::atoi(argv[2]) : 3;
    for (int r = 0; r < reps; ++r) {
        { int i = 1; double d = 2; std::string s("k"); typedef variant<int&, std::string&, double&> V; one<V, int, 0, int, int>("builtin", i, true); one<V, std::string, 1, std::string, std::string>("builtin", s, true); one<V, double, 2, double, double>("builtin", d, true);
          typedef variant<int, std::string, double> P; plain<V, P>("builtin int", i); plain<V, P>("builtin string", s); plain<V, P>("builtin double", d); typedef variant<double, std::string> P2; (void)sizeof(P2); }
        { O1 a(1); O2 b(2); O3 c(3); typedef variant<O1&, O2&, O3&> V; one<V, O1, 0, O1, O1>("tracked", a, true); one<V, O2, 1, O2, O2>("tracked", b, true); one<V, O3, 2, O3, O3>("tracked", c, true); typedef variant<O3, O2, O1> P; plain<V, P>("tracked O1", a); plain<V, P>("tracked O2", b); typedef variant<recursive_wrapper<O1>, O2, O3> P3; plain<V, P3>("tracked wrapped", c); widen<variant<O1&>, V, O1>("widen tracked", a); }
        { const O1 a(1); const std::string s("kk"); typedef variant<const O1&, const std::string&> V; one<V, const O1, 0, O1, const O1>("const", a, false); one<V, const std::string, 1, std::string, const std::string>("const", s, false); }
        { Dv d(4); Dm m(5); typedef variant<Bs&, int&> V; typedef variant<Dv&> VD; one<V, Bs, 0, Bs, Bs>("noncopyable base", d, true); one<V, Bs, 0, Bs, Bs>("noncopyable base at an offset", m, true); widen<VD, V, Bs>("derived to base", d); widen<variant<Dm&>, V, Bs>("derived to base at an offset", m); }
        { O1 a(1); O2 b(2); typedef variant<O2, O1&, O3> V; one<V, O1, 1, O1, O1>("mixed with values", a, true); V v(b); long v0 = b.get(); CHECK("C18", boost::get<O2>(&v) != &b && boost::get<O2>(v).get() == v0, "mixed-value", "a plain bounded type next to a reference was not copied"); }
        { const variant<int> q(4); variant<const int&> y(q); CHECK("C18", &boost::get<const int>(y) == &boost::get<int>(q), "content-ref", "a reference variant made from a plain variant does not refer to its content"); variant<int> q2(5); variant<int&> z(q2); boost::get<int>(z) = 9; CHECK("C18", boost::get<int>(q2) == 9, "content-ref", "a change through a reference into another variant's content was lost"); }
        // order of comparison uses the objects' current values
        { int i = 1, j = 2; typedef variant<int&, std::string&> V; V a(i), b(j); for (int k = 0; k < 10; ++k) { i = k * 7 % 5; j = k * 3 % 5; CHECK("C18,C11", (a < b) == (i < j) && (a == b) == (i == j) && (a > b) == (i > j), "compare-current", "comparison of reference variants does not use the current values"); CHECK("C18,C12", (boost::hash<V>()(a) == boost::hash<V>()(b)) == (i == j), "hash-current", "hash of reference variants does not use the current values"); } }
    }
    finish(); return 0;
}
