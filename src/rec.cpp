// C14: recursive variants against a plain tree model: random tree-editing histories with injected faults, the recursive_wrapper
// class itself, and what make_recursive_variant substitutes.
#include "common.hpp"
#include <boost/functional/hash.hpp>
#include <boost/mpl/at.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/vector.hpp>
#include <list>
#include <map>
#include <deque>
#include <set>
#include <sstream>
#include <string>
#include <memory>
#ifndef PART
#define PART 1
#endif
namespace boost { inline std::size_t hash_value(const blank&) { return 17; } inline std::ostream& operator<<(std::ostream& o, const blank&); }
typedef T<1,0,1,1> Leaf; typedef T<2,0,1,2> Leaf2;
typedef boost::recursive_variant_ rv_;

struct M { int kind; long val; std::vector<M> kids; std::vector<std::string> keys; M(int k = 0, long v = 0) : kind(k), val(v) {}
    bool operator==(const M& o) const { return kind == o.kind && val == o.val && keys == o.keys && kids == o.kids; }
    bool operator<(const M& o) const {            // what < on the variant has to be: index first, then the content's own order
        if (kind != o.kind) return kind < o.kind; if (val != o.val) return val < o.val;
        std::size_t n = kids.size() < o.kids.size() ? kids.size() : o.kids.size();
        for (std::size_t i = 0; i < n; ++i) {
            if (!keys.empty()) { if (keys[i] < o.keys[i]) return true; if (o.keys[i] < keys[i]) return false; }
            if (kids[i] < o.kids[i]) return true; if (o.kids[i] < kids[i]) return false;
        }
        return kids.size() < o.kids.size();
    }
    int size() const { int n = 1; for (auto& k : kids) n += k.size(); return n; }
    std::string str() const { std::string s = std::to_string(kind) + ":" + std::to_string(val); if (!kids.empty()) { s += "("; for (std::size_t i = 0; i < kids.size(); ++i) s += (i ? " " : "") + (keys.empty() ? "" : keys[i] + "=") + kids[i].str(); s += ")"; } return s; }
};
template <class V> V build(const M& m, Rng& rng);
// per content type: how many children, how to make and read it
template <class V, class X> struct Io { enum { leaf = 1, lo = 0, hi = 0 }; };
template <class V> struct Io<V, Leaf> { enum { leaf = 1, lo = 0, hi = 0 }; static Leaf make(const M& m, Rng&) { return Leaf(m.val); } static void read(const Leaf& x, M& m) { m.val = x.get(); } static V* child(Leaf&, int) { return 0; } };
template <class V> struct Io<V, Leaf2> { enum { leaf = 1, lo = 0, hi = 0 }; static Leaf2 make(const M& m, Rng&) { return Leaf2(m.val); } static void read(const Leaf2& x, M& m) { m.val = x.get(); } static V* child(Leaf2&, int) { return 0; } };
template <class V> struct Io<V, int> { enum { leaf = 1, lo = 0, hi = 0 }; static int make(const M& m, Rng&) { return (int)m.val; } static void read(const int& x, M& m) { m.val = x; } static V* child(int&, int) { return 0; } };
template <class V> struct Io<V, blank> { enum { leaf = 2, lo = 0, hi = 0 }; static blank make(const M&, Rng&) { return blank(); } static void read(const blank&, M&) {} static V* child(blank&, int) { return 0; } };
template <class V> struct Io<V, std::string> { enum { leaf = 1, lo = 0, hi = 0 }; static std::string make(const M& m, Rng&) { if (m.val == -3) return std::string(); char b[64]; std::snprintf(b, sizeof b, "%08ld a string that is not short", m.val); return b; } static void read(const std::string& x, M& m) { m.val = x.empty() ? -3 : std::strtol(x.c_str(), 0, 10); } static V* child(std::string&, int) { return 0; } };
template <class V, class C> struct Seq { enum { leaf = 0, lo = 0, hi = 4 };
    static C make(const M& m, Rng& r) { C c; for (auto& k : m.kids) { if (r.chance(1, 2)) c.push_back(build<V>(k, r)); else { V t(build<V>(k, r)); c.push_back(t); } } return c; }
    static void read(const C& c, M& m); static V* child(C& c, int i) { for (auto& x : c) if (i-- == 0) return &x; return 0; } };
template <class V> M tree(const V& v);
template <class V, class C> void Seq<V, C>::read(const C& c, M& m) { for (auto& x : c) m.kids.push_back(tree(x)); }
template <class V> struct Io<V, std::vector<V> > : Seq<V, std::vector<V> > {};
template <class V> struct Io<V, std::list<V> > : Seq<V, std::list<V> > {};
template <class V> struct Io<V, std::deque<V> > : Seq<V, std::deque<V> > {};
template <class V> struct Io<V, std::map<std::string, V> > { enum { leaf = 0, lo = 0, hi = 3 }; typedef std::map<std::string, V> C;
    static C make(const M& m, Rng& r) { C c; for (std::size_t i = 0; i < m.kids.size(); ++i) c.insert(std::make_pair(m.keys[i], build<V>(m.kids[i], r))); return c; }
    static void read(const C& c, M& m) { for (auto& x : c) { m.keys.push_back(x.first); m.kids.push_back(tree(x.second)); } } static V* child(C& c, int i) { for (auto& x : c) if (i-- == 0) return &x.second; return 0; } };
template <class V> struct Io<V, std::pair<V, V> > { enum { leaf = 0, lo = 2, hi = 2 }; typedef std::pair<V, V> C;
    static C make(const M& m, Rng& r) { return C(build<V>(m.kids[0], r), build<V>(m.kids[1], r)); } static void read(const C& c, M& m) { m.kids.push_back(tree(c.first)); m.kids.push_back(tree(c.second)); } static V* child(C& c, int i) { return i == 0 ? &c.first : i == 1 ? &c.second : 0; } };
// hand-made recursive classes
struct Bin; struct Un;
typedef boost::variant<Leaf, recursive_wrapper<Bin>, recursive_wrapper<Un> > WV;
struct Bin { WV l, r; Bin(const WV& a, const WV& b) : l(a), r(b) {} bool operator==(const Bin& o) const { return l == o.l && r == o.r; } bool operator<(const Bin& o) const { return l < o.l || (!(o.l < l) && r < o.r); } };
struct Un { WV x; explicit Un(WV a) : x(std::move(a)) {} bool operator==(const Un& o) const { return x == o.x; } bool operator<(const Un& o) const { return x < o.x; } };
inline std::size_t hash_value(const Bin& b); inline std::size_t hash_value(const Un& b);
inline std::size_t hash_value(const Bin& b) { return boost::hash<WV>()(b.l) * 31 + boost::hash<WV>()(b.r); } inline std::size_t hash_value(const Un& b) { return boost::hash<WV>()(b.x) + 1; }
template <class V> struct Io<V, Bin> { enum { leaf = 0, lo = 2, hi = 2 }; static Bin make(const M& m, Rng& r) { return Bin(build<V>(m.kids[0], r), build<V>(m.kids[1], r)); } static void read(const Bin& c, M& m) { m.kids.push_back(tree(c.l)); m.kids.push_back(tree(c.r)); } static V* child(Bin& c, int i) { return i == 0 ? &c.l : i == 1 ? &c.r : 0; } };
template <class V> struct Io<V, Un> { enum { leaf = 0, lo = 1, hi = 1 }; static Un make(const M& m, Rng& r) { return Un(build<V>(m.kids[0], r)); } static void read(const Un& c, M& m) { m.kids.push_back(tree(c.x)); } static V* child(Un& c, int i) { return i == 0 ? &c.x : 0; } };

template <class V> struct ReadV : boost::static_visitor<M> { template <class X> M operator()(const X& x) const { M m; Io<V, X>::read(x, m); return m; } };
template <class V> struct ChildV : boost::static_visitor<V*> { int i; template <class X> V* operator()(X& x) const { return Io<V, X>::child(x, i); } };
template <class V> M tree(const V& v) { ReadV<V> r; M m = boost::apply_visitor(r, v); m.kind = v.which(); return m; }
template <class V> V* child(V& v, int i) { ChildV<V> c; c.i = i; return boost::apply_visitor(c, v); }

template <class V> struct Sch {
    enum { N = boost::mpl::size<typename V::types>::value };
    template <int I> struct At { typedef typename boost::mpl::at_c<typename V::types, I>::type type; };
    template <int I, class F> static typename std::enable_if<(I < N)>::type each(int k, F& f) { if (k == I) f.template operator()<typename At<I>::type>(); else each<I + 1>(k, f); }
    template <int I, class F> static typename std::enable_if<(I >= N)>::type each(int, F&) {}
    struct Info { int leaf, lo, hi; template <class X> void operator()() { leaf = Io<V, X>::leaf; lo = Io<V, X>::lo; hi = Io<V, X>::hi; } };
    struct Make { const M* m; Rng* r; std::unique_ptr<V> out; template <class X> void operator()() { if (r->chance(1, 2)) out.reset(new V(Io<V, X>::make(*m, *r))); else { const X x(Io<V, X>::make(*m, *r)); out.reset(new V(x)); } } };
    struct Put { const M* m; Rng* r; V* v; bool rv; long fault_at; bool* threw; template <class X> void operator()() { X x(Io<V, X>::make(*m, *r)); Inside in; arm(fault_at, fault_sticky()); try { if (rv) *v = std::move(x); else *v = x; } catch (const Injected&) { *threw = true; } catch (const std::bad_alloc&) { *threw = true; } disarm(); } };
    // assign a variant its own content
    struct Own { V* v; long fault_at; bool* threw; bool rv; template <class X> void operator()() { X* p = boost::get<X>(v); if (!p) return; Inside in; arm(fault_at, fault_sticky()); try { if (rv) *v = std::move(*p); else *v = *p; } catch (const Injected&) { *threw = true; } catch (const std::bad_alloc&) { *threw = true; } disarm(); } };
    static M gen(Rng& r, int depth) {
        M m; Info in;
        for (;;) { m.kind = (int)r.below(N); each<0>(m.kind, in); if (in.leaf || depth > 0) break; }
        if (in.leaf == 1) m.val = 1 + (long)r.below(50);
        if (!in.leaf) { int n = in.lo + (int)r.below((unsigned)(in.hi - in.lo + 1)); for (int i = 0; i < n; ++i) m.kids.push_back(gen(r, depth - 1)); if (in.hi == 3) for (int i = 0; i < n; ++i) m.keys.push_back(std::string(1, (char)('a' + i * 3 + r.below(3)))); }
        return m;
    }
};
template <class V> V build(const M& m, Rng& rng) { typename Sch<V>::Make mk; mk.m = &m; mk.r = &rng; Sch<V>::template each<0>(m.kind, mk); return V(std::move(*mk.out)); }

template <class V> struct Hist {
    const char* name; Rng rng; enum { POOL = 4 }; std::unique_ptr<V> p[POOL]; M m[POOL]; int fallback; std::string log;
    typedef Sch<V> S;
    Hist(const char* n, std::uint64_t seed, int fb) : name(n), rng(seed), fallback(fb) {}
    struct Path { int root; std::vector<int> ix; };
    Path pick(int root) { Path q; q.root = root; const M* c = &m[root]; while (!c->kids.empty() && rng.chance(2, 3)) { int i = (int)rng.below((unsigned)c->kids.size()); q.ix.push_back(i); c = &c->kids[(std::size_t)i]; } return q; }
    M& mod(const Path& q) { M* c = &m[q.root]; for (int i : q.ix) c = &c->kids[(std::size_t)i]; return *c; }
    V& var(const Path& q) { V* v = p[q.root].get(); for (int i : q.ix) v = child(*v, i); return *v; }
    static bool related(const Path& a, const Path& b) { if (a.root != b.root) return false; std::size_t n = a.ix.size() < b.ix.size() ? a.ix.size() : b.ix.size(); for (std::size_t i = 0; i < n; ++i) if (a.ix[i] != b.ix[i]) return false; return true; }
    void verify(const char* op) {
        for (int i = 0; i < POOL; ++i) { M t = tree(*p[i]); if (!(t == m[i])) { CHECK("C14,C04", false, "tree", "%s: tree %d reads %.200s, expected %.200s", op, i, t.str().c_str(), m[i].str().c_str()); m[i] = t; } else count("evaluations"); }
        count("tree_reads", POOL);
    }
    // after a failed assignment to the subtree at q (held `old`); `target` is the value that was to be assigned
    void failed(const char* op, const Path& q, int target_kind) {
        count("failed_assignments"); M now = tree(var(q)); M& old = mod(q);
        bool same = now == old; bool retyped_ok = now.kind == old.kind && target_kind == old.kind;     // then the content's own assignment decides
        bool fb = fallback >= 0 && now.kind == fallback && (now.val == 0 || now.val == -3) && now.kids.empty();
        CHECK("C14,C02", same || retyped_ok || fb, "failed", "%s failed: subtree reads %.150s, held %.150s", op, now.str().c_str(), old.str().c_str());
        old = now;
    }
    void go(int histories, int steps) {
        for (int h = 0; h < histories; ++h) {
            long live0 = reg().n, al0 = allocs().live;
            for (int i = 0; i < POOL; ++i) { m[i] = S::gen(rng, 3); p[i].reset(new V(build<V>(m[i], rng))); }
            set_case("%s history %d: build", name, h); verify("build");
            for (int s = 0; s < steps; ++s) step(h, s);
            { Inside in; for (int i = 0; i < POOL; ++i) p[i].reset(); }
            CHECK("C14,C03", reg().n == live0, "leak-nodes", "%ld leaves alive after all trees are gone", (long)reg().n - live0); reg().n = (int)live0 < reg().n ? (int)live0 : reg().n;
            CHECK("C14,C03", allocs().live == al0, "leak-memory", "%ld allocations alive after all trees are gone", allocs().live - al0); 
            count("histories");
        }
    }
    void step(int h, int s) {
        int i = (int)rng.below(POOL), j = (int)rng.below(POOL); Path a = pick(i), b = pick(j); int op = (int)rng.below(14); long f = rng.chance(1, 3) ? 1 + (long)rng.below(rng.chance(1, 2) ? 4 : 30) : 0; bool threw = false; int sticky = fault_sticky() = 2 * (int)rng.below(2);
        static const char* nm[] = { "copy", "assign subtree", "move subtree", "swap subtree", "assign value", "assign own content", "replace by child copy", "self assign", "self swap", "compare", "move construct", "assign whole", "push", "swap whole" };
        set_case("%s history %d step %d: %s, targets %d.%d %d.%d, fault %ld%s; %.300s | %.300s", name, h, s, nm[op], i, (int)a.ix.size(), j, (int)b.ix.size(), f, sticky ? " sticky" : "", m[i].str().c_str(), m[j].str().c_str());
        seen(name, op, mod(a).kind, mod(b).kind, mod(a).kids.size(), mod(b).kids.size(), f > 8 ? 8 : f, related(a, b));
        count("ops");
        switch (op) {
        case 0: { V* n = 0; { Inside in; arm(f, sticky); try { n = new V(*p[j]); } catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } disarm(); } if (!threw) { p[i].reset(n); m[i] = M(m[j]); } break; }
        case 1: if (related(a, b)) break; { Inside in; arm(f, sticky); try { var(a) = static_cast<const V&>(var(b)); } catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } disarm(); } if (threw) failed(nm[op], a, mod(b).kind); else mod(a) = M(mod(b)); break;
        case 2: if (related(a, b)) break; { Inside in; arm(f, sticky); try { var(a) = std::move(var(b)); } catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } disarm(); }
            { M srcnow = tree(var(b)); int bk = mod(b).kind; CHECK("C14,C05", srcnow.kind == bk, "moved-from", "moved-from tree changed its type from %d to %d", bk, srcnow.kind); if (threw) failed(nm[op], a, bk); else mod(a) = M(mod(b)); mod(b) = srcnow; } break;
        case 3: { if (related(a, b) && !(a.ix == b.ix)) break; M ta = mod(a), tb = mod(b); f = rng.chance(1, 3) ? f : 0; { Inside in; arm(f, sticky); try { if (rng.chance(1, 2)) var(a).swap(var(b)); else { using std::swap; swap(var(a), var(b)); } } catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } disarm(); }
            if (threw) { M na = tree(var(a)), nb = tree(var(b)); count("failed_swaps"); mod(a) = na; mod(b) = nb; } else { mod(a) = tb; mod(b) = ta; } break; }
        case 4: { M g = S::gen(rng, 2); typename S::Put pt; pt.m = &g; pt.r = &rng; pt.v = &var(a); pt.rv = rng.chance(1, 2); pt.fault_at = f; pt.threw = &threw; S::template each<0>(g.kind, pt); if (threw) failed(nm[op], a, g.kind); else mod(a) = g; break; }
        case 5: { typename S::Own o; o.v = &var(a); o.fault_at = f; o.threw = &threw; o.rv = false; S::template each<0>(mod(a).kind, o); if (threw) failed(nm[op], a, mod(a).kind); break; }
        case 6: { M& ma = mod(a); if (ma.kids.empty()) break; int k = (int)rng.below((unsigned)ma.kids.size()); V t(*child(var(a), k)); { Inside in; arm(f, sticky); try { if (rng.chance(1, 2)) var(a) = std::move(t); else var(a) = t; } catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } disarm(); } if (threw) failed(nm[op], a, ma.kids[(std::size_t)k].kind); else { M c = ma.kids[(std::size_t)k]; mod(a) = c; } break; }
        case 7: { V& v = var(a); { Inside in; v = *&v; } break; }
        case 8: { V& v = var(a); { Inside in; v.swap(v); } break; }
        case 9: compare(a, b); break;
        case 10: { V* n = 0; { Inside in; arm(f, sticky); try { n = new V(std::move(*p[j])); } catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } disarm(); } M sn = tree(*p[j]); CHECK("C14,C05", sn.kind == m[j].kind, "moved-from", "moved-from tree changed its type"); M old = m[j]; m[j] = sn; if (!threw) { p[i].reset(n); m[i] = old; } break; }
        case 11: if (i == j) break; { Inside in; arm(f, sticky); try { *p[i] = *p[j]; } catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } disarm(); } { Path r; r.root = i; if (threw) failed(nm[op], r, m[j].kind); else m[i] = M(m[j]); } break;
        case 12: { V& v = var(a); if (std::vector<V>* vec = get_vec(v)) { V x(build<V>(mod(b), rng)); if (vec->size() < 6) { vec->push_back(x); M c = mod(b); mod(a).kids.push_back(c); } } break; }
        case 13: { { Inside in; p[i]->swap(*p[j]); } if (i != j) std::swap(m[i], m[j]); break; }
        }
        if (threw) count("faults");
        verify(nm[op]);
        for (int q = 0; q < POOL; ++q) if (m[q].size() > 150) { m[q] = S::gen(rng, 2); V t(build<V>(m[q], rng)); *p[q] = std::move(t); }
    }
    std::vector<V>* get_vec(V& v) { return boost::relaxed_get<std::vector<V> >(&v); }
    void compare(const Path& a, const Path& b) {
        V &x = var(a), &y = var(b); const M &p_ = mod(a), &q = mod(b); bool eq = p_ == q, lt = p_ < q, gt = q < p_;
        bool c = (x == y) == eq && (x != y) == !eq && (x < y) == lt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt;
        CHECK("C14,C11", c, "compare", "comparison of trees disagrees with their structure: %.150s / %.150s", p_.str().c_str(), q.str().c_str());
        V z(x); CHECK("C14,C11", z == x && !(z < x) && !(x < z), "compare-copy", "a copy of a tree does not compare equal to it");
        CHECK("C14,C12", boost::hash<V>()(z) == boost::hash<V>()(x), "hash-copy", "a copy of a tree hashes differently");
    }
};
template <class V> void deep(const char* n, int depth) {       // chains and wide nodes
    typedef std::vector<V> Vec; set_case("%s deep %d", n, depth); long live0 = reg().n;
    { V v((Leaf(7))); for (int i = 0; i < depth; ++i) { Vec x; x.push_back(v); x.push_back(V(Leaf(i))); if (i > 40) { x[0] = V(Leaf(1)); x.push_back(std::move(v)); } v = x; }
      V w(v); CHECK("C14", w == v, "deep-copy", "deep copy differs"); CHECK("C14", tree(w).size() == tree(v).size(), "deep-copy", "deep copy has another size");
      V u(std::move(w)); CHECK("C14", u == v, "deep-move", "moved deep tree differs"); v = V(Leaf(1)); CHECK("C14", tree(u).size() > depth, "deep-independent", "deep copy changed with its source"); 
      Vec big; for (int i = 0; i < 2000; ++i) big.push_back(V(Leaf(i))); V b(big); u.swap(b); CHECK("C14", boost::get<Vec>(&u) && boost::get<Vec>(u).size() == 2000, "wide", "wide node lost"); }
    CHECK("C14,C03", reg().n == live0, "deep-leak", "%d leaves leaked", (int)(reg().n - live0)); seen(n, depth);
}

#if PART == 1
// ---------------------------------------------------------------- the wrapper class itself
struct Pod { int a; double b; }; struct HasDef { int v; HasDef() : v(42) {} };
template <class L> void wrapper(const char* n, Rng& rng) {
    typedef recursive_wrapper<L> W; long live0 = reg().n, al0 = allocs().live;
    for (int it = 0; it < 3000; ++it) {
        long x = 1 + (long)rng.below(90), y = 100 + (long)rng.below(90), f = (long)rng.below(5); int op = (int)rng.below(10), sticky = 2 * (int)rng.below(2);
        set_case("recursive_wrapper<%s> op %d %ld %ld fault %ld", n, op, x, y, f); seen(n, op, f); count("ops");
        { L lx(x), ly(y); W a(lx), b(ly); const void *pa = a.get_pointer(), *pb = b.get_pointer(); bool threw = false; W* c = 0; long ea = x, eb = y; bool free_a = false, free_b = false;
        { Inside in; arm(f, sticky);
        try { switch (op) {
            case 0: c = new W(a); break; case 1: c = new W(std::move(a)); break; case 2: a = b; ea = y; break; case 3: a = std::move(b); break; case 4: a = ly; ea = y; break; case 5: a = std::move(ly); ea = y; break;
            case 6: a.swap(b); ea = y; eb = x; break; case 7: { using std::swap; swap(a, b); ea = y; eb = x; break; } case 8: a = *&a; break; case 9: c = new W(std::move(ly)); break; } }
        catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } disarm(); }
        // assigning a T, or a const wrapper, assigns to the object held: references to it stay valid (also after a failure)
        if (op == 2 || op == 4 || op == 5 || op == 8) { CHECK("C14", a.get_pointer() == pa && b.get_pointer() == pb, "wrapper-in-place", "assignment to a wrapper (op %d) replaced its object instead of assigning to it", op); }
        if (threw) { count("faults"); ea = x; eb = y; free_a = op == 2 || op == 4 || op == 5 || op == 8; if (op == 1) free_a = true; if (op == 3) free_a = free_b = true; }
        else { if (op == 0) CHECK("C14", c->get().get() == x && c->get_pointer() != a.get_pointer(), "wrapper-copy", "copy of a wrapper is not a new equal object");
               if (op == 1) { CHECK("C14", c->get().get() == x, "wrapper-move", "moved wrapper lost the value"); free_a = true; }
               if (int(L::mv) != 0 && (op == 1 || op == 5 || op == 9)) CHECK("C14,C05", (op == 1 ? a.get().get() : ly.get()) == (long)MOVED, "wrapper-not-moved", "op %d on a wrapper did not move its rvalue operand", op);
               if (op == 9) CHECK("C14", c->get().get() == y, "wrapper-from-rvalue", "wrapper made from rvalue lost the value");
               if (op == 3) { ea = y; free_b = true; }
               if (op == 6 || op == 7) CHECK("C14", a.get_pointer() == pb && b.get_pointer() == pa, "wrapper-swap-ptr", "swap did not exchange the objects"); }
        CHECK("C14", a.get_pointer() && b.get_pointer() && a.get_pointer() != b.get_pointer(), "wrapper-null", "a wrapper is empty or shares its object after op %d", op);
        if (a.get_pointer() && b.get_pointer()) {
            long va = a.get().get(), vb = b.get().get();
            CHECK("C14", free_a || va == ea, "wrapper-value", "op %d: wrapper holds %ld, expected %ld", op, va, ea); CHECK("C14", free_b || vb == eb, "wrapper-value", "op %d: other wrapper holds %ld, expected %ld", op, vb, eb);
            const W& ca = a; CHECK("C14", &ca.get() == ca.get_pointer() && &a.get() == a.get_pointer() && (const void*)&a.get() == (const void*)ca.get_pointer(), "wrapper-get", "get and get_pointer disagree");
        }
        delete c; }
        CHECK("C14,C03", reg().n == live0, "wrapper-leak", "%d objects leaked by op %d", (int)(reg().n - live0), op); CHECK("C14,C03", allocs().live == al0, "wrapper-leak-memory", "%ld blocks leaked by op %d", allocs().live - al0, op);
    }
}
template <class X> struct Tag {};
template <class A, class B> void is(const char* what) { CHECK("C14", (std::is_same<A, B>::value), "substitution", "make_recursive_variant: %s is not what the declaration says", what); seen(what); }
template <class V, int I> struct Ty { typedef typename boost::mpl::at_c<typename V::types, I>::type type; };
template <class V, int I> struct Rt { typedef typename boost::mpl::at_c<typename V::recursive_enabled_types, I>::type type; };
template <class... X> struct Many {}; template <class A> struct One { A* p; };
void substitution() {
    set_case("substitution");
    { typedef boost::make_recursive_variant<int, std::vector<rv_>, std::pair<int, rv_>, std::map<std::string, rv_>, rv_*, const rv_*, rv_* const*, std::vector<rv_*> >::type V;
      is<Ty<V,0>::type, int>("int"); is<Ty<V,1>::type, std::vector<V> >("vector"); is<Ty<V,2>::type, std::pair<int, V> >("pair"); is<Ty<V,3>::type, std::map<std::string, V> >("map"); is<Ty<V,4>::type, V*>("pointer"); is<Ty<V,5>::type, const V*>("pointer to const"); is<Ty<V,6>::type, V* const*>("pointer to const pointer"); is<Ty<V,7>::type, std::vector<V*> >("vector of pointers");
      is<Rt<V,0>::type, int>("int is not wrapped"); is<Rt<V,4>::type, V*>("pointers are not wrapped"); is<Rt<V,1>::type, recursive_wrapper<std::vector<V> > >("vector is wrapped"); is<Rt<V,2>::type, recursive_wrapper<std::pair<int, V> > >("pair is wrapped"); }
    { typedef boost::make_recursive_variant<int, rv_ (*)(int), void (*)(rv_, int), rv_ (*)(const rv_&, rv_*), int (*)(), std::vector<void (*)(rv_)> >::type V;
      is<Ty<V,1>::type, V (*)(int)>("function result"); is<Ty<V,2>::type, void (*)(V, int)>("function parameter"); is<Ty<V,3>::type, V (*)(const V&, V*)>("function of references and pointers"); is<Ty<V,4>::type, int (*)()>("unrelated function"); is<Ty<V,5>::type, std::vector<void (*)(V)> >("vector of functions"); }
    { typedef boost::make_recursive_variant<Many<rv_, int, rv_>, One<One<One<rv_> > >, Many<>, Many<int, std::vector<One<rv_> >, char>, One<volatile rv_>, One<const volatile rv_*> >::type V;
      is<Ty<V,0>::type, Many<V, int, V> >("first and last argument"); is<Ty<V,1>::type, One<One<One<V> > > >("nested arguments"); is<Ty<V,2>::type, Many<> >("no arguments"); is<Ty<V,3>::type, Many<int, std::vector<One<V> >, char> >("mixed nesting"); is<Ty<V,4>::type, One<volatile V> >("volatile"); is<Ty<V,5>::type, One<const volatile V*> >("const volatile"); 
      is<Rt<V,2>::type, Many<> >("unchanged is not wrapped"); }
    { typedef boost::make_recursive_variant<int, boost::variant<std::string, std::vector<rv_>, rv_*> >::type V; typedef Ty<V,1>::type In;
      is<Ty<In,0>::type, std::string>("nested variant: plain"); is<Ty<In,1>::type, std::vector<V> >("nested variant: vector"); is<Ty<In,2>::type, V*>("nested variant: pointer");
      typedef boost::variant<std::string, std::vector<V>, V*> In2; is<In, In2>("nested variant as declared"); }
    { typedef boost::make_recursive_variant<int, boost::make_variant_over<boost::mpl::vector<std::string, std::vector<rv_>, rv_*> >::type>::type V; typedef Ty<V,1>::type In;
      is<Rt<In,0>::type, std::string>("nested variant over a sequence: plain"); is<Rt<In,1>::type, std::vector<V> >("nested variant over a sequence: vector"); is<Rt<In,2>::type, V*>("nested variant over a sequence: pointer"); }
    { typedef boost::make_recursive_variant<int, boost::variant<std::vector<rv_>, char>, std::vector<boost::variant<std::pair<rv_, rv_> > > >::type V; is<Ty<V,1>::type, boost::variant<std::vector<V>, char> >("nested variant, first type"); is<Ty<V,2>::type, std::vector<boost::variant<std::pair<V, V> > > >("variant inside a container"); }
    { typedef boost::make_recursive_variant<int, boost::make_variant_over<boost::mpl::vector<std::string, char> >::type, boost::variant<double, long> >::type V; is<Ty<V,1>::type, boost::make_variant_over<boost::mpl::vector<std::string, char> >::type>("unrelated nested variant over a sequence"); is<Ty<V,2>::type, boost::variant<double, long> >("unrelated nested variant"); is<Rt<V,1>::type, Ty<V,1>::type>("unrelated nested variant is not wrapped"); }
    { typedef boost::make_recursive_variant_over<boost::mpl::vector<int, std::vector<rv_>, std::pair<rv_, rv_> > >::type V; is<Ty<V,1>::type, std::vector<V> >("over sequence: vector"); is<Ty<V,2>::type, std::pair<V, V> >("over sequence: pair"); is<Ty<V,0>::type, int>("over sequence: int"); }
    is<boost::unwrap_recursive<recursive_wrapper<int> >::type, int>("unwrap_recursive"); is<boost::unwrap_recursive<int>::type, int>("unwrap_recursive plain");
    CHECK("C14", boost::is_recursive_wrapper<recursive_wrapper<Pod> >::value && !boost::is_recursive_wrapper<Pod>::value && !boost::is_recursive_wrapper<recursive_wrapper<Pod>*>::value, "is_recursive_wrapper", "is_recursive_wrapper is wrong");
    // pointers, functions: usable as contents
    { typedef boost::make_recursive_variant<int, rv_*, rv_ (*)(int)>::type V; struct F { static V f(int x) { return V(x + 1); } }; V a(5), b(&a), c(&F::f);
      CHECK("C14", b.which() == 1 && boost::get<V*>(b) == &a && boost::get<int>(*boost::get<V*>(b)) == 5, "pointer-content", "pointer to a recursive variant lost"); CHECK("C14", c.which() == 2 && boost::get<int>(boost::get<V (*)(int)>(c)(3)) == 4, "function-content", "function content lost"); a = b; CHECK("C14", boost::get<V*>(a) == &a, "pointer-self", "pointer to itself lost"); }
}
void defaults() {
    set_case("default construction");
    for (int i = 0; i < 200; ++i) {        // dirty memory first: indeterminate values would show
        void* d = ::operator new(sizeof(Pod)); std::memset(d, 0x5c + i, sizeof(Pod)); ::operator delete(d);
        recursive_wrapper<int> a; recursive_wrapper<Pod> b; recursive_wrapper<HasDef> c; recursive_wrapper<double> e; recursive_wrapper<int*> f;
        CHECK("C14", a.get() == 0 && b.get().a == 0 && b.get().b == 0 && c.get().v == 42 && e.get() == 0 && f.get() == 0, "wrapper-default", "default-constructed wrapper does not hold a value-initialized object");
        boost::variant<recursive_wrapper<int>, double> v; boost::variant<recursive_wrapper<Pod> > w; CHECK("C14,C01", boost::get<int>(v) == 0 && boost::get<Pod>(w).b == 0, "variant-default", "default-constructed variant of a wrapped type is not value-initialized");
        count("ops");
    }
}
#endif
int main(int argc, char** argv) {
    std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], 0, 10) : 1; int n = argc > 2 ? std::atoi(argv[2]) : 60;
#if PART == 1
    Rng rng(seed); substitution(); defaults(); wrapper<T<1,0,1,1> >("throwing copy and move", rng); wrapper<T<2,0,2,2,8> >("nothrow", rng); wrapper<T<3,0,1,0> >("copy only", rng); wrapper<T<4,1,1,2,16> >("nothrow move", rng);
#elif PART == 2
    { typedef boost::make_recursive_variant<Leaf, std::vector<rv_> >::type V; Hist<V> h("leaf|vector", seed, -1); h.go(n, 60); deep<V>("deep", 12); deep<V>("deep", 600); }
#elif PART == 3
    { Hist<WV> h("wrapped classes", seed, -1); h.go(n, 60); }
    { typedef boost::make_recursive_variant_over<boost::mpl::vector<Leaf2, std::deque<rv_>, Leaf> >::type V; Hist<V> h("over sequence", seed, -1); h.go(n, 60); }
#elif PART == 4
    { typedef boost::make_recursive_variant<blank, Leaf, std::string, std::vector<rv_>, std::map<std::string, rv_> >::type V; Hist<V> h("json", seed, 0); h.go(n, 60); deep<V>("json deep", 300); }
#elif PART == 5
    { typedef boost::make_recursive_variant<std::pair<rv_, rv_>, int, Leaf, std::list<rv_> >::type V; static_assert(sizeof(std::pair<V, V>) > 0, ""); Hist<V> h("pair|int|leaf|list", seed, 1); h.go(n, 60); }
    { typedef boost::make_recursive_variant<std::vector<rv_>, Leaf2, std::string>::type V; Hist<V> h("vector first", seed, 2); h.go(n, 60); }
#endif
    finish(); return 0;
}
