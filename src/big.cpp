// C20: long type lists. Every position and every pair of positions, for direct lists and for type sequences, around every internal boundary.
// -DLEN=n number of bounded types, -DSEQ=0 direct 1 mpl::list chain 2 mpl::vector chain 3 joint_view, -DKIND=0 nothrow 1 heap backup 2 fallback is the last type 3 mixed, some wrapped
#include "common.hpp"
#include <boost/functional/hash.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/push_front.hpp>
#include <boost/mpl/push_back.hpp>
#include <boost/mpl/joint_view.hpp>
#include <sstream>
#ifndef LEN
#define LEN 21
#endif
#ifndef SEQ
#define SEQ 1
#endif
#ifndef KIND
#define KIND 1
#endif
// -DSEL=expression in i: the positions driven (compile time grows with their number times LEN); default all
// -DLIGHT: no assignment or swap between variants (their code grows with LEN*LEN where copies may throw), only of values
#ifndef SEL
#define SEL(i) 1
#endif
#ifdef EDGES   // boundaries of the unrolling limit and of a one-byte index, and both ends
#undef SEL
#define SEL(i) ((i) == 0 || (i) == LEN - 1 || (i) == 19 || (i) == 20 || (i) == 39 || (i) == 40 || (i) == 59 || (i) == 60 || (i) == 79 || (i) == 80 || (i) == 119 || (i) == 120 || (i) == 126 || (i) == 127 || (i) == 128)
#endif
#ifdef LIGHT
#define HOWS 2
#else
#define HOWS 4
#endif
namespace mpl = boost::mpl;
// bounded type number I of n
template <int I, int L, int K> struct Ty;
template <int I, int L> struct Ty<I, L, 0> { typedef T<I + 1, 0, 2, 2> type; };
template <int I, int L> struct Ty<I, L, 1> { typedef T<I + 1, 0, 1, 1> type; };
template <int I, int L> struct Ty<I, L, 2> { typedef T<I + 1, I == L - 1 ? 2 : 0, 1, 1> type; };
template <int I, int L> struct Ty<I, L, 3> { typedef T<I + 1, 0, 1, I % 3, I % 4 * 8> P; typedef typename std::conditional<I % 5 == 3, recursive_wrapper<P>, P>::type type; };
template <int I> struct X : Ty<I, LEN, KIND> {};
template <int I> struct XU { typedef typename Unwrap<typename X<I>::type>::type type; };
// sequences
template <int I, int E> struct MkList { typedef typename mpl::push_front<typename MkList<I + 1, E>::type, typename X<I>::type>::type type; };
template <int E> struct MkList<E, E> { typedef mpl::list0<> type; };
template <int I> struct MkVec { typedef typename mpl::push_back<typename MkVec<I - 1>::type, typename X<I - 1>::type>::type type; };
template <> struct MkVec<0> { typedef mpl::vector0<> type; };
template <int... I> struct Idx {}; template <int N, int... I> struct MkIdx : MkIdx<N - 1, N - 1, I...> {}; template <int... I> struct MkIdx<0, I...> { typedef Idx<I...> type; };
template <class> struct Direct; template <int... I> struct Direct<Idx<I...> > { typedef boost::variant<typename X<I>::type...> type; };
#if SEQ == 0
typedef Direct<MkIdx<LEN>::type>::type V;
#elif SEQ == 1
typedef boost::make_variant_over<MkList<0, LEN>::type>::type V;
#elif SEQ == 2
typedef boost::make_variant_over<MkVec<LEN>::type>::type V;
#else
typedef MkList<0, LEN / 2>::type FirstHalf; typedef MkList<LEN / 2, LEN>::type SecondHalf;
typedef boost::make_variant_over<mpl::joint_view<FirstHalf, SecondHalf>::type>::type V;
#endif
// the same types in reversed order, as a conversion partner
template <int I, int E> struct MkRev { typedef typename mpl::push_front<typename MkRev<I - 1, E>::type, typename X<I>::type>::type type; }; template <int E> struct MkRev<E, E> { typedef mpl::list0<> type; };
typedef boost::make_variant_over<MkRev<LEN - 1, -1>::type>::type R;

struct Tag : boost::static_visitor<int> { mutable int calls; mutable const void* at; mutable long val; Tag() : calls(0), at(0), val(0) {}
    template <class U> int operator()(const U& u) const { ++calls; at = &u; val = u.get(); return (int)U::tid - 1; } };
struct Bump : boost::static_visitor<int&> { int store; int last; template <class U> int& operator()(U& u) { u.val += 1000; last = U::tid - 1; return store; } };
struct Steal : boost::static_visitor<long> { int last; template <class U> long operator()(U&& u) { last = std::decay<U>::type::tid - 1; static_assert(!std::is_reference<U>::value, "rvalue"); long v = u.get(); return v; } };
#ifdef BIN
struct Two : boost::static_visitor<long> { mutable int calls; Two() : calls(0) {} template <class A, class B> long operator()(const A& a, const B& b) const { ++calls; return ((long)A::tid - 1) * 1000 + (long)B::tid - 1 + (a.get() * 10000 + b.get()) * 1000000; } };
#endif
struct Ops { void (*make)(void* at, long v); void (*assign)(V& v, long val, int how); bool (*holds)(V& v, long& val, const void*& at); void (*throwing)(V& v, long val, long n, bool& threw); };
template <int I> struct OpsOf {
    typedef typename XU<I>::type U;
    static void make(void* at, long v) {
#ifdef LIGHT
        const U u(v); new (at) V(u);
#else
        if (v & 1) new (at) V(U(v)); else { const U u(v); new (at) V(u); }
#endif
    }
    static void assign(V& v, long val, int how) {
#ifndef LIGHT
        if (how == 0) v = U(val); else
#endif
        if (how <= 1) { const U u(val); v = u; } 
#ifndef LIGHT
        else { V w((U(val))); if (how == 2) v = w; else v = std::move(w); }
#endif
    }
    static bool holds(V& v, long& val, const void*& at) { U* p = boost::relaxed_get<U>(&v);
#ifndef LIGHT
        const U* q = boost::relaxed_get<U>(&static_cast<const V&>(v)); if (p != q) violation("C20,C07", "get-const", "const and non-const get of position %d disagree", I);
        if (boost::strict_get<U>(&v) != p) violation("C20,C07", "get-strict", "strict_get of position %d disagrees with get", I);
#endif
        if (!p) return false; val = p->get(); at = p; return true; }
    static void throwing(V& v, long val, long n, bool& threw) { const U u(val); threw = false; Inside in; arm(n); try { v = u; } catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } disarm(); fault_ctx() = false; }
};
template <int I, bool S> struct OpsSel : OpsOf<I> {};
template <int I> struct OpsSel<I, false> { typedef OpsOf<I> O; static void make(void*, long) { std::abort(); } static bool holds(V&, long&, const void*&) { return false; } static void assign(V&, long, int) {} static void throwing(V&, long, long, bool&) {} };
template <int... I> const Ops* table(Idx<I...>) { static const Ops t[] = { { &OpsSel<I, SEL(I)>::make, &OpsSel<I, SEL(I)>::assign, &OpsSel<I, SEL(I)>::holds, &OpsSel<I, SEL(I)>::throwing }... }; return t; }
static const Ops* ops() { static const Ops* t = table(MkIdx<LEN>::type()); return t; }
template <int... I> const std::type_info* const* infos(Idx<I...>) { static const std::type_info* const t[] = { &typeid(typename XU<I>::type)... }; return t; }

struct Box { alignas(V) unsigned char b[sizeof(V)]; V& v; Box(int i, long val) : v(*(V*)b) { std::memset(b, 0xE1, sizeof b); ops()[i].make(b, val); } ~Box() { v.~V(); } };
static int nxt(int i, int d) { int j = (i + d) % LEN; while (!SEL(j)) j = (j + 1) % LEN; return j; }
static bool heavy = false;
static void look(V& v, int i, long val, const char* op) {
    static const std::type_info* const* ti = infos(MkIdx<LEN>::type());
    CHECK("C20", v.which() == i, "which", "%s: which() is %d, not %d", op, v.which(), i); CHECK("C20", !v.empty() && v.type() == *ti[i], "type", "%s: type() is not that of position %d", op, i);
    Tag t; int g = boost::apply_visitor(t, static_cast<const V&>(v)); CHECK("C20,C09", g == i && t.calls == 1 && t.val == val, "visit", "%s: visitation of position %d called position %d, %d times, value %ld for %ld", op, i, g, t.calls, t.val, val);
    long x = 0; const void* at = 0; bool h = ops()[i].holds(v, x, at); CHECK("C20,C07", h && x == val && at == t.at, "get", "%s: get of position %d gives %d, value %ld for %ld", op, i, (int)h, x, val);
    if (heavy) for (int j = 0; j < LEN; ++j) if (j != i) { long y; const void* q; CHECK("C20,C07", !ops()[j].holds(v, y, q), "get-other", "%s: get of position %d succeeds on position %d", op, j, i); }
    digest().add(v.which()); digest().add(x);
}
static bool kept_outside(V& v) { return is_outside(v); }
int main(int argc, char** argv) {
    long seed = argc > 1 ? std::atol(argv[1]) : 1; int stride = argc > 2 ? std::atoi(argv[2]) : 1; Rng rng((std::uint64_t)seed);
    const char* nm = "big"; long live0 = reg().n;
    // single positions
    heavy = true;
    for (int i = 0; i < LEN; ++i) for (int odd = 0; odd < 2; ++odd) {
        if (!SEL(i)) continue;
        set_case("length %d kind %d seq %d: position %d", LEN, KIND, SEQ, i); seen(nm, LEN, SEQ, KIND, i); long val = 100 + 2 * i + odd;
        Box a(i, val); look(a.v, i, val, "construction"); V c(a.v); look(c, i, val, "copy"); const V cc(c); V d(cc); look(d, i, val, "copy of const"); V m(std::move(d)); look(m, i, val, "move"); 
        { int w = d.which(); CHECK("C20,C05", w == i, "moved-from", "moved-from position %d became %d", i, w); }
#ifndef LIGHT
        c = c; look(c, i, val, "self assignment"); swap(c, c); look(c, i, val, "self swap");
#endif
        Bump b; b.last = -1; int& r = boost::apply_visitor(b, c); CHECK("C20,C09", &r == &b.store && b.last == i, "visit-mutable", "mutable visitation of position %d reached %d", i, b.last); look(c, i, val + 1000, "mutation"); look(a.v, i, val, "independence");
        Steal s; s.last = -1; long sv = boost::apply_visitor(s, std::move(c)); CHECK("C20,C09", sv == val + 1000 && s.last == i, "visit-rvalue", "rvalue visitation of position %d reached %d", i, s.last);
        // hash and text
        std::ostringstream o, e; o << a.v; e << val; CHECK("C20,C13", o.str() == e.str(), "stream", "position %d writes %s for %ld", i, o.str().c_str(), val);
        CHECK("C20,C12", boost::hash<V>()(a.v) == boost::hash<V>()(m) && std::hash<V>()(a.v) == boost::hash<V>()(m), "hash", "equal values at position %d hash differently", i);
        // conversion to the reversed list and back
#ifndef LIGHT
        R rv(a.v); CHECK("C20,C06", rv.which() == LEN - 1 - i, "convert", "conversion of position %d to the reversed list gives %d", i, rv.which()); V back(rv); look(back, i, val, "conversion back"); Box t(nxt(i, 7), 3); t.v = rv; look(t.v, i, val, "assignment from the reversed list"); V mv(std::move(rv)); look(mv, i, val, "moving conversion");
#endif
    }
    // hashes of equal contents at different positions are spread
    { static KeySet hs; int n = 0, all = 0; for (int i = 0; i < LEN; ++i) if (SEL(i)) { ++all; Box a(i, 7); if (hs.add(boost::hash<V>()(a.v) | 1ull << 63)) ++n; } CHECK("C20,C12", all < 4 || n > all * 3 / 4, "hash-spread", "equal contents at %d positions have %d hashes", all, n); }
    heavy = false;
    // pairs of positions
    for (int i = 0; i < LEN; ++i) for (int j = 0; j < LEN; ++j) {
        if (!SEL(i) || !SEL(j)) continue;
        if (stride > 1 && !(i % 20 >= 19 || i % 20 == 0 || i >= 126) && !(j % 20 >= 19 || j % 20 == 0 || j >= 126) && rng.below((unsigned)stride)) continue;
        set_case("length %d kind %d seq %d: positions %d %d", LEN, KIND, SEQ, i, j); seen(nm, LEN, SEQ, KIND, i, j); count("pairs"); long x = 10 + (long)rng.below(50), y = 10 + (long)rng.below(50);
        for (int how = 0; how < HOWS; ++how) { Box a(i, x); ops()[j].assign(a.v, y, how); look(a.v, j, y, how == 0 ? "assignment of an rvalue" : how == 1 ? "assignment of a value" : how == 2 ? "copy assignment" : "move assignment"); }
#ifndef LIGHT
        { Box a(i, x), b(j, y); CHECK("C20,C11", (a.v == b.v) == (i == j && x == y) && (a.v < b.v) == (i < j || (i == j && x < y)) && (a.v > b.v) == (j < i || (i == j && y < x)) && (a.v != b.v) == !(i == j && x == y) && (a.v <= b.v) == !(j < i || (i == j && y < x)), "compare", "comparison of positions %d (%ld) and %d (%ld)", i, x, j, y);
          swap(a.v, b.v); look(a.v, j, y, "swap"); look(b.v, i, x, "swap"); a.v.swap(b.v); look(a.v, i, x, "swap back"); look(b.v, j, y, "swap back"); }
#endif
#ifdef BIN
        { Box a(i, x), b(j, y); Two t; long g = boost::apply_visitor(t, a.v, b.v); CHECK("C20,C10", g == (long)i * 1000 + j + (x * 10000 + y) * 1000000 && t.calls == 1, "visit-two", "binary visitation of %d and %d gives %ld", i, j, g); }
#endif
        // failing assignments: the old value, in whatever storage, or the fallback
        for (long n = 1; n <= 4; ++n) { Box a(i, x); bool threw; ops()[j].throwing(a.v, y, n, threw); add_case(" fault %ld", n); if (!threw) { look(a.v, j, y, "assignment without fault"); break; } count("faults");
            int w = a.v.which(); if (i == j) { CHECK("C20", w == i, "which", "failed assignment within one type left position %d", w); continue; }
            if (KIND == 2 && w == LEN - 1) { long z = 0; const void* q; if (ops()[w].holds(a.v, z, q) && !(i == w && z == x)) { look(a.v, w, 0, "failed assignment, fallback"); continue; } }
            look(a.v, i, x, "failed assignment"); if (w != i) continue;
            if (kept_outside(a.v)) count("backup_states");
            // go on from there
            V c(a.v); look(c, i, x, "copy after failure"); 
#ifdef LIGHT
            V m(std::move(c)); look(m, i, x, "move of a copy of the survivor"); V m2(std::move(a.v)); look(m2, i, x, "move of the survivor"); ops()[j].assign(a.v, 5, 1); look(a.v, j, 5, "assignment after failure"); }
#else
            Box b(j, y); swap(a.v, b.v); look(a.v, j, y, "swap after failure"); look(b.v, i, x, "swap after failure"); Box d(j, y); d.v = b.v; look(d.v, i, x, "copy assignment from the survivor"); CHECK("C20,C11", d.v == b.v && !(d.v < b.v), "compare-after", "survivor compares unequal to its copy"); V m(std::move(b.v)); look(m, i, x, "move of the survivor"); ops()[nxt(i, 1)].assign(b.v, 5, 1); look(b.v, nxt(i, 1), 5, "assignment after failure"); }
#endif
    }
    CHECK("C20,C03", reg().n == live0, "leak", "%d content objects are alive at the end", (int)(reg().n - live0));
    finish(); return 0;
}
