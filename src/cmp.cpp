// C11: comparison operators against arbitrary content relations; C12: hashing; both over all states and histories.
#include "common.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <boost/functional/hash.hpp>

// relation tables the contents answer from: any relation, not only lawful ones
static bool EQ[8][8], LT[8][8];
struct CallLog { int eq, lt; const void* l[4]; const void* r[4]; int n; void reset() { eq = lt = n = 0; } void add(bool e, const void* a, const void* b) { if (e) ++eq; else ++lt; if (n < 4) { l[n] = a; r[n] = b; ++n; } } };
static CallLog g; static bool g_throw; struct Boom { int op; };
// N identifies the type; THR: copies may throw (so that backup states exist)
template <int N, bool THR> struct L {
    int v; char pad[N * 3 + 1];
    explicit L(int x = 0) : v(x) { pad[0] = 1; }
    L(const L& o) : v(o.v) { if (THR) point(); pad[0] = 1; }
    L& operator=(const L& o) { if (THR) point(); v = o.v; return *this; }
    friend bool operator==(const L& a, const L& b) { g.add(true, &a, &b); if (g_throw) { Boom x = { 1 }; throw x; } return EQ[a.v][b.v]; }
    friend bool operator<(const L& a, const L& b) { g.add(false, &a, &b); if (g_throw) { Boom x = { 2 }; throw x; } return LT[a.v][b.v]; }
#ifdef LYING      // operators the library must not use
    friend bool operator!=(const L& a, const L& b) { g.add(false, 0, 0); return EQ[a.v][b.v]; }
    friend bool operator>(const L& a, const L& b) { g.add(false, 0, 0); return LT[a.v][b.v]; }
    friend bool operator<=(const L& a, const L& b) { g.add(false, 0, 0); return LT[b.v][a.v]; }
    friend bool operator>=(const L& a, const L& b) { g.add(false, 0, 0); return LT[b.v][a.v]; }
#endif
    friend std::size_t hash_value(const L& a) { if (g_throw) { Boom x = { 3 }; throw x; } return (std::size_t)a.v; }
};
template <class U> struct Mk { static U make(int v) { return U(v); } };

template <class V> struct Run;
template <class... Ts> struct Run<boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V;
    struct Item { V v; int t; int val; Item(const V& x, int a, int b) : v(x), t(a), val(b) {} };
    std::vector<Item*> items; const char* lname;
    explicit Run(const char* n) : lname(n) {}
    ~Run() { for (auto p : items) delete p; }
    template <class X> void add1() { typedef typename Unwrap<X>::type U; for (int v = 0; v < 5; ++v) items.push_back(new Item(V(Mk<U>::make(v)), IndexOf<U, Ts...>::value, v)); }
    template <class A, class B> void add_backup() {
        for (int v = 0; v < 5; v += 2) { V x(Mk<A>::make(0)); B b = Mk<B>::make(3); if (into_backup<A>(x, v, b)) { Item* it = new Item(V(Mk<A>::make(0)), IndexOf<A, Ts...>::value, v); into_backup<A>(it->v, v, b); items.push_back(it); } }
    }
    void fill() { int d[] = { (this->template add1<Ts>(), 0)... }; (void)d; }
    struct Res { bool r, threw; };
    template <class F> static Res run(F f) { Res x = { false, false }; g.reset(); try { x.r = f(); } catch (const Boom&) { x.threw = true; } return x; }
    void calls_ok(const char* op, bool same, bool eq, const void* l, const void* r) {
        CHECK("C11", same ? g.n >= 1 : g.n == 0, op, "%d content comparisons for %s types", g.n, same ? "equal" : "different");
        CHECK("C11", eq ? g.lt == 0 : g.eq == 0, op, "used another content operator");
        for (int i = 0; i < g.n; ++i) CHECK("C11", g.l[i] == l && g.r[i] == r, op, "content operator called with other operands or in the wrong order");
    }
    void pairs() {
        for (std::size_t i = 0; i < items.size(); ++i) for (std::size_t j = 0; j < items.size(); ++j) {
            const Item& a = *items[i]; const Item& b = *items[j]; const V& x = a.v; const V& y = b.v;
            set_case("%s: a=(type %d value %d) b=(type %d value %d) throw=%d", lname, a.t, a.val, b.t, b.val, (int)g_throw);
            seen(lname, a.t, a.val, b.t, b.val, is_outside(x) * 2 + is_outside(y), EQ[a.val][b.val] + 2 * LT[a.val][b.val]);
            bool same = a.t == b.t; const void* l = content_addr(x); const void* r = content_addr(y);
            bool eq = same && EQ[a.val][b.val], lt = same ? LT[a.val][b.val] : a.t < b.t, gt = same ? LT[b.val][a.val] : b.t < a.t;
            bool thr = g_throw && same;
            static_assert(std::is_same<decltype(x == y), bool>::value, "");
            Res q;
#define OP(NAME, EXPR, WANT, ISEQ, LL, RR) q = run([&] { return EXPR; }); CHECK("C11", q.threw == thr, NAME, thr ? "exception of the content operator swallowed" : "unexpected exception"); if (!thr) CHECK("C11", q.r == (WANT), NAME, "%d, expected %d", (int)q.r, (int)(WANT)); calls_ok(NAME, same, ISEQ, LL, RR);
            OP("==", x == y, eq, true, l, r) OP("!=", x != y, !eq, true, l, r) OP("<", x < y, lt, false, l, r) OP(">", x > y, gt, false, r, l) OP("<=", x <= y, !gt, false, r, l) OP(">=", x >= y, !lt, false, l, r)
            CHECK("C11", x.which() == a.t && y.which() == b.t && content_addr(x) == l && content_addr(y) == r, "changed", "comparison changed an operand");
        }
    }
    void rounds(std::uint64_t seed, int n) {
        Rng rng(seed);
        for (int k = 0; k < n; ++k) {
            for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) {
                if (k == 0) { EQ[i][j] = i == j; LT[i][j] = i < j; }
                else if (k == 1) { EQ[i][j] = i / 2 == j / 2; LT[i][j] = i / 2 < j / 2; }
                else if (k == 2) { EQ[i][j] = false; LT[i][j] = true; }
                else { EQ[i][j] = rng.chance(1, 2); LT[i][j] = rng.chance(1, 2); }
            }
            pairs();
        }
        g_throw = true; pairs(); g_throw = false;
    }
};

// ---------------------------------------------------------------- real values: laws, containers, hashing
struct H { long v; explicit H(long x = 0) : v(x) {} friend bool operator==(const H& a, const H& b) { return a.v == b.v; } friend bool operator<(const H& a, const H& b) { return a.v < b.v; } friend std::size_t hash_value(const H& a) { return (std::size_t)a.v; } };
template <int N> struct HT { long v; explicit HT(long x = 0) : v(x) {} HT(const HT& o) : v(o.v) { point(); } HT& operator=(const HT& o) { point(); v = o.v; return *this; }
    friend bool operator==(const HT& a, const HT& b) { return a.v == b.v; } friend bool operator<(const HT& a, const HT& b) { return a.v < b.v; } friend std::size_t hash_value(const HT& a) { return (std::size_t)a.v; } };
template <class U> struct Rnd { static U make(long v) { return U(v); } static long of(const U& u) { return u.v; } };
template <> struct Rnd<int> { static int make(long v) { return (int)v; } static long of(int v) { return v; } };
template <> struct Rnd<double> { static double make(long v) { return v % 7 == 3 ? std::numeric_limits<double>::quiet_NaN() : v % 7 == 4 ? -0.0 : v % 7 == 5 ? 0.0 : (double)v; } static long of(double) { return 0; } };
template <> struct Rnd<std::string> { static std::string make(long v0) { unsigned long v = (unsigned long)v0; std::string s((std::size_t)(v % 30), 'a'); for (char& c : s) { c = (char)('a' + v % 3); v = v * 31 + 7; } return s; } static long of(const std::string&) { return 0; } };
template <class A, class B> struct Rnd<boost::variant<A, B> > { static boost::variant<A, B> make(long v) { if (v & 1) return Rnd<A>::make(v / 2); return Rnd<B>::make(v / 2); } static long of(const boost::variant<A, B>&) { return 0; } };

template <class V> struct Laws;
template <class... Ts> struct Laws<boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V; typedef std::vector<V> Vec;
    struct Eq { const V* o; const char* op; template <class U> void go() { const U* a = boost::get<U>(o); (void)a; } };
    template <class X> static V mk1(long v) { return V(Rnd<typename Unwrap<X>::type>::make(v)); }
    static V mk(int t, long v) { typedef V (*F)(long); static const F f[] = { &mk1<Ts>... }; return f[t](v); }
    // content comparison through get, type by type
    template <class X> static void c1(const V& a, const V& b, int& eq, int& lt) { typedef typename Unwrap<X>::type U; const U* p = boost::get<U>(&a); const U* q = boost::get<U>(&b); if (p && q) { eq = *p == *q; lt = *p < *q; } }
    static void model(const V& a, const V& b, bool& eq, bool& lt) {
        if (a.which() != b.which()) { eq = false; lt = a.which() < b.which(); return; }
        int e = 0, l = 0; int d[] = { (c1<Ts>(a, b, e, l), 0)... }; (void)d; eq = e; lt = l;
    }
    static void go(const char* name, std::uint64_t seed, int n) {
        Rng rng(seed); Vec v;
        for (int i = 0; i < n; ++i) v.push_back(mk((int)rng.below(sizeof...(Ts)), (long)rng.below(60)));
        set_case("%s: laws on %d random values", name, n);
        for (const V& a : v) for (const V& b : v) {
            bool eq, lt; model(a, b, eq, lt); bool eq2, gt; model(b, a, eq2, gt);
            CHECK("C11", (a == b) == eq && (a != b) == !eq && (a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, "values", "comparison of type %d and %d wrong", a.which(), b.which());
        }
    }
    // lawful contents only: containers agree with a reference order
    static void containers(const char* name, std::uint64_t seed, int n) {
        Rng rng(seed); Vec v; std::vector<std::pair<int, V> > ref;
        for (int i = 0; i < n; ++i) v.push_back(mk((int)rng.below(sizeof...(Ts)), (long)rng.below(25)));
        set_case("%s: containers of %d values", name, n);
        auto less = [](const V& a, const V& b) { bool e, l; model(a, b, e, l); return l; };
        auto equal = [](const V& a, const V& b) { bool e, l; model(a, b, e, l); return e; };
        Vec s1 = v, s2 = v; std::sort(s1.begin(), s1.end()); std::stable_sort(s2.begin(), s2.end(), less);
        CHECK("C11", std::equal(s1.begin(), s1.end(), s2.begin(), equal), "sort", "sorting by < differs from the reference order");
        std::set<V> st(v.begin(), v.end()); Vec uniq; for (const V& x : s2) if (uniq.empty() || !equal(uniq.back(), x)) uniq.push_back(x);
        CHECK("C11", st.size() == uniq.size() && std::equal(uniq.begin(), uniq.end(), st.begin(), equal), "set", "std::set has %d elements, expected %d", (int)st.size(), (int)uniq.size());
        std::unordered_set<V, boost::hash<V> > us(v.begin(), v.end()); std::unordered_set<V> us2(v.begin(), v.end());
        CHECK("C12", us.size() == uniq.size(), "unordered", "unordered_set<boost::hash> has %d elements, expected %d", (int)us.size(), (int)uniq.size());
        CHECK("C12", us2.size() == uniq.size(), "unordered", "unordered_set<std::hash> has %d elements, expected %d", (int)us2.size(), (int)uniq.size());
        for (const V& x : v) CHECK("C12", us.count(x) == 1 && us2.count(x) == 1, "unordered", "element not found");
        hashing(name, v);
    }
    static void hashing(const char* name, const Vec& v) {
        boost::hash<V> bh; std::hash<V> sh;
        for (const V& a : v) {
            std::size_t h = bh(a); set_case("%s: hash of type %d", name, a.which());
            CHECK("C12", sh(a) == h && boost::hash_value(a) == h && bh(a) == h, "hash-forms", "std::hash, boost::hash and hash_value differ");
            for (const V& b : v) { bool eq, lt; model(a, b, eq, lt); if (eq) CHECK("C12", bh(b) == h, "equal-hash", "equal variants with different hashes"); }
            // the same value reached in other ways
            V c(a); CHECK("C12", bh(c) == h, "copy", "hash of a copy differs"); V m(std::move(c)); CHECK("C12", bh(m) == h, "move", "hash of a moved value differs");
            for (const V& b : { v[0], v[v.size() / 2], v[v.size() - 1] }) {
                V d(b); d = a; CHECK("C12", bh(d) == h, "assigned", "hash after assignment differs"); V e(b), f(a); e.swap(f); CHECK("C12", bh(e) == h, "swapped", "hash after swap differs");
                V k(b); k = std::move(d); CHECK("C12", bh(k) == h, "move-assigned", "hash after move assignment differs");
            }
            CHECK("C12", bh(a) == h, "changed", "hash changed by hashing");
            seen("hash", shash(name), h);
        }
    }
    // contents with equal hashes in different types, different hashes in the same type
    static void spread(const char* name, std::uint64_t seed, int n) {
        Rng rng(seed); std::vector<std::size_t> hs; boost::hash<V> bh; std::set<long> vals;
        for (int i = 0; i < n; ++i) { long x = i < 40 ? i - 8 : i < 100 ? (1l << (i - 40)) : i < 160 ? ~(1l << (i - 100)) : (long)(rng.next() >> (i % 40)); vals.insert(x); }
        set_case("%s: hash spread over %d values and %d types", name, (int)vals.size(), (int)sizeof...(Ts));
        long ts = 0, tt = 0;
        for (long x : vals) { std::vector<std::size_t> per; for (int t = 0; t < (int)sizeof...(Ts); ++t) { std::size_t h = bh(mk(t, x)); hs.push_back(h); per.push_back(h); }
            std::sort(per.begin(), per.end()); ts += (long)(std::unique(per.begin(), per.end()) - per.begin()); tt += (long)sizeof...(Ts); }
        CHECK("C12", ts * 100 >= tt * 98, "spread-types", "%ld contents held in different types give only %ld hashes", tt, ts);
        // for one content at a time: the type must make a difference whatever the content's hash is
        for (long x : { 0l, 1l, -1l, 2l, 5l, 17l, 255l, 256l, 65536l, 0x9e3779b9l, (long)0x9e3779b97f4a7c15ull, (long)0x8000000000000000ull, (long)0x7fffffffffffffffull, 0x7fffffffl, 0xffffffffl }) {
            std::set<std::size_t> s; for (int t = 0; t < (int)sizeof...(Ts); ++t) { V v(mk(t, x)); std::size_t h = bh(v); s.insert(h); CHECK("C12", std::hash<V>()(v) == h && boost::hash_value(v) == h, "hash-forms", "type %d: std::hash, boost::hash and hash_value differ", t); }
            CHECK("C12", s.size() * 10 >= sizeof...(Ts) * 9 && (s.size() > 1 || sizeof...(Ts) == 1), "spread-one", "content hash %lx: %d types give %d hashes", (unsigned long)x, (int)sizeof...(Ts), (int)s.size()); seen("one", shash(name), x); }
        std::size_t total = hs.size(); std::sort(hs.begin(), hs.end()); std::size_t uniq = (std::size_t)(std::unique(hs.begin(), hs.end()) - hs.begin());
        sample("%s: %d (type, value) pairs, %d distinct hashes", name, (int)total, (int)uniq);
        // and per pair of types / values
        for (int t = 0; t < (int)sizeof...(Ts); ++t) { std::set<std::size_t> s; for (long x : vals) s.insert(bh(mk(t, x))); CHECK("C12", s.size() * 100 >= vals.size() * 98, "spread-values", "type %d: %d values give %d hashes", t, (int)vals.size(), (int)s.size()); }
    }
};
template <class V, class A, class B> void backup_hash(const char* name) {
    set_case("%s: hash and comparison of backed-up values", name);
    for (long x = 0; x < 20; ++x) {
        V v(A(0)); B b(3); if (!into_backup<A>(v, x, b)) return;
        V p((A(x))); CHECK("C12", boost::hash<V>()(v) == boost::hash<V>()(p) && std::hash<V>()(v) == boost::hash<V>()(p), "backup-hash", "hash of a value that survived a failed assignment differs");
        CHECK("C11", v == p && p == v && !(v != p) && !(v < p) && v <= p && !(p > v), "backup-compare", "a value that survived a failed assignment does not equal itself");
        V q((A(x + 1))); CHECK("C11", v < q && q > v && v != q && !(q <= v), "backup-compare", "wrong order with a value that survived a failed assignment");
        seen("backup", shash(name), x);
    }
}

int main(int argc, char** argv) {
    std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], 0, 10) : 1; int n = argc > 2 ? std::atoi(argv[2]) : 12;
#if PART == 1
    { typedef boost::variant<L<0,false>, L<1,false>, L<2,false> > V; Run<V> r("plain"); r.fill(); r.rounds(seed, n); }
    { typedef boost::variant<L<1,true>, L<0,true>, L<2,true>, L<3,true> > V; Run<V> r("throwing copies"); r.fill(); r.add_backup<L<1,true>, L<0,true> >(); r.add_backup<L<0,true>, L<3,true> >(); r.add_backup<L<3,true>, L<1,true> >(); r.rounds(seed + 1, n); }
    { typedef boost::variant<recursive_wrapper<L<0,false> >, L<1,false>, recursive_wrapper<L<2,false> > > V; Run<V> r("wrapped"); r.fill(); r.rounds(seed + 2, n); }
    { typedef boost::variant<L<0,false> > V; Run<V> r("single"); r.fill(); r.rounds(seed + 3, n); }
    { typedef boost::variant<L<0,false>, L<1,false>, L<2,false>, L<3,false>, L<4,false>, L<5,false>, L<6,false>, L<7,false> > V; Run<V> r("eight"); r.fill(); r.rounds(seed + 4, n); }
#elif PART == 2
    { typedef boost::variant<int, double, std::string, H> V; Laws<V>::go("nan", seed, 30 + n * 10); }
    { typedef boost::variant<int, std::string, boost::variant<H, std::string>, recursive_wrapper<H> > V; Laws<V>::go("nested", seed, 30 + n * 10); Laws<V>::containers("nested", seed, 40 + n * 10); }
    { typedef boost::variant<recursive_wrapper<std::string>, int, H> V; Laws<V>::containers("wrapped", seed, 40 + n * 10); }
    { typedef boost::variant<int, H, HT<1>, HT<2> > V; Laws<V>::containers("hash", seed, 40 + n * 10); }
    { typedef boost::variant<H, HT<1>, HT<2>, recursive_wrapper<HT<3> >, HT<4>, HT<5> > V; Laws<V>::spread("spread", seed, 200 + n * 50); backup_hash<V, HT<1>, HT<2> >("spread"); }
    { typedef boost::variant<HT<1>, HT<2>, HT<3>, HT<4>, HT<5>, HT<6>, HT<7>, HT<8>, HT<9>, HT<10>, HT<11>, HT<12>, HT<13>, HT<14>, HT<15>, HT<16>, HT<17>, HT<18>, HT<19>, HT<20> > V; Laws<V>::spread("spread20", seed, 100 + n * 10); backup_hash<V, HT<1>, HT<20> >("spread20"); backup_hash<V, HT<18>, HT<3> >("spread20"); }
    { typedef boost::variant<HT<1>, HT<2> > V; Laws<V>::spread("spread2", seed, 200 + n * 50); }
    { typedef boost::variant<HT<1>, HT<2>, HT<3> > V; backup_hash<V, HT<1>, HT<2> >("bk"); backup_hash<V, HT<2>, HT<3> >("bk"); backup_hash<V, HT<3>, HT<1> >("bk"); }
    { typedef boost::variant<L<0,true>, L<1,true> > V; V v(L<0,true>(3)); g_throw = true; bool t = false; try { boost::hash<V>()(v); } catch (const Boom& b) { t = b.op == 3; } CHECK("C12,C16", t, "hash-exception", "exception of the content hash did not reach the caller"); t = false; try { std::hash<V>()(v); } catch (const Boom& b) { t = b.op == 3; } CHECK("C12,C16", t, "hash-exception", "exception of the content hash did not reach the caller"); g_throw = false; }
#endif
    finish(); return 0;
}
