// C17: concurrent const access to shared variants and arbitrary operations on unshared ones, under ThreadSanitizer, with every
// result compared with the sequential one. Each thread repeats all const operations on a shared pool in its own random order, with
// random yields, while doing mutating histories on its own pool.
#include <boost/variant.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/functional/hash.hpp>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <sched.h>
using boost::recursive_wrapper; using boost::variant; using boost::blank;
static std::atomic<long> g_evals, g_bad, g_ops, g_switches;
static std::atomic<long> g_overlap; static std::atomic<unsigned char> g_seen[8][16][16][16]; static std::atomic<int> g_busy[8][16];
// relaxed atomics only: they add no happens-before edge that could hide a race
struct Busy { int w, i, j; Busy(int ww, unsigned op, unsigned a, unsigned b) : w(ww), i((int)a), j((int)b) { g_seen[w][op][a][b].store(1, std::memory_order_relaxed); int x = g_busy[w][i].fetch_add(1, std::memory_order_relaxed) + g_busy[w][j].fetch_add(1, std::memory_order_relaxed); if (x > (i == j ? 1 : 0)) g_overlap.fetch_add(1, std::memory_order_relaxed); } ~Busy() { g_busy[w][i].fetch_sub(1, std::memory_order_relaxed); g_busy[w][j].fetch_sub(1, std::memory_order_relaxed); } };
static void report(const char* key, const char* what) { if (g_bad++ < 50) { std::printf("V|C17|%s|%s\n", key, what); std::fflush(stdout); } }
#define CHK(c, key, what) do { g_evals.fetch_add(1, std::memory_order_relaxed); if (!(c)) report(key, what); } while (0)
struct Rng { unsigned long s; explicit Rng(unsigned long x) : s(x * 0x9E3779B97F4A7C15ul + 77) { next(); } unsigned long next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dul; } unsigned below(unsigned n) { return (unsigned)((next() >> 33) % n); } };
static thread_local bool t_throw;
// plain data only: any unsynchronized write to a shared object is a race the detector sees
struct Animal { long v; explicit Animal(long x) : v(x) {} virtual ~Animal() {} }; 
struct Dog : Animal { std::string n; explicit Dog(long x) : Animal(x), n("dog") {} bool operator==(const Dog& o) const { return v == o.v && n == o.n; } bool operator<(const Dog& o) const { return v < o.v; } };
struct Th { long v; std::string s; explicit Th(long x) : v(x), s("a string that is long enough to be on the heap") {} Th(const Th& o) : v(o.v), s(o.s) { if (t_throw) { t_throw = false; throw 1; } } Th& operator=(const Th& o) { v = o.v; s = o.s; return *this; } bool operator==(const Th& o) const { return v == o.v && s == o.s; } bool operator<(const Th& o) const { return v < o.v; } };
struct Th2 { long v; explicit Th2(long x) : v(x) {} Th2(const Th2& o) : v(o.v) { if (t_throw) { t_throw = false; throw 2; } } Th2& operator=(const Th2& o) { v = o.v; return *this; } bool operator==(const Th2& o) const { return v == o.v; } bool operator<(const Th2& o) const { return v < o.v; } };
static std::size_t hash_value(const Dog& d) { return (std::size_t)d.v; } static std::size_t hash_value(const Th& d) { return (std::size_t)d.v; } static std::size_t hash_value(const Th2& d) { return (std::size_t)d.v; }
template <class O> O& operator<<(O& o, const Dog& d) { o << d.v; return o; } 
static std::ostream& operator<<(std::ostream& o, const Dog& d) { return o << "D" << d.v; } static std::ostream& operator<<(std::ostream& o, const Th& d) { return o << "T" << d.v; } static std::ostream& operator<<(std::ostream& o, const Th2& d) { return o << "U" << d.v; }
template <class V> struct Val : boost::static_visitor<long> {
    long operator()(int x) const { return x; } long operator()(double x) const { return (long)x; } long operator()(const std::string& s) const { return (long)s.size() * 1000 + (s.empty() ? 0 : s[0]); } long operator()(const Dog& d) const { return d.v; } long operator()(const Th& d) const { return d.v; } long operator()(const Th2& d) const { return d.v; }
    long operator()(const blank&) const { return -1; } long operator()(const std::vector<V>& x) const { long r = 7; for (std::size_t i = 0; i < x.size(); ++i) r = r * 31 + boost::apply_visitor(*this, x[i]); return r; } };
struct Pair2 : boost::static_visitor<long> { template <class A, class B> long operator()(const A&, const B&) const { return (long)(sizeof(A) * 1000 + sizeof(B)); } template <class A, class B, class C> long operator()(const A&, const B&, const C&) const { return (long)(sizeof(A) * 100 + sizeof(B) * 10 + sizeof(C)); } };
struct Res { int which; const std::type_info* ti; long val; std::size_t h; std::string text; bool eq, lt; long two, three; };
template <class V> struct Kit;
template <class V> Res observe(const V& v, const V& w) {
    Res r; r.which = v.which(); r.ti = &v.type(); Val<V> x; r.val = boost::apply_visitor(x, v); r.h = boost::hash<V>()(v) ^ std::hash<V>()(v); r.text = Kit<V>::text(v); r.eq = v == w; r.lt = v < w; Pair2 p; r.two = boost::apply_visitor(p, v, w); r.three = boost::apply_visitor(p, v, w, v); return r; }
static bool same(const Res& a, const Res& b) { return a.which == b.which && *a.ti == *b.ti && a.val == b.val && a.h == b.h && a.text == b.text && a.eq == b.eq && a.lt == b.lt && a.two == b.two && a.three == b.three; }
typedef variant<int, std::string, Dog, double> V1; typedef variant<Th, Th2> V2; typedef variant<recursive_wrapper<Dog>, std::string, recursive_wrapper<Th> > V3;
typedef boost::make_recursive_variant<int, std::string, std::vector<boost::recursive_variant_> >::type V4;
template <class V> std::string text_of(const V& v) { std::ostringstream o; o << v; return o.str(); }
template <> struct Kit<V1> { enum { id = 1 }; static V1 make(Rng& r) { switch (r.below(4)) { case 0: return V1((int)r.below(100)); case 1: return V1(std::string(r.below(60), 'x')); case 2: return V1(Dog(r.below(50))); default: return V1(1.5 + r.below(9)); } } static std::string text(const V1& v) { return text_of(v); } };
template <> struct Kit<V2> { enum { id = 2 }; static V2 make(Rng& r) { V2 v = r.below(2) ? V2(Th(r.below(50))) : V2(Th2(r.below(50))); if (r.below(2)) { V2 w = v.which() ? V2(Th(1)) : V2(Th2(1)); t_throw = true; try { v = w; } catch (int) {} t_throw = false; } return v; } static std::string text(const V2& v) { return text_of(v); } };
template <> struct Kit<V3> { enum { id = 3 }; static V3 make(Rng& r) { switch (r.below(3)) { case 0: return V3(Dog(r.below(100))); case 1: return V3(std::string(r.below(60), 'x')); default: return V3(Th(r.below(50))); } } static std::string text(const V3& v) { return text_of(v); } };
template <> struct Kit<V4> { enum { id = 4 }; static V4 make(Rng& r, int d = 3) { switch (r.below(d ? 3 : 2)) { case 0: return V4((int)r.below(100)); case 1: return V4(std::string(r.below(60), 'x')); default: { std::vector<V4> x; unsigned n = r.below(4); for (unsigned i = 0; i < n; ++i) x.push_back(make(r, d - 1)); return V4(x); } } } static std::string text(const V4&) { return ""; } };
template <class V> void put_backup(V&, Rng&) {}
static void put_backup(V2& v, Rng& r) {              // leave a pool member in the state a failed assignment leaves
    V2 w = v.which() ? V2(Th((long)r.below(9))) : V2(Th2((long)r.below(9))); long val = boost::apply_visitor(Val<V2>(), v); int wh = v.which();
    t_throw = true; bool threw = false; try { v = w; } catch (int) { threw = true; } t_throw = false;
    if (threw) CHK(v.which() == wh && boost::apply_visitor(Val<V2>(), v) == val, "failed-assignment", "a failed assignment in one thread lost the value"); }
enum { SHARED = 12, OWN = 6 };
template <class V> struct World {
    std::vector<V> shared; std::vector<Res> expect; std::atomic<bool> go_;
    World(unsigned long seed) : go_(false) { Rng r(seed); for (int i = 0; i < SHARED; ++i) { shared.push_back(Kit<V>::make(r)); } for (int i = 0; i < SHARED; ++i) put_backup(shared[(std::size_t)i], r); for (int i = 0; i < SHARED; ++i) for (int j = 0; j < SHARED; ++j) expect.push_back(observe(shared[(std::size_t)i], shared[(std::size_t)j])); }
    void work(unsigned long seed, int iters) {
        while (!go_) sched_yield();
        Rng r(seed); std::vector<V> own; std::vector<long> model; Val<V> val;
        for (int i = 0; i < OWN; ++i) { own.push_back(Kit<V>::make(r)); model.push_back(boost::apply_visitor(val, own.back())); }
        for (int k = 0; k < iters; ++k) {
            unsigned i = r.below(SHARED), j = r.below(SHARED); const V& a = shared[i]; const V& b = shared[j]; const Res& e = expect[i * SHARED + j]; g_ops.fetch_add(1, std::memory_order_relaxed);
            if (r.below(6) == 0) { sched_yield(); g_switches.fetch_add(1, std::memory_order_relaxed); }
            unsigned op = r.below(9); Busy bz(Kit<V>::id, op, i, j);
            switch (op) {
            case 0: CHK(same(observe(a, b), e), "shared-observe", "concurrent readers of a shared variant saw something else than a sequential reader"); break;
            case 1: { V c(a); CHK(c == a && boost::apply_visitor(val, c) == e.val, "shared-copy", "a copy of a shared variant differs"); break; }
            case 2: { unsigned q = r.below(OWN); own[q] = a; model[q] = e.val; break; }
            case 3: { unsigned q = r.below(OWN), s = r.below(OWN); own[q].swap(own[s]); std::swap(model[q], model[s]); break; }
            case 4: { unsigned q = r.below(OWN); own[q] = Kit<V>::make(r); model[q] = boost::apply_visitor(val, own[q]); break; }
            case 5: CHK((boost::get<std::string>(&a) != 0) == (*e.ti == typeid(std::string)), "shared-get", "get on a shared variant gave another answer"); break;
            case 6: CHK((a == b) == e.eq && (a < b) == e.lt && boost::hash<V>()(a) == boost::hash<V>()(V(a)), "shared-compare", "comparison or hash of shared variants gave another answer"); break;
            case 7: { unsigned q = r.below(OWN); put_backup(own[q], r); break; }
            case 8: { unsigned q = r.below(OWN), s = r.below(OWN); if (q != s) { own[q] = std::move(own[s]); model[q] = model[s]; own[s] = a; model[s] = e.val; } break; }
            }
            unsigned q = r.below(OWN); CHK(boost::apply_visitor(val, own[q]) == model[q], "own", "a variant used by one thread only changed by itself");
        }
    }
    void run(unsigned long seed, int nt, int iters) { std::vector<std::thread> t; for (int i = 0; i < nt; ++i) t.emplace_back(&World::work, this, seed * 100 + (unsigned long)i, iters); go_ = true; for (auto& x : t) x.join(); }
};
template <> inline void World<V2>::work(unsigned long seed, int iters) {
    while (!go_) sched_yield();
    Rng r(seed); std::vector<V2> own; std::vector<long> model; Val<V2> val; for (int i = 0; i < OWN; ++i) { own.push_back(Kit<V2>::make(r)); model.push_back(boost::apply_visitor(val, own.back())); }
    for (int k = 0; k < iters; ++k) {
        unsigned i = r.below(SHARED), j = r.below(SHARED), q = r.below(OWN), s = r.below(OWN); const V2& a = shared[i]; const V2& b = shared[j]; const Res& e = expect[i * SHARED + j]; g_ops.fetch_add(1, std::memory_order_relaxed);
        if (r.below(6) == 0) { sched_yield(); g_switches.fetch_add(1, std::memory_order_relaxed); }
        unsigned op = r.below(7); Busy bz(2, op, i, j); switch (op) { case 0: case 1: CHK(same(observe(a, b), e), "shared-observe", "concurrent readers of a shared variant saw something else than a sequential reader"); break; case 2: own[q] = a; model[q] = e.val; break; case 3: own[q].swap(own[s]); std::swap(model[q], model[s]); break; case 4: put_backup(own[q], r); break; case 5: { V2 c(a); CHK(c == a, "shared-copy", "a copy of a shared variant differs"); break; } case 6: CHK((boost::get<Th>(&a) != 0) == (e.which == 0), "shared-get", "get on a shared variant gave another answer"); break; }
        CHK(boost::apply_visitor(val, own[q]) == model[q], "own", "a variant used by one thread only changed by itself");
    }
}
// polymorphic_get and delayed visitation on one shared object
static void poly_shared(unsigned long seed, int nt, int iters) {
    const V1 d(Dog(4)), s(std::string("x")); std::vector<std::thread> t; Val<V1> v; const boost::apply_visitor_delayed_t<Val<V1> > del = boost::apply_visitor(v);
    for (int i = 0; i < nt; ++i) t.emplace_back([&, i] { Rng r(seed + (unsigned long)i); for (int k = 0; k < iters; ++k) { const V1& x = r.below(2) ? d : s; g_ops.fetch_add(1, std::memory_order_relaxed); const Animal* p = boost::polymorphic_relaxed_get<Animal>(&x); CHK((p != 0) == (&x == &d) && (!p || p->v == 4), "shared-polymorphic", "polymorphic_get on a shared variant gave another answer"); bool th = false; try { (void)boost::get<double>(x); } catch (const boost::bad_get&) { th = true; } CHK(th, "shared-bad_get", "get on a shared variant did not throw"); CHK(del(x) == (&x == &d ? 4 : 1000 + 'x'), "shared-delayed", "a shared delayed visitor gave another answer"); } });
    for (auto& x : t) x.join();
}
// every entry point on variants of the thread's own: nothing may be shared behind the scenes
struct Cat : Animal { explicit Cat(long x) : Animal(x) {} bool operator==(const Cat& o) const { return v == o.v; } bool operator<(const Cat& o) const { return v < o.v; } };
static std::size_t hash_value(const Cat& d) { return (std::size_t)d.v; } static std::ostream& operator<<(std::ostream& o, const Cat& d) { return o << "C" << d.v; }
struct Base2 { long w; Base2() : w(3) {} virtual ~Base2() {} }; struct Ox : Base2, Animal { explicit Ox(long x) : Animal(x) {} };
typedef variant<Cat, Ox, Dog> VP; typedef variant<int, std::string> VN; typedef variant<int, double, std::string, Dog> VW; typedef variant<std::unique_ptr<long>, std::string> VM;
struct Set : boost::static_visitor<> { long n; explicit Set(long x) : n(x) {} void operator()(int& x) const { x = (int)n; } void operator()(std::string& s) const { s.assign((std::size_t)n, 'q'); } template <class U> void operator()(U& d) const { d.v = n; } };
struct Take3 : boost::static_visitor<long> { long operator()(std::string a, const std::string& b, int c) const { return (long)(a.size() + b.size()) + c; } template <class A, class B, class C> long operator()(const A&, const B&, const C&) const { return -5; } };
static long len(const std::string& s) { return (long)s.size(); }
struct Lcm : boost::static_visitor<std::string&> { std::string* f; std::string& operator()(std::string& s) const { return s; } template <class U> std::string& operator()(U&) const { return *f; } };
static void private_ops(unsigned long seed, int iters) {
    Rng r(seed); std::string fb("fb");
    for (int k = 0; k < iters; ++k) {
        g_ops.fetch_add(1, std::memory_order_relaxed); if (r.below(8) == 0) { sched_yield(); g_switches.fetch_add(1, std::memory_order_relaxed); }
        long n = (long)r.below(50); unsigned op = r.below(12); g_seen[5][op][0][0].store(1, std::memory_order_relaxed);
        switch (op) {
        case 0: case 1: { unsigned w = r.below(3); VP v = w == 0 ? VP(Cat(n)) : w == 1 ? VP(Ox(n)) : VP(Dog(n)); const VP& c = v; long a = -1, b = -1, d = -1; Base2* x = 0; bool thrown = false;
            if (op == 0) { try { a = boost::polymorphic_get<Animal>(v).v; b = boost::polymorphic_relaxed_get<Animal>(c).v; } catch (const boost::bad_polymorphic_get&) {} } else { Animal* p = boost::polymorphic_get<Animal>(&v); const Animal* q = boost::polymorphic_strict_get<Animal>(&c); if (p) { a = p->v; } if (q) b = q->v; }
            x = boost::polymorphic_get<Base2>(&v); try { d = boost::polymorphic_relaxed_get<Base2>(c).w; } catch (const boost::bad_polymorphic_get&) { thrown = true; }
            CHK(a == n && b == n && (x != 0) == (w == 1) && (!x || x->w == 3) && thrown == (w != 1) && (thrown || d == 3), "own-polymorphic", "polymorphic_get on a thread's own variant gave another answer while other threads used theirs"); break; }
        case 2: { VN v((int)n); Set s(n + 1); boost::apply_visitor(s, v); bool ok = boost::get<int>(v) == n + 1; v = std::string("x"); boost::apply_visitor_delayed_t<Set> del = boost::apply_visitor(s); del(v); CHK(ok && boost::get<std::string>(v).size() == (std::size_t)n + 1, "own-visit", "visitation of a thread's own variant went wrong"); break; }
        case 3: { VN s1(std::string((std::size_t)n, 'a')), s2(std::string(7, 'b')); VN i(3); Take3 t; long a = boost::apply_visitor(t, std::move(s1), s2, i), b = boost::apply_visitor(t, i, s2, i); CHK(a == n + 10 && b == -5, "own-multi", "multi-visitation of a thread's own variants went wrong"); break; }
        case 4: { VN v = r.below(2) ? VN(std::string((std::size_t)n, 'z')) : VN(4); long a = -1; bool th = false; try { a = boost::apply_visitor(boost::visitor_ptr(&len), v); } catch (const boost::bad_visit&) { th = true; } CHK(th == (v.which() == 0) && (th || a == n), "own-visitor_ptr", "visitor_ptr on a thread's own variant went wrong"); break; }
        case 5: { VN v = VN(std::string((std::size_t)n, 'z')); VW w(v); VW x(3.5); x = v; CHK(boost::get<std::string>(&w) && boost::get<std::string>(w).size() == (std::size_t)n && w == x, "own-convert", "conversion between a thread's own variants went wrong"); break; }
        case 6: { VN a((int)n), b(std::string("k")), c; c = std::move(a); a.swap(b); boost::swap(b, c); CHK(a.which() == 1 && b == VN((int)n) && c.which() == 0, "own-swap", "swap of a thread's own variants went wrong"); break; }
        case 7: { VW a = VW(Dog(n)), b(a); std::hash<VW> h; CHK(h(a) == h(b) && a == b && !(a < b) && !(a != b) && a <= b, "own-hash", "hash or comparison of a thread's own variants went wrong"); std::ostringstream o; o << a; std::ostringstream e; e << "D" << n; CHK(o.str() == e.str(), "own-stream", "streaming a thread's own variant wrote something else"); break; }
        case 8: { VM a(std::unique_ptr<long>(new long(n))); VM b(std::move(a)); VM c(std::string("s")); c = std::move(b); std::unique_ptr<long> p = boost::get<std::unique_ptr<long> >(std::move(c)); CHK(p && *p == n, "own-move", "moving a thread's own variant went wrong"); break; }
        case 9: { VN v = r.below(2) ? VN(1) : VN(std::string("q")); bool th = false; try { (void)boost::strict_get<std::string>(v); } catch (const boost::bad_get& e) { th = e.what() != 0; } CHK(th == (v.which() == 0), "own-bad_get", "get on a thread's own variant gave another answer"); break; }
        case 10: { VN v(std::string((std::size_t)n, 'r')); Lcm l; l.f = &fb; std::string& s = boost::apply_visitor(l, v); CHK(&s == &boost::get<std::string>(v), "own-reference", "a visitor result reference is not the content"); break; }
        case 11: { V4 v = Kit<V4>::make(r), w(v); Val<V4> val; V3 x = Kit<V3>::make(r), y = Kit<V3>::make(r); y = x; Val<V3> vx; CHK(boost::apply_visitor(val, v) == boost::apply_visitor(val, w) && boost::apply_visitor(vx, x) == boost::apply_visitor(vx, y) && v == w, "own-recursive", "copying a thread's own recursive variant went wrong"); break; }
        }
    }
}
int main(int argc, char** argv) {
    unsigned long seed = argc > 1 ? std::strtoul(argv[1], 0, 10) : 1; int iters = argc > 2 ? std::atoi(argv[2]) : 1500; int nt = argc > 3 ? std::atoi(argv[3]) : 6; int rounds = argc > 4 ? std::atoi(argv[4]) : 3;
    for (int r = 0; r < rounds; ++r) {
        unsigned long s = seed * 1000 + (unsigned long)r;
        { World<V1> w(s); w.run(s, nt, iters); } { World<V2> w(s); w.run(s, nt, iters); } { World<V3> w(s); w.run(s, nt, iters); } { World<V4> w(s); w.run(s, nt, iters / 2); }
        poly_shared(s, nt, iters); { std::vector<std::thread> t; for (int i = 0; i < nt; ++i) t.emplace_back(private_ops, s * 100 + 50 + (unsigned long)i, iters); for (auto& x : t) x.join(); }
    }
    long ds = 0; for (auto& a : g_seen) for (auto& b : a) for (auto& c : b) for (auto& d : c) ds += d; std::printf("C|overlapping_accesses|%ld\n", (long)g_overlap);
    std::printf("C|evaluations|%ld\nC|ops|%ld\nC|injected_yields|%ld\nC|threads|%d\nC|distinct|%ld\nE|ok\n", (long)g_evals, (long)g_ops, (long)g_switches, nt, ds);
    return 0;
}
