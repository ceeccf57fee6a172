// C07: every form of get, on every content type, for every asked type, in every state.
#include "common.hpp"
#include <string>
#include <vector>

struct Base { long a; long x; Base(long v = 0) : a(v + 1), x(v) {} };
struct Side { long s[3]; long x; Side(long v = 0) : x(v) { s[0] = s[1] = s[2] = v; } };
struct Derived : Base { explicit Derived(long v = 0) : Base(v) {} };
struct Multi : Side, Base { explicit Multi(long v = 0) : Side(v), Base(v) {} long get() const { return Base::x; } };
struct VBase : virtual Base { explicit VBase(long v = 0) : Base(v) {} };
struct Conv { long x; int n; Base b; explicit Conv(long v = 0) : x(v), n((int)v), b(v) {} operator int&() { return n; } operator const int&() const { return n; } operator Base&() { return b; } operator const Base&() const { return b; } operator std::string() const { return "conv"; } };
struct Evil { long x; char c[40]; explicit Evil(long v = 0) : x(v) {} Evil* operator&() { return 0; } const Evil* operator&() const { return 0; }
    template <class U> void operator,(const U&) const {} };
struct Greedy { long x; explicit Greedy(long v = 0) : x(v) {} Greedy(const Greedy& o) : x(o.x) {} };
struct FromAll { long x; explicit FromAll(long v = 0) : x(v) {} };
template <int N> struct Tag { long x; explicit Tag(long v = 0) : x(v) {} };
enum En { e0, e1 }; enum class Sc : short { s0, s1 };
typedef T<1,0,1,1> C1; typedef T<2,0,1,1,24> C2; typedef T<3,0,1,0> E1; typedef T<4,2,1,2> F1;

template <class U> struct Val { static U make(long v) { return U(v); } };
template <> struct Val<std::string> { static std::string make(long v) { return std::string((std::size_t)(v % 40), 'a' + v % 26); } };
template <> struct Val<std::vector<int> > { static std::vector<int> make(long v) { return std::vector<int>((std::size_t)(v % 9), (int)v); } };
template <> struct Val<En> { static En make(long v) { return (En)(v & 1); } };
template <> struct Val<Sc> { static Sc make(long v) { return (Sc)(v & 1); } };
template <> struct Val<blank> { static blank make(long) { return blank(); } };
static int g_ints[64]; 
template <> struct Val<int*> { static int* make(long v) { return g_ints + v % 64; } };
template <> struct Val<const int*> { static const int* make(long v) { return g_ints + v % 64; } };
template <> struct Val<void*> { static void* make(long v) { return g_ints + v % 64; } };
template <> struct Val<void(*)()> { static void fn() {} static void (*make(long))() { return &fn; } };
template <> struct Val<std::pair<int, long> > { static std::pair<int, long> make(long v) { return std::pair<int, long>((int)v, v); } };
template <class A, class B> struct Val<boost::variant<A, B> > { static boost::variant<A, B> make(long v) { if (v & 1) return Val<A>::make(v); return Val<B>::make(v); } };
struct Snap {            // byte snapshot of the content
    std::string s; const unsigned char* p; Snap(const void* q, std::size_t n) : s((const char*)q, n), p((const unsigned char*)q) {}
    bool same() const { return std::memcmp(s.data(), p, s.size()) == 0; }
};

#define K(f) f
template <class L> struct Run;
template <class... Ts> struct Run<boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V;
    const char* lname; Rng rng;
    Run(const char* n, std::uint64_t seed) : lname(n), rng(seed) {}

    template <class F, class U> void forms(F f, V& v, const void* want, const char* form, int asked) {
        const V& cv = v; V* pv = boost::addressof(v); const V* cpv = pv;
        set_case("%s: %s<asked %d> on which()=%d", lname, form, asked, v.which());
        seen(form, shash(lname), asked, v.which(), is_outside(v));
        // pointer forms
        static_assert(true, "");
        CHECK("C07", SAME(decltype(f.template go<U>(pv)), U*), K(form), "pointer form has the wrong type");
        CHECK("C07", SAME(decltype(f.template go<U>(cpv)), const U*), K(form), "const pointer form has the wrong type");
        U* p = f.template go<U>(pv); const U* cp = f.template go<U>(cpv);
        CHECK("C07", (const void*)p == want, K(form), "pointer form returned %p, content %p", (const void*)p, want);
        CHECK("C07", (const void*)cp == want, K(form), "const pointer form returned %p, content %p", (const void*)cp, want);
        CHECK("C07", f.template go<U>((V*)0) == 0 && f.template go<U>((const V*)0) == 0, K(form), "null operand gave non-null");
        // reference forms
        CHECK("C07", SAME(decltype(f.template go<U>(v)), U&), K(form), "reference form has the wrong type");
        CHECK("C07", SAME(decltype(f.template go<U>(cv)), const U&), K(form), "const reference form has the wrong type");
        CHECK("C07", SAME(decltype(f.template go<U>(std::move(v))), U&&), K(form), "rvalue form has the wrong type");
        CHECK("C07", SAME(decltype(f.template go<U>(std::move(cv))), const U&), K(form), "const rvalue form has the wrong type");
        for (int i = 0; i < 4; ++i) {
            const void* r = 0; bool bad = false, other = false;
            try {
                switch (i) {
                case 0: r = boost::addressof(f.template go<U>(v)); break;
                case 1: r = boost::addressof(f.template go<U>(cv)); break;
                case 2: { U&& x = f.template go<U>(std::move(v)); r = boost::addressof(x); break; }
                case 3: r = boost::addressof(f.template go<U>(std::move(cv))); break;
                }
            } catch (const boost::bad_get& e) { bad = true; if (!e.what() || !*e.what()) violation("C07,C16", K(form), "bad_get without message"); const std::exception& se = e; (void)se; }
            catch (...) { other = true; }
            CHECK("C07", !other, K(form), "reference form threw something else than bad_get");
            CHECK("C07", bad == (want == 0), K(form), want ? "reference form %d threw although the content has the type" : "reference form %d did not throw", i);
            if (!bad && !other) CHECK("C07", r == want, K(form), "reference form %d returned %p, content %p", i, r, want);
        }
    }
    struct Relaxed { template <class U, class A> auto go(A&& a) const -> decltype(boost::relaxed_get<U>(std::forward<A>(a))) { return boost::relaxed_get<U>(std::forward<A>(a)); } };
    struct Strict { template <class U, class A> auto go(A&& a) const -> decltype(boost::strict_get<U>(std::forward<A>(a))) { return boost::strict_get<U>(std::forward<A>(a)); } };
    struct Plain { template <class U, class A> auto go(A&& a) const -> decltype(boost::get<U>(std::forward<A>(a))) { return boost::get<U>(std::forward<A>(a)); } };

    template <class U> void bounded(V& v, const void* want, int asked, std::true_type) {
        forms<Strict, U>(Strict(), v, want, "strict_get", asked);
        forms<Plain, U>(Plain(), v, want, "get", asked);
    }
    template <class U> void bounded(V& v, const void* want, int asked, std::false_type) {
#ifdef BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT
        forms<Plain, U>(Plain(), v, want, "get", asked);
#endif
    }
    template <class U> void ask(V& v, const void* content, bool same, std::size_t size, int asked) {
        const void* want = same ? content : 0;
        long c0 = ev().copies + ev().moves + ev().casg + ev().masg; int w0 = v.which();
        Snap s(content, size);
        forms<Relaxed, U>(Relaxed(), v, want, "relaxed_get", asked);
        bounded<U>(v, want, asked, std::integral_constant<bool, (IndexOf<U, Ts...>::value >= 0)>());
        CHECK("C07", s.same() && v.which() == w0 && content_addr(v) == content, K("changed"), "get changed the variant");
        CHECK("C07", ev().copies + ev().moves + ev().casg + ev().masg == c0, K("copied"), "get copied or moved the content");
    }
    template <class X> void ask_all(V& v) {
        const void* c = content_addr(v);
        CHECK("C07", (v.which() == IndexOf<X, Ts...>::value), K("which"), "which()=%d", v.which());
        int n = 0;
        int dummy[] = { (this->template ask<typename Unwrap<Ts>::type >(v, c, SAME(X, typename Unwrap<Ts>::type), sizeof(X), n++), 0)... }; (void)dummy;
        ask<Tag<7> >(v, c, SAME(X, Tag<7>), sizeof(X), 100); ask<Base >(v, c, SAME(X, Base), sizeof(X), 101); ask<Side >(v, c, SAME(X, Side), sizeof(X), 102); ask<Derived >(v, c, SAME(X, Derived), sizeof(X), 103); ask<int >(v, c, SAME(X, int), sizeof(X), 104);
        ask<unsigned >(v, c, SAME(X, unsigned), sizeof(X), 105); ask<long >(v, c, SAME(X, long), sizeof(X), 106); ask<std::string >(v, c, SAME(X, std::string), sizeof(X), 107); ask<Conv >(v, c, SAME(X, Conv), sizeof(X), 108); ask<Multi >(v, c, SAME(X, Multi), sizeof(X), 109);
        ask<bool >(v, c, SAME(X, bool), sizeof(X), 110); ask<char >(v, c, SAME(X, char), sizeof(X), 111); ask<void* >(v, c, SAME(X, void*), sizeof(X), 112); ask<const char* >(v, c, SAME(X, const char*), sizeof(X), 113);
        ask<FromAll >(v, c, SAME(X, FromAll), sizeof(X), 114);
        // write through get is seen by everyone
    }
    template <class X> void one(long val) {
        typedef typename Unwrap<X>::type U;
        { V v(Val<U>::make(val)); ask_all<U>(v); }
        { const V src(Val<U>::make(val)); V v(src); ask_all<U>(v); }
        { V* a = new V(Val<U>::make(val)); ask_all<U>(*a); delete a; }
        int dummy[] = { (this->template from<U, typename Unwrap<Ts>::type>(val), 0)... }; (void)dummy;
    }
    template <class U, class Y> void from(long val) { V v(Val<Y>::make(val + 1)); v = Val<U>::make(val); ask_all<U>(v); V w(Val<U>::make(val)); V z(Val<Y>::make(val)); z.swap(w); ask_all<U>(z); ask_all<Y>(w); }
    void all() { int dummy[] = { (this->template one<Ts>((long)rng.below(1000)), 0)... }; (void)dummy; }
};
template <class V> struct Backup {
    template <class A, class B> static void run(Run<V>& r) {
        B b(3); V v(A(1));
        if (into_backup<A>(v, 5, b)) { r.template ask_all<A>(v); V w(v); r.template ask_all<A>(w); V x(std::move(v)); r.template ask_all<A>(x); r.template ask_all<A>(v); }
    }
};

int main(int argc, char** argv) {
    std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], 0, 10) : 1; long reps = argc > 2 ? std::atol(argv[2]) : 3;
    for (long r = 0; r < reps; ++r) {
        std::uint64_t s = seed * 1000 + (std::uint64_t)r;
#define RUN(NAME, ...) do { typedef boost::variant<__VA_ARGS__> V; Run<V> x(NAME, s); x.all(); } while (0)
#if PART == 1
        RUN("fundamental", bool, char, signed char, unsigned char, wchar_t, short, int, unsigned, long, double);
        RUN("mixed", int, std::string, std::vector<int>, blank, std::pair<int, long>);
        RUN("pointers", int*, const int*, void*, En, Sc, void(*)());
#elif PART == 2
        RUN("hierarchy", Base, Derived, Multi, Side, VBase);
        RUN("hierarchy-rev", VBase, Multi, Derived, Base);
        RUN("convertible", Conv, int, Base, std::string);
        RUN("derived-only", Derived, Multi, Conv, Evil);
#elif PART == 3
        RUN("wrapped", recursive_wrapper<Base>, int, recursive_wrapper<Derived>, std::string, recursive_wrapper<Evil>);
        RUN("nested", int, boost::variant<Base, std::string>, recursive_wrapper<boost::variant<Derived, double> >);
        RUN("evil", Evil, Greedy, recursive_wrapper<Conv>, Tag<1>, Tag<2>);
#elif PART == 4
        { typedef boost::variant<C1, C2, E1> V; Run<V> x("throwing", s); x.all();
          Backup<V>::run<C1, C2>(x); Backup<V>::run<C1, E1>(x); Backup<V>::run<C2, C1>(x); Backup<V>::run<C2, E1>(x); Backup<V>::run<E1, C1>(x); Backup<V>::run<E1, C2>(x); }
        { typedef boost::variant<C1, recursive_wrapper<E1>, C2> V; Run<V> x("throwing-wrapped", s); x.all(); Backup<V>::run<C1, C2>(x); Backup<V>::run<C2, C1>(x); Backup<V>::run<C1, E1>(x); }
        { typedef boost::variant<F1, C1, C2> V; Run<V> x("throwing-fallback", s); x.all(); }
#endif
    }
    if (reg().n) violation("C03", "leak", "%d objects alive at the end", reg().n);
    finish(); return 0;
}
