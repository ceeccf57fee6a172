// C08: polymorphic_get over class hierarchies (multiple, virtual, repeated, empty bases), wrapped and backed-up contents.
#include "common.hpp"
#include <string>

struct Base { long x; explicit Base(long v = 0) : x(v) {} virtual ~Base() {} virtual int id() const { return 0; } };
struct Other { long o[2]; explicit Other(long v = 0) { o[0] = o[1] = v; } virtual ~Other() {} };
struct Plain { long p; explicit Plain(long v = 0) : p(v) {} };                              // not polymorphic
struct D1 : Base { long d; explicit D1(long v = 0) : Base(v), d(v) {} int id() const { return 1; } };
struct D2 : D1 { char c[20]; explicit D2(long v = 0) : D1(v) {} int id() const { return 2; } };
struct M1 : Other, Base { explicit M1(long v = 0) : Other(v), Base(v) {} int id() const { return 3; } };
struct M2 : Plain, D1, Other { explicit M2(long v = 0) : Plain(v), D1(v), Other(v) {} };
struct VL : virtual Base { long l; explicit VL(long v = 0) : Base(v), l(v) {} };
struct VR : virtual Base { long r; explicit VR(long v = 0) : Base(v), r(v) {} };
struct Dia : VL, VR, Other { explicit Dia(long v = 0) : Base(v), VL(v), VR(v), Other(v) {} };
struct PD : Plain { long q; explicit PD(long v = 0) : Plain(v), q(v) {} };
struct N1 { char n[3]; explicit N1(long v = 0) { n[0] = n[1] = n[2] = (char)v; } };                      // no virtual function anywhere below, yet the bases lie at offsets
struct NM : N1, Plain { explicit NM(long v = 0) : N1(v), Plain(v) {} };
struct NM3 : PD, N1 { long z; explicit NM3(long v = 0) : PD(v), N1(v), z(v) {} };
struct NV : virtual Plain, N1 { long k; explicit NV(long v = 0) : Plain(v), N1(v), k(v) {} };          // virtual base, still not polymorphic
struct NW : N1, PD { explicit NW(long v = 0) : N1(v), PD(v) {} };
struct Tiny {}; struct ED : Tiny, Plain { explicit ED(long v = 0) : Plain(v) {} };
struct Conv { long x; Base b; explicit Conv(long v = 0) : x(v), b(v) {} operator Base&() { return b; } operator const Base&() const { return b; } };  // converts, is not derived
struct Fin final : Base { explicit Fin(long v = 0) : Base(v) {} };
struct EvilB { long e; explicit EvilB(long v = 0) : e(v) {} EvilB* operator&() { return 0; } const EvilB* operator&() const { return 0; } };
struct EvilD : Other, EvilB { explicit EvilD(long v = 0) : Other(v), EvilB(v) {} };
// may throw when copied, no nothrow default constructor: reach the heap backup state
template <int N> struct Thr : Other, Plain { int n; explicit Thr(long v) : Other(v), Plain(v), n(N) {} Thr(const Thr& o) : Other(o), Plain(o), n(N) { point(); } Thr& operator=(const Thr& o) { point(); Other::operator=(o); p = o.p; return *this; } };

template <class U> struct Val { static U make(long v) { return U(v); } };
template <> struct Val<std::string> { static std::string make(long v) { return std::string((std::size_t)(v % 40), 'x'); } };

// does X match U, and where is the U subobject
template <class X, class U, bool Class = std::is_class<X>::value && std::is_class<U>::value> struct Match {
    static const bool value = std::is_same<X, U>::value;
    static const void* at(const void* c) { return value ? c : 0; }
};
template <class X, class U> struct Match<X, U, true> {
    static const bool value = std::is_convertible<X*, U*>::value;
    static const void* go(const void* c, std::true_type) { const U* u = static_cast<const X*>(c); return u; }
    static const void* go(const void*, std::false_type) { return 0; }
    static const void* at(const void* c) { return go(c, std::integral_constant<bool, value>()); }
};
template <class U, class... Ts> struct Any { static const bool value = false; };
template <class U, class A, class... R> struct Any<U, A, R...> { static const bool value = Match<typename Unwrap<A>::type, U>::value || Any<U, R...>::value; };
// strict forms: the static check looks at the declared element, so a base class of a wrapped type is not accepted (compile-time only)
template <class U, class... Ts> struct AnyStrict { static const bool value = false; };
template <class U, class A, class... R> struct AnyStrict<U, A, R...> { static const bool value = std::is_same<U, typename Unwrap<A>::type>::value || (!Unwrap<A>::wrapped && Match<A, U>::value) || AnyStrict<U, R...>::value; };

template <class L> struct Run;
template <class... Ts> struct Run<boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V;
    const char* lname; Rng rng;
    Run(const char* n, std::uint64_t s) : lname(n), rng(s) {}
    struct Relaxed { template <class U, class A> auto go(A&& a) const -> decltype(boost::polymorphic_relaxed_get<U>(std::forward<A>(a))) { return boost::polymorphic_relaxed_get<U>(std::forward<A>(a)); } };
    struct Strict { template <class U, class A> auto go(A&& a) const -> decltype(boost::polymorphic_strict_get<U>(std::forward<A>(a))) { return boost::polymorphic_strict_get<U>(std::forward<A>(a)); } };
    struct Dflt { template <class U, class A> auto go(A&& a) const -> decltype(boost::polymorphic_get<U>(std::forward<A>(a))) { return boost::polymorphic_get<U>(std::forward<A>(a)); } };
    template <class F, class U> void forms(F f, V& v, const void* want, const char* form, int asked) {
        const V& cv = v; V* pv = &v; const V* cpv = pv;
        set_case("%s: %s<asked %d> on which()=%d", lname, form, asked, v.which());
        seen(form, shash(lname), asked, v.which(), is_outside(v));
        CHECK("C08", SAME(decltype(f.template go<U>(pv)), U*) && SAME(decltype(f.template go<U>(cpv)), const U*), form, "pointer form has the wrong type");
        const void* p = (const void*)f.template go<U>(pv); const void* cp = (const void*)f.template go<U>(cpv);
        CHECK("C08", p == want, form, "pointer form returned %p, expected %p", p, want);
        CHECK("C08", cp == want, form, "const pointer form returned %p, expected %p", cp, want);
        CHECK("C08", f.template go<U>((V*)0) == 0 && f.template go<U>((const V*)0) == 0, form, "null operand gave non-null");
        CHECK("C08", SAME(decltype(f.template go<U>(v)), U&) && SAME(decltype(f.template go<U>(cv)), const U&), form, "reference form has the wrong type");
        for (int i = 0; i < 3; ++i) {
            const void* r = 0; bool bad = false, other = false;
            try { switch (i) {
                case 0: r = boost::addressof(f.template go<U>(v)); break;
                case 1: r = boost::addressof(f.template go<U>(cv)); break;
                case 2: r = boost::addressof(f.template go<U>(std::move(cv))); break; }
            } catch (const boost::bad_polymorphic_get& e) { bad = true; if (!e.what() || !*e.what()) violation("C08,C16", form, "bad_polymorphic_get without message"); }
            catch (...) { other = true; }
            CHECK("C08", !other, form, "reference form threw something else than bad_polymorphic_get");
            CHECK("C08", bad == (want == 0), form, want ? "reference form %d threw although the content matches" : "reference form %d did not throw", i);
            if (!bad && !other) CHECK("C08", r == want, form, "reference form %d returned %p, expected %p", i, r, want);
        }
    }
    template <class U> void cforms(V& v, const void* want, int asked) {     // asking for const U
        const V& cv = v; set_case("%s: const <asked %d> on which()=%d", lname, asked, v.which());
        CHECK("C08", SAME(decltype(boost::polymorphic_relaxed_get<const U>(&v)), const U*), "const-asked", "wrong type");
        CHECK("C08", (const void*)boost::polymorphic_relaxed_get<const U>(&v) == want, "const-asked", "const U from a non-const variant: wrong answer");
        CHECK("C08", (const void*)boost::polymorphic_relaxed_get<const U>(&cv) == want, "const-asked", "const U from a const variant: wrong answer");
    }
    template <class U> void strict(V& v, const void* want, int asked, std::true_type) { forms<Strict, U>(Strict(), v, want, "polymorphic_strict_get", asked); forms<Dflt, U>(Dflt(), v, want, "polymorphic_get", asked); }
    template <class U> void strict(V& v, const void* want, int asked, std::false_type) {
#ifdef BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT
        forms<Dflt, U>(Dflt(), v, want, "polymorphic_get", asked);
#endif
    }
    template <class U> void ask(V& v, const void* want, int asked) {
        int w0 = v.which(); const void* c0 = content_addr(v);
        forms<Relaxed, U>(Relaxed(), v, want, "polymorphic_relaxed_get", asked);
        cforms<U>(v, want, asked);
        strict<U>(v, want, asked, std::integral_constant<bool, AnyStrict<U, Ts...>::value>());
        CHECK("C08", v.which() == w0 && content_addr(v) == c0, "changed", "polymorphic_get changed the variant");
    }
    template <class X> void ask_all(V& v) {
        const void* c = content_addr(v); int n = 0;
        int d[] = { (this->template ask<typename Unwrap<Ts>::type>(v, Match<X, typename Unwrap<Ts>::type>::at(c), n++), 0)... }; (void)d;
#define ASK(U, n) ask<U>(v, Match<X, U>::at(c), n)
        ASK(Base, 100); ASK(Other, 101); ASK(Plain, 102); ASK(D1, 103); ASK(VL, 104); ASK(VR, 105); ASK(Tiny, 106); ASK(int, 107); ASK(EvilB, 108); ASK(Conv, 109); ASK(D2, 110); ASK(Dia, 111); ASK(N1, 112); ASK(PD, 113); ASK(NM, 114);
    }
    template <class X> void one(long val) {
        typedef typename Unwrap<X>::type U;
        { V v(Val<U>::make(val)); ask_all<U>(v); }
        int d[] = { (this->template from<U, typename Unwrap<Ts>::type>(val), 0)... }; (void)d;
    }
    template <class U, class Y> void from(long val) { V v(Val<Y>::make(val + 1)); v = Val<U>::make(val); ask_all<U>(v); }
    void all() { int d[] = { (this->template one<Ts>((long)rng.below(1000)), 0)... }; (void)d; }
};
template <class V> struct Backup {
    template <class A, class B> static void run(Run<V>& r) {
        B b(3); V v(A(1));
        if (into_backup<A>(v, 5, b)) { r.template ask_all<A>(v); V w(v); r.template ask_all<A>(w); }
    }
};
int main(int argc, char** argv) {
    std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], 0, 10) : 1; long reps = argc > 2 ? std::atol(argv[2]) : 3;
    for (long r = 0; r < reps; ++r) {
        std::uint64_t s = seed * 1000 + (std::uint64_t)r;
#define RUN(NAME, ...) do { typedef boost::variant<__VA_ARGS__> V; Run<V> x(NAME, s); x.all(); } while (0)
#if PART == 1
        RUN("chain", Base, D1, D2, Fin);
        RUN("chain-rev", D2, D1, Base, int);
        RUN("multiple", M1, M2, Other, std::string, Plain);
#elif PART == 2
        RUN("virtual", Dia, VL, VR, Base);
        RUN("nonpoly", PD, ED, Plain, int, Conv);
        RUN("no-base-listed", M1, Dia, PD, D2);
        RUN("nonpoly-offset", NM, NM3, int, N1);
        RUN("nonpoly-virtual", NV, NW, recursive_wrapper<NM3>);
        RUN("evil", EvilD, int, EvilB);
#elif PART == 3
        RUN("wrapped", recursive_wrapper<D1>, M1, recursive_wrapper<M2>, recursive_wrapper<Base>, int);
        RUN("wrapped-only", recursive_wrapper<Dia>, recursive_wrapper<M1>, recursive_wrapper<EvilD>);
        { typedef boost::variant<Thr<1>, Thr<2>, M1> V; Run<V> x("throwing", s); x.all(); Backup<V>::run<Thr<1>, Thr<2> >(x); Backup<V>::run<Thr<2>, Thr<1> >(x); Backup<V>::run<M1, Thr<2> >(x); }
        { typedef boost::variant<Thr<1>, Thr<2> > V; Run<V> x("throwing2", s); x.all(); Backup<V>::run<Thr<1>, Thr<2> >(x); Backup<V>::run<Thr<2>, Thr<1> >(x); }
#endif
    }
    finish(); return 0;
}
