// C06: which bounded type a conversion selects, against the compiler's own overload resolution over functions f(Ti), and what value
// it gets; from values, foreign variants (in every state) and nested variants; construction and assignment; all source categories.
#include "common.hpp"
#include <string>
#include <memory>
#include <vector>
#include <boost/mpl/vector.hpp>
#ifndef PART
#define PART 1
#endif
// ---------------------------------------------------------------- oracle: an overload set with one function per bounded type
template <int I, class... Ts> struct OS;
template <int I> struct OS<I> { static void f(); };
template <int I, class A, class... R> struct OS<I, A, R...> : OS<I + 1, R...> { using OS<I + 1, R...>::f; static std::integral_constant<int, I> f(typename Unwrap<A>::type); };
template <class... > struct Void { typedef void type; };
template <class V, class S, class = void> struct Pick { enum { value = -1 }; };
template <class... Ts, class S> struct Pick<boost::variant<Ts...>, S, typename Void<decltype(OS<0, Ts...>::f(std::declval<S>()))>::type> { enum { value = decltype(OS<0, Ts...>::f(std::declval<S>()))::value }; };

// documented: a bounded type held in recursive_wrapper makes the variant constructible only from that very type
template <class Cat, class... Ts> struct Offered : std::false_type {};
template <class Cat, class A, class... R> struct Offered<Cat, A, R...> : std::integral_constant<bool, (Unwrap<A>::wrapped ? std::is_same<typename std::decay<Cat>::type, typename Unwrap<A>::type>::value : std::is_constructible<A, Cat>::value) || Offered<Cat, R...>::value> {};
template <class V, class S> struct PickO; template <class... Ts, class S> struct PickO<boost::variant<Ts...>, S> { enum { value = Offered<S, Ts...>::value ? (int)Pick<boost::variant<Ts...>, S>::value : -1 }; };
// ---------------------------------------------------------------- types
static long g_copies, g_moves; static int g_step;
enum Unscoped { u0, u1, u2 }; enum class Scoped { a, b, c }; enum Small : unsigned char { s0, s1 };
struct Base { int v; Base(int x = 0) : v(x) {} Base(const Base& o) : v(o.v) { ++g_copies; } Base& operator=(const Base& o) { v = o.v; ++g_copies; return *this; } bool operator==(const Base& o) const { return v == o.v; } };
struct Derived : Base { explicit Derived(int x = 0) : Base(x) {} };
struct Most : Derived { explicit Most(int x = 0) : Derived(x) {} };
struct Other { int v; explicit Other(int x = 0) : v(x) {} bool operator==(const Other& o) const { return v == o.v; } };
struct ToInt { int v; explicit ToInt(int x = 0) : v(x) {} operator int() const { return v + 1000; } bool operator==(const ToInt& o) const { return v == o.v; } };
struct ToStr { int v; explicit ToStr(int x = 0) : v(x) {} operator std::string() const { return std::string((std::size_t)v, 'q'); } bool operator==(const ToStr& o) const { return v == o.v; } };
struct ToOther { int v; explicit ToOther(int x = 0) : v(x) {} operator Other() const { return Other(v + 7); } bool operator==(const ToOther& o) const { return v == o.v; } };
struct FromStr { std::string s; FromStr(const std::string& x) : s(x + "!") {} bool operator==(const FromStr& o) const { return s == o.s; } };
struct FromAny { int tag; template <class X> explicit FromAny(const X&) : tag(1) {} bool operator==(const FromAny& o) const { return tag == o.tag; } };
struct Counted { int v; Counted(int x, Scoped) : v(x) {} Counted(const Counted& o) : v(o.v) { ++g_copies; } Counted(Counted&& o) noexcept : v(o.v) { o.v = -1; ++g_moves; } Counted& operator=(const Counted& o) { v = o.v; ++g_copies; return *this; } Counted& operator=(Counted&& o) noexcept { if (&o != this) { v = o.v; o.v = -1; } ++g_moves; return *this; } bool operator==(const Counted& o) const { return v == o.v; } };
struct ByCategory { int how, v;   // converting constructor distinguishes the category it is given
    ByCategory(Counted& c) : how(1), v(c.v) {} ByCategory(const Counted& c) : how(2), v(c.v) {} ByCategory(Counted&& c) : how(3), v(c.v) { c.v = -1; } bool operator==(const ByCategory& o) const { return how == o.how && v == o.v; } };
static Base g_b(1); static Derived g_d(2); static int g_i[4];
inline int fun1(int x) { return x; } inline int fun2(int x) { return -x; }

template <class X, class = void> struct Mk;
template <class X> struct Mk<X, typename std::enable_if<std::is_arithmetic<X>::value>::type> { static X make(int k) { static const long t[] = { 0, 1, 2, 65, 100, 127, 3, 90 }; return (X)t[k & 7]; } };
template <class X> struct Mk<X, typename std::enable_if<std::is_enum<X>::value>::type> { static X make(int k) { return (X)(k % 2); } };
template <> struct Mk<std::string> { static std::string make(int k) { return std::string((std::size_t)(k * 5 % 40), (char)('a' + k % 26)); } };
template <> struct Mk<const char*> { static const char* make(int k) { static const char* t[] = { "", "one", "two", "three" }; return t[k & 3]; } };
template <> struct Mk<char*> { static char* make(int k) { static char t[4][4] = { "x", "yy", "zzz", "" }; return t[k & 3]; } };
template <> struct Mk<const void*> { static const void* make(int k) { return &g_i[k & 3]; } };
template <> struct Mk<void*> { static void* make(int k) { return &g_i[k & 3]; } };
template <> struct Mk<int*> { static int* make(int k) { return &g_i[k & 3]; } };
template <> struct Mk<Base*> { static Base* make(int k) { return k & 1 ? &g_b : &g_d; } };
template <> struct Mk<const Base*> { static const Base* make(int k) { return k & 1 ? &g_b : &g_d; } };
template <> struct Mk<Derived*> { static Derived* make(int k) { return k & 1 ? &g_d : 0; } };
template <> struct Mk<std::nullptr_t> { static std::nullptr_t make(int) { return nullptr; } };
typedef int (*Fp)(int);
template <> struct Mk<Fp> { static Fp make(int k) { return k & 1 ? fun1 : fun2; } };
template <> struct Mk<blank> { static blank make(int) { return blank(); } };
template <> struct Mk<FromStr> { static FromStr make(int k) { return FromStr(Mk<std::string>::make(k)); } };
template <> struct Mk<FromAny> { static FromAny make(int k) { return FromAny(k); } };
template <> struct Mk<Counted> { static Counted make(int k) { return Counted(k, Scoped::a); } };
template <> struct Mk<ByCategory> { static ByCategory make(int k) { return ByCategory(Counted(k, Scoped::a)); } };
template <> struct Mk<std::shared_ptr<Base> > { static std::shared_ptr<Base> make(int k) { return std::make_shared<Base>(k); } };
template <> struct Mk<std::shared_ptr<Derived> > { static std::shared_ptr<Derived> make(int k) { return std::make_shared<Derived>(k); } };
template <> struct Mk<std::unique_ptr<int> > { static std::unique_ptr<int> make(int k) { return std::unique_ptr<int>(new int(k)); } };
template <class X> struct Mk<X, typename std::enable_if<std::is_base_of<Base, X>::value || std::is_same<X, Other>::value || std::is_same<X, ToInt>::value || std::is_same<X, ToStr>::value || std::is_same<X, ToOther>::value>::type> { static X make(int k) { return X(k); } };
template <class X> bool eq(const X& a, const X& b) { return a == b; }
inline bool eq(const blank&, const blank&) { return true; }
inline bool eq(const std::unique_ptr<int>& a, const std::unique_ptr<int>& b) { return !a == !b && (!a || *a == *b); }
inline bool eq(const std::shared_ptr<Base>& a, const std::shared_ptr<Base>& b) { return !a == !b && (!a || a->v == b->v); }
inline bool eq(const std::shared_ptr<Derived>& a, const std::shared_ptr<Derived>& b) { return !a == !b && (!a || a->v == b->v); }
// did a move leave its mark (for types where it always does)?
template <class X> bool is_moved(const X&) { return true; } inline bool is_moved(const Counted& c) { return c.v == -1; } inline bool is_moved(const std::unique_ptr<int>& c) { return !c; }
template <class X> void name_of(char* b, std::size_t n) { std::snprintf(b, n, "%s", typeid(X).name()); }

template <class S> using LV = S&; template <class S> using CL = const S&; template <class S> using RV = S&&; template <class S> using CR = const S&&;
enum { kLV, kCL, kRV, kCR };
static const char* cat_name[] = { "lvalue", "const lvalue", "rvalue", "const rvalue" };

// ---------------------------------------------------------------- values
template <class V> struct Lst;
template <class... Ts> struct Lst<boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V; const char* lname;
    template <int I> struct At { typedef typename Unwrap<typename NthT<I, Ts...>::type>::type type; };
    template <class S, class Cat, int K, int I, class ECat = Cat> void judge(const char* op, V& v, int k, S& src) {
        typedef typename At<I>::type T; char nm[80]; name_of<S>(nm, sizeof nm);
        CHECK("C06", v.which() == I, "wrong-type", "%s from %s %s selected bounded type %d, overload resolution selects %d", op, cat_name[K], nm, v.which(), I);
        T* p = boost::get<T>(&v);
        if (!p) return;
        S x = Mk<S>::make(k); T e = static_cast<ECat>(x);
        CHECK("C06", eq(*p, e), "wrong-value", "%s from %s %s: content is not the converted value", op, cat_name[K], nm);
        if (K == kRV) { if (SAME(S, T)) CHECK("C06,C05", is_moved(src), "not-moved", "%s from rvalue %s did not move", op, nm); }
        else unchanged(src, k, op, nm);
    }
    template <class S> void unchanged(S& src, int k, const char* op, const char* nm) { S y = Mk<S>::make(k); same(src, y, op, nm, 0); }
    template <class S> auto same(S& a, S& b, const char* op, const char* nm, int) -> decltype(eq(a, b), void()) { CHECK("C06,C04", eq(a, b), "source-changed", "%s changed its source %s", op, nm); }
    template <class S> void same(S&, S&, const char*, const char*, long) {}
    template <class S, class Cat, int K> void one_cat(std::integral_constant<int, -1>) { count("not_convertible"); }
    template <class S, class Cat, int K, int I> void one_cat(std::integral_constant<int, I>) {
        char nm[80]; name_of<S>(nm, sizeof nm);
        static_assert(std::is_constructible<V, Cat>::value, "a variant is constructible from what converts to a bounded type");
        for (int k = 0; k < 8; ++k) {
            set_case("%s: from %s %s #%d", lname, cat_name[K], nm, k); seen(lname, shash(nm), K, k);
            { S x = Mk<S>::make(k); V v(static_cast<Cat>(x)); judge<S, Cat, K, I>("construction", v, k, x); }
            { S x = Mk<S>::make(k); V v = static_cast<Cat>(x); judge<S, Cat, K, I>("copy-initialization", v, k, x); }
            assign_all<S, Cat, K, I>(k, std::integral_constant<bool, K == kCR>());
        }
    }
    template <class S, class Cat, int K, int I> void assign_all(int, std::true_type) {}
    template <class S, class Cat, int K, int I> void assign_all(int k, std::false_type) { int d[] = { (assign_from<S, Cat, K, I, typename Unwrap<Ts>::type>(k), 0)... }; (void)d; }
    template <class S, class Cat, int K, int I, class Start> void assign_from(int k) {
        V v(Mk<Start>::make(3)); S x = Mk<S>::make(k); v = static_cast<Cat>(x); judge<S, Cat, K, I, typename std::conditional<K == kLV, const S&, Cat>::type>("assignment", v, k, x); count("assignments");
    }
    template <class S> void src() {
        one_cat<S, S&, kLV>(std::integral_constant<int, std::is_copy_constructible<S>::value ? PickO<V, S&>::value : -1>());
        one_cat<S, const S&, kCL>(std::integral_constant<int, std::is_copy_constructible<S>::value ? PickO<V, const S&>::value : -1>());
        one_cat<S, S&&, kRV>(std::integral_constant<int, PickO<V, S&&>::value>());
        one_cat<S, const S&&, kCR>(std::integral_constant<int, std::is_copy_constructible<S>::value ? PickO<V, const S&&>::value : -1>());
    }
    template <class... S> Lst& go(const char* n) { lname = n; int d[] = { (src<S>(), 0)... }; (void)d; literals(0); return *this; }
    // string literals and arrays: not value types, so on their own
    template <class Z = V> typename std::enable_if<(int)Pick<Z, const char (&)[6]>::value >= 0>::type literals(int) {
        enum { I = Pick<V, const char (&)[6]>::value }; typedef typename At<I>::type T; set_case("%s: string literal", lname);
        V v("hello"), w; w = V(Mk<T>::make(0)); T e = "hello"; (void)w;
        CHECK("C06", v.which() == I && boost::get<T>(&v) && eq(boost::get<T>(v), e), "literal", "string literal selected type %d, expected %d", v.which(), (int)I);
        V a(Mk<T>::make(0)); a = "hello"; CHECK("C06", a.which() == I && boost::get<T>(&a) && eq(boost::get<T>(a), e), "literal", "assigned string literal selected type %d, expected %d", a.which(), (int)I);
    }
    template <class Z = V> void literals(long) {}
    // nothing converts: the traits must say so
    template <class... S> void never() { int d[] = { (never1<S>(), 0)... }; (void)d; }
    template <class S> void never1() { char nm[80]; name_of<S>(nm, sizeof nm); set_case("%s: not from %s", lname, nm);
        CHECK("C06", !(std::is_constructible<V, S>::value) && !(std::is_constructible<V, const S&>::value) && !(std::is_constructible<V, S&>::value), "over-constructible", "is_constructible says a variant can be made from %s, which no bounded type can", nm);
        CHECK("C06", !(std::is_convertible<S, V>::value), "over-convertible", "is_convertible says %s converts to a variant none of whose types it converts to", nm); }
    template <class... S> void always() { int d[] = { (always1<S>(), 0)... }; (void)d; }
    template <class S> void always1() { CHECK("C06", (std::is_constructible<V, S>::value) && (std::is_constructible<V, const S&>::value) && (std::is_constructible<V, S&>::value) && (std::is_convertible<S, V>::value) && (std::is_assignable<V&, S>::value), "under-constructible", "%s: traits deny a conversion that exists", lname); }
};

// ---------------------------------------------------------------- foreign variants
template <class Dst, class Src> struct Foreign;
template <class... Ds, class... Ss> struct Foreign<boost::variant<Ds...>, boost::variant<Ss...> > {
    typedef boost::variant<Ds...> D; typedef boost::variant<Ss...> S; const char* lname;
    template <int I> struct At { typedef typename Unwrap<typename NthT<I, Ds...>::type>::type type; };
    template <class C, class Cat, int K, class ECat = Cat> void judge(const char* op, D& d, S& s, int k) {
        enum { I = Pick<D, Cat>::value }; typedef typename At<I>::type T;
        CHECK("C06", d.which() == I, "foreign-type", "%s from %s variant selected bounded type %d, overload resolution on its content selects %d", op, cat_name[K], d.which(), (int)I);
        T* p = boost::get<T>(&d); if (!p) return;
        C x = Mk<C>::make(k); T e = static_cast<ECat>(x);
        CHECK("C06", eq(*p, e), "foreign-value", "%s from %s variant: content is not the converted content", op, cat_name[K]);
        enum { si = IndexOf<C, Ss...>::value };
        CHECK("C06,C01", s.which() == si && boost::get<C>(&s), "foreign-source-type", "%s re-typed its source", op);
        if (C* q = boost::get<C>(&s)) {
            if (K == kRV) { if (SAME(C, T)) CHECK("C06,C05", is_moved(*q), "foreign-not-moved", "%s from rvalue variant did not move the content", op); }
            else { C y = Mk<C>::make(k); CHECK("C06,C04", eq(*q, y), "foreign-source-changed", "%s changed its source", op); }
        }
    }
    template <class W> void from() {
        typedef typename Unwrap<W>::type C;
        for (int k = 0; k < 8; ++k) {
            set_case("%s: foreign source type #%d value %d", lname, (int)IndexOf<C, Ss...>::value, k); seen(lname, (int)IndexOf<C, Ss...>::value, k);
            { S s(Mk<C>::make(k)); D d(s); judge<C, C&, kLV>("construction", d, s, k); }
            { S s(Mk<C>::make(k)); D d(static_cast<const S&>(s)); judge<C, const C&, kCL>("construction", d, s, k); }
            { S s(Mk<C>::make(k)); D d(std::move(s)); judge<C, C&&, kRV>("construction", d, s, k); }
            { S s(Mk<C>::make(k)); const S& c = s; D d = c; judge<C, const C&, kCL>("copy-initialization", d, s, k); }
            { S s0(Mk<C>::make(0)); S s(Mk<C>::make(k)); s0 = s; D d(s0); judge<C, C&, kLV>("construction after assignment", d, s0, k); }
            int x[] = { (assign<C, typename Unwrap<Ds>::type>(k), 0)... }; (void)x;
        }
    }
    template <class C, class Start> void assign(int k) {
        count("assignments");
        { D d(Mk<Start>::make(2)); S s(Mk<C>::make(k)); d = s; judge<C, C&, kLV, const C&>("assignment", d, s, k); }
        { D d(Mk<Start>::make(2)); S s(Mk<C>::make(k)); d = static_cast<const S&>(s); judge<C, const C&, kCL>("assignment", d, s, k); }
        { D d(Mk<Start>::make(2)); S s(Mk<C>::make(k)); d = std::move(s); judge<C, C&&, kRV>("assignment", d, s, k); }
    }
    void go(const char* n) { lname = n; CHECK("C06", (std::is_constructible<D, S>::value) && (std::is_constructible<D, const S&>::value) && (std::is_constructible<D, S&>::value), "foreign-constructible", "%s: traits deny conversion from a variant all of whose types convert", n); int d[] = { (from<Ss>(), 0)... }; (void)d; }
};
template <class D, class S> void foreign(const char* n) { Foreign<D, S> f; f.go(n); }
// sources kept alive on the heap by a failed assignment
typedef T<1,0,1,1> C1; typedef T<2,0,1,0,8> E1; typedef T<3,0,1,1,24> C3; typedef T<4,0,1,2> B1;
template <class D, class S, class A, class B> void backup(const char* n) {
    B b(5); D* keep[3]; const char* what[] = { "construction", "const construction", "rvalue construction", "assignment", "rvalue assignment" };
    for (long k = 1; k < 30; ++k) for (int m = 0; m < 5; ++m) {
        set_case("%s: source in backup state, value %ld, %s", n, k, what[m]);
        S s((A(k))); if (!into_backup<A>(s, k, b)) { count("no_backup"); return; }
        D d((B(9)));
        try {
        Inside in;
        switch (m) { case 0: { D x(s); d = std::move(x); break; } case 1: { D x(static_cast<const S&>(s)); d = std::move(x); break; } case 2: { D x(std::move(s)); d = std::move(x); break; } case 3: d = s; break; default: d = std::move(s); }
        } catch (...) { violation("C06,C16", "backup-throw", "conversion from a variant in backup state threw"); }
        CHECK("C06,C02", boost::get<A>(&d) && boost::get<A>(d).get() == k, "backup-source", "%s from a variant that survived a failed assignment lost its value (which %d)", what[m], d.which());
        CHECK("C06,C01", boost::get<A>(&s) != 0, "backup-source-type", "source re-typed");
        if (m == 0 || m == 1 || m == 3) CHECK("C06,C04", boost::get<A>(&s) && boost::get<A>(s).get() == k, "backup-source-changed", "source changed");
        seen(n, m, k);
    } (void)keep;
}
// ---------------------------------------------------------------- a variant that is itself a bounded type is held as a whole
template <class V, class Inner, int I> void whole(const char* n) {
    for (int k = 0; k < 8; ++k) for (int which = 0; which < 2; ++which) {
        set_case("%s: nested variant %d %d", n, which, k); seen(n, k, which);
        Inner in = which ? Inner(Mk<int>::make(k)) : Inner(Mk<std::string>::make(k)); const Inner cin = in;
        V a(in), b(cin), c((Inner(cin))); V d = cin; V e(Mk<Other>::make(1)), f(Mk<Other>::make(1)), g(Mk<Other>::make(1)); e = in; f = cin; g = Inner(cin);
        V* all[] = { &a, &b, &c, &d, &e, &f, &g };
        for (int i = 0; i < 7; ++i) {
            CHECK("C06", all[i]->which() == I, "nested-type", "way %d: a nested variant was taken apart: type %d instead of %d", i, all[i]->which(), I);
            if (Inner* p = boost::get<Inner>(all[i])) CHECK("C06", *p == cin && p->which() == cin.which(), "nested-value", "way %d: nested variant changed", i);
        }
        CHECK("C06,C04", in == cin, "nested-source", "source changed");
    }
}

// ---------------------------------------------------------------- bounded types that take anything; classes derived from variants
struct Greedy { int tag; Greedy() : tag(0) {} template <class X> Greedy(X&&) : tag(1) {} Greedy(const Greedy& o) : tag(o.tag) {} Greedy(Greedy& o) : tag(o.tag) {} Greedy(Greedy&& o) : tag(o.tag) {} Greedy& operator=(const Greedy& o) { tag = o.tag; return *this; } bool operator==(const Greedy& o) const { return tag == o.tag; } };
struct GreedyAsg : Greedy { GreedyAsg() {} template <class X> GreedyAsg(const X&) { tag = 2; } GreedyAsg(const GreedyAsg& o) : Greedy() { tag = o.tag; } template <class X> GreedyAsg& operator=(const X&) { tag = 3; return *this; } GreedyAsg& operator=(const GreedyAsg& o) { tag = o.tag; return *this; } };
template <class V> void same(const char* how, const V& got, const V& want) { CHECK("C06,C04", got.which() == want.which() && got == want, "copied-variant", "%s: type %d instead of %d, or another value", how, got.which(), want.which()); }
template <class V, class X> void greedy(const char* name, const X& value, int idx) {
    set_case("%s: value of type %d", name, idx); seen("greedy", shash(name), idx);
    V a(value); const V ca(value); CHECK("C06", a.which() == idx, "greedy-type", "a value of type %d became type %d", idx, a.which());
    { V b(a); same("construction from an lvalue", b, ca); } { V b(ca); same("construction from a const lvalue", b, ca); } { V t(a); V b(std::move(t)); same("construction from an rvalue", b, ca); } { const V t(a); V b(std::move(t)); same("construction from a const rvalue", b, ca); }
    { V b = a; same("copy initialization", b, ca); } { V b{a}; same("list initialization", b, ca); } 
    std::vector<V> starts; starts.push_back(V()); starts.push_back(ca); starts.push_back(V(7)); starts.push_back(V(std::string("s")));
    for (std::size_t i = 0; i < starts.size(); ++i) {
        { V b(starts[i]); b = a; same("assignment from an lvalue", b, ca); } { V b(starts[i]); b = ca; same("assignment from a const lvalue", b, ca); } { V b(starts[i]); V t(a); b = std::move(t); same("assignment from an rvalue", b, ca); } { V b(starts[i]); const V t(a); b = std::move(t); same("assignment from a const rvalue", b, ca); }
        { V b(starts[i]), c(a); b.swap(c); same("swap", b, ca); same("swap, other", c, starts[i]); } { V b(starts[i]); V& r = b; r = r; same("self assignment", b, starts[i]); }
    }
    std::vector<V> vs; for (int i = 0; i < 9; ++i) { vs.push_back(a); vs.emplace_back(a); vs.insert(vs.begin(), ca); } for (std::size_t i = 0; i < vs.size(); ++i) same("vector element", vs[i], ca);
    same("source", a, ca);
}
template <class V, class X> void inherits(const char* name, const X& value, int idx) {
    set_case("%s: derived class, type %d", name, idx); seen("derived", shash(name), idx);
    struct D : V { int extra; D(const X& x) : V(x), extra(42) {} }; D d(value); const D cd(value); const V want(value);
    { V b(d); same("construction from a derived lvalue", b, want); } { V b(cd); same("construction from a derived const lvalue", b, want); } { D t(d); V b(std::move(t)); same("construction from a derived rvalue", b, want); }
    { V b; b = d; same("assignment from a derived lvalue", b, want); } { V b; b = cd; same("assignment from a derived const lvalue", b, want); } { V b; D t(d); b = std::move(t); same("assignment from a derived rvalue", b, want); }
    { D e(cd), f(e); f = e; f = cd; same<V>("copy of a derived object", f, want); CHECK("C04", f.extra == 42, "derived", "member of the derived class changed"); V v; v.swap(f); same<V>("swap with a derived object", v, want); }
    CHECK("C07", boost::get<X>(&cd) && *boost::get<X>(&cd) == value && boost::get<X>(d) == value && boost::relaxed_get<X>(&d) == boost::get<X>(&d), "derived-get", "get on a derived object"); CHECK("C11", cd == want && !(cd != want), "derived-compare", "comparison of a derived object");
    CHECK("C01", cd.which() == idx && cd.type() == want.type(), "derived-which", "which() %d of a derived object", cd.which());
}
// ---------------------------------------------------------------- scalars read from volatile objects; arrays and functions
template <class V> struct Vol;
template <class... Ts> struct Vol<boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V; const char* lname;
    template <class S, int I> void judge(const char* op, int cat, V& v, int k) {
        typedef typename Unwrap<typename NthT<I, Ts...>::type>::type T; char nm[80]; name_of<S>(nm, sizeof nm); static const char* cn[] = { "volatile", "const volatile", "volatile rvalue" };
        CHECK("C06", v.which() == I, "volatile-type", "%s from %s %s selected bounded type %d, overload resolution selects %d", op, cn[cat], nm, v.which(), I);
        T* p = boost::get<T>(&v); T e = Mk<S>::make(k); if (p) CHECK("C06", eq(*p, e), "volatile-value", "%s from %s %s: content is not the converted value", op, cn[cat], nm);
    }
    template <class S, class Cat, int C> void cat(std::integral_constant<int, -1>) { count("not_convertible"); }
    template <class S, class Cat, int C, int I> void cat(std::integral_constant<int, I>) {
        for (int k = 0; k < 8; ++k) {
            char nm[80]; name_of<S>(nm, sizeof nm); set_case("%s: volatile source category %d, %s #%d", lname, C, nm, k); seen(lname, shash(nm), C, k); volatile S x = Mk<S>::make(k);
            { V v(static_cast<Cat>(x)); judge<S, I>("construction", C, v, k); } { V v = static_cast<Cat>(x); judge<S, I>("copy-initialization", C, v, k); }
            int d[] = { (start<S, Cat, C, I, typename Unwrap<Ts>::type>(x, k), 0)... }; (void)d;
        }
    }
    template <class S, class Cat, int C, int I, class Start> void start(volatile S& x, int k) { V v(Mk<Start>::make(3)); v = static_cast<Cat>(x); judge<S, I>("assignment", C, v, k); count("assignments"); }
    template <class S> void src() { cat<S, volatile S&, 0>(std::integral_constant<int, Pick<V, volatile S&>::value>()); cat<S, const volatile S&, 1>(std::integral_constant<int, Pick<V, const volatile S&>::value>()); cat<S, volatile S&&, 2>(std::integral_constant<int, Pick<V, volatile S&&>::value>()); }
    template <class... S> void go(const char* n) { lname = n; int d[] = { (src<S>(), 0)... }; (void)d; }
};
template <class V, class T, class S> void decays(const char* name, S& src, int idx, T want, int assigned = -1) {   // (assignment takes its source as const, which an array element type shows)
    set_case("%s", name); seen("decays", shash(name)); V a(src), c = src, d; d = src; if (assigned >= 0) { CHECK("C06", d.which() == assigned, "decay-assign-type", "%s, assigned: bounded type %d instead of %d", name, d.which(), assigned); d = a; } V* all[] = { &a, &c, &d };
    for (int i = 0; i < 3; ++i) { CHECK("C06", all[i]->which() == idx, "decay-type", "%s, way %d: bounded type %d instead of %d", name, i, all[i]->which(), idx); if (T* p = boost::get<T>(all[i])) CHECK("C06", *p == want, "decay-value", "%s, way %d: wrong value", name, i); }
}
template <class... A> struct Pack {};
#define NUMS char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, float, double, bool
int main() {
#if PART == 1
    { Lst<boost::variant<int, double, std::string> > l; l.go<NUMS, Unscoped, Small, std::string, const char*, char*, ToInt, ToStr>("int,double,string"); l.never<Other, Scoped, blank, Other*>(); l.always<int, char, std::string, const char*, ToInt, ToStr>(); }
    { Lst<boost::variant<std::string, double, int> > l; l.go<NUMS, Unscoped, Small, std::string, const char*, char*, ToInt, ToStr>("string,double,int"); l.never<Other, Scoped, Other*>(); }
    { Lst<boost::variant<bool, std::string> > l; l.go<NUMS, Unscoped, std::string, const char*, char*, int*, ToStr>("bool,string"); l.never<Other, Scoped>(); }
    { Lst<boost::variant<std::string, bool, const char*> > l; l.go<bool, int, std::string, const char*, char*, int*, ToStr>("string,bool,cstr"); l.never<Other, Scoped>(); }
#elif PART == 2
    { Lst<boost::variant<char, short, int, long, float, double> > l; l.go<NUMS, Unscoped, Small, ToInt>("arith up"); l.never<Other, Scoped, std::string, const char*, int*>(); }
    { Lst<boost::variant<double, float, unsigned long, unsigned, unsigned char, bool> > l; l.go<NUMS, Unscoped, Small>("arith unsigned"); l.never<Other, Scoped, std::string>(); }
#elif PART == 3
    { Lst<boost::variant<unsigned char, int, recursive_wrapper<double>, Scoped, Unscoped> > l; l.go<NUMS, Unscoped, Scoped, Small, ToInt>("enums"); l.never<Other, std::string>(); }
    { Lst<boost::variant<Base, Other, std::string> > l; l.go<Base, Derived, Most, Other, ToOther, std::string, const char*, ToStr, char>("classes"); l.never<Scoped, int*>(); l.always<Base, Derived, Other, ToOther>(); }
    { Lst<boost::variant<Derived, Base, recursive_wrapper<Other> > > l; l.go<Base, Derived, Most, Other, ToOther>("derived,base"); l.never<std::string, Scoped, int*>(); }
    { Lst<boost::variant<recursive_wrapper<Base>, Other, recursive_wrapper<Derived> > > l; l.go<Base, Derived, Most, Other, ToOther>("wrapped base,derived"); l.never<std::string, Scoped>(); }
#elif PART == 4
    { Lst<boost::variant<void*, const Base*, Base*, bool> > l; l.go<Base*, const Base*, Derived*, void*, int*, bool, int>("pointers"); l.never<std::string, Other, Scoped>(); }
    { Lst<boost::variant<Fp, int, const void*> > l; l.go<Fp, int, char, void*, int*, Base*, const void*>("function pointer"); l.never<std::string, Other, Scoped>(); }
    { Lst<boost::variant<std::shared_ptr<Base>, int> > l; l.go<std::shared_ptr<Base>, std::shared_ptr<Derived>, int, char>("shared_ptr"); l.never<std::string, Other, Scoped, std::shared_ptr<Other> >(); }
    { Lst<boost::variant<blank, Counted, ByCategory> > l; l.go<Counted, ByCategory, blank>("counted"); l.never<std::string, Other, Scoped>(); }
    { Lst<boost::variant<blank, ByCategory> > l; l.go<Counted, ByCategory, blank>("by category"); l.never<std::string, Other, Scoped>(); }
    { Lst<boost::variant<std::unique_ptr<int>, int> > l; l.go<std::unique_ptr<int>, int, char>("unique_ptr"); l.never<std::string, Other, Scoped>(); }
    { Lst<boost::variant<FromStr, int> > l; l.go<std::string, int, char, ToInt, FromStr>("converting constructor"); l.never<Other, Scoped>(); }
#elif PART == 5
    foreign<boost::variant<int, double, std::string>, boost::variant<std::string, char> >("num<-str,char");
    foreign<boost::variant<double, std::string, long>, boost::variant<long, std::string> >("reordered");
    foreign<boost::variant<std::string, bool, int>, boost::variant<const char*, short, bool> >("cstr to bool");
    foreign<boost::variant<Base, Derived, Other>, boost::variant<Most, ToOther, Base> >("classes");
    foreign<boost::variant<blank, Other, Counted>, boost::variant<Counted, blank> >("counted");
    foreign<boost::variant<int, ByCategory>, boost::variant<Counted, int, char> >("by category");
#elif PART == 6
    foreign<boost::variant<recursive_wrapper<Counted>, int, Other>, boost::variant<Counted, ToOther> >("to wrapped");
    foreign<boost::variant<int, recursive_wrapper<Counted> >, boost::variant<recursive_wrapper<Counted>, char> >("wrapped to wrapped");
    foreign<boost::variant<int, Counted>, boost::variant<Counted> >("from single");

#elif PART == 7
    backup<boost::variant<B1, E1, C1>, boost::variant<C1, E1>, C1, E1>("backup C1"); backup<boost::variant<B1, E1, C1>, boost::variant<C1, E1>, E1, C1>("backup E1");
    backup<boost::variant<int, C3, C1, E1>, boost::variant<C3, E1, C1>, C3, C1>("backup to fallback"); backup<boost::variant<recursive_wrapper<C1>, E1>, boost::variant<E1, C1>, C1, E1>("backup to wrapped");
    { typedef boost::variant<int, std::string> In; whole<boost::variant<Other, In>, In, 1>("nested last"); whole<boost::variant<In, Other>, In, 0>("nested first"); whole<boost::variant<Other, double, In, const char*>, In, 2>("nested with convertible types"); whole<boost::variant<recursive_wrapper<In>, Other, int, std::string>, In, 0>("wrapped nested"); whole<boost::variant<int, std::string, Other, In>, In, 3>("nested beside its types"); }
    { Lst<boost::variant<int, Other> > l; l.lname = "foreign traits"; typedef boost::variant<std::string, int> F; typedef boost::variant<char, ToOther> G; l.never<F>(); l.always<G>(); }
#elif PART == 8
    { typedef boost::variant<int, std::string, Greedy> V; greedy<V>("greedy last", 5, 0); greedy<V>("greedy last", std::string("abc"), 1); greedy<V>("greedy last", Greedy(), 2); }
    { typedef boost::variant<Greedy, std::string, int> V; greedy<V>("greedy first", 5, 2); greedy<V>("greedy first", std::string("abc"), 1); greedy<V>("greedy first", Greedy(), 0); }
    { typedef boost::variant<std::string, GreedyAsg, int> V; greedy<V>("greedy assignment", 5, 2); greedy<V>("greedy assignment", std::string("abc"), 0); greedy<V>("greedy assignment", GreedyAsg(), 1); }
    { typedef boost::variant<int, recursive_wrapper<Greedy>, recursive_wrapper<std::string> > V; greedy<V>("greedy wrapped", 5, 0); greedy<V>("greedy wrapped", std::string("abc"), 2); greedy<V>("greedy wrapped", Greedy(), 1); }
    { typedef boost::make_variant_over<boost::mpl::vector<std::string, Greedy, int> >::type V; greedy<V>("greedy over", 5, 2); greedy<V>("greedy over", std::string("abc"), 0); greedy<V>("greedy over", Greedy(), 1); }
    { typedef boost::variant<int, std::string, Base> V; inherits<V>("plain", 5, 0); inherits<V>("plain", std::string("abc"), 1); inherits<V>("plain", Base(3), 2); }
    { typedef boost::variant<std::string, recursive_wrapper<Base>, int> V; inherits<V>("wrapped", 5, 2); inherits<V>("wrapped", std::string("abc"), 0); inherits<V>("wrapped", Base(3), 1); }
#elif PART == 9
    { Vol<boost::variant<std::string, int, double> > l; l.go<NUMS, Unscoped, Small>("volatile to string,int,double"); } { Vol<boost::variant<double, int> > l; l.go<NUMS, Unscoped, Small>("volatile to double,int"); }
    { Vol<boost::variant<bool, recursive_wrapper<std::string>, int> > l; l.go<bool, int, short, char>("volatile to bool,string,int"); } { Vol<boost::variant<char, short, int, long, float, double> > l; l.go<NUMS, Unscoped, Small>("volatile arith up"); }
    { Vol<boost::variant<Scoped, unsigned char, Unscoped, int> > l; l.go<Scoped, Unscoped, Small, int, char, unsigned char>("volatile enums"); } { Vol<boost::variant<bool, const Base*, void*, Base*> > l; l.go<Base*, const Base*, Derived*, void*, int*, bool>("volatile pointers"); }
    { Vol<boost::variant<double, float, unsigned long, unsigned, unsigned char, bool> > l; l.go<NUMS, Unscoped, Small>("volatile arith unsigned"); } { Vol<boost::variant<std::string, int, const char*> > l; l.go<const char*, char*, int>("volatile cstr"); }
    { char arr[6] = "array"; const char carr[6] = "const"; int ints[3] = { 1, 2, 3 };
      decays<boost::variant<std::string, int>, std::string>("char array to string", arr, 0, "array"); decays<boost::variant<int, std::string>, std::string>("const char array to string", carr, 1, "const");
      decays<boost::variant<std::string, bool, const char*>, const char*>("char array to pointer", arr, 2, (const char*)arr); decays<boost::variant<bool, std::string>, bool>("char array to bool", arr, 0, true);
      decays<boost::variant<std::string, int*, bool>, int*>("int array to pointer", ints, 1, (int*)ints, 2); decays<boost::variant<const void*, bool>, const void*>("int array to void pointer", ints, 0, (const void*)ints);
      decays<boost::variant<int, Fp>, Fp>("function to pointer", fun1, 1, (Fp)fun1); decays<boost::variant<bool, Fp, std::string>, Fp>("function to pointer, bool", fun2, 1, (Fp)fun2); }
#endif
    finish(); return 0;
}
