// C16: operations reported noexcept never pass a point that can throw; exceptions of every other operation reach the caller as thrown.
#include "common.hpp"
#include <boost/functional/hash.hpp>
#include <sstream>
#include <deque>
#ifndef PART
#define PART 1
#endif
typedef T<1,0,1,1> C1; typedef T<2,0,1,0,8> E1; typedef T<3,0,1,2> B1; typedef T<4,0,2,2> A1; typedef T<5,0,2,1> D1; typedef T<6,2,1,1> F1; typedef T<7,1,1,2,8> G1; typedef T<8,2,2,2,16> N1; typedef T<9,0,0,2> M1; typedef T<10,1,1,1> H1; typedef T<11,0,0,1> M2;
// nothrow move construction but throwing move assignment, and the reverse
struct Q1 { T<12,1,1,2> t; explicit Q1(long v) : t(v) {} Q1() : t() {} Q1(const Q1& o) : t(o.t) {} Q1(Q1&& o) noexcept : t(std::move(o.t)) {} Q1& operator=(const Q1& o) { t = o.t; return *this; } Q1& operator=(Q1&& o) noexcept(false) { point(); t = std::move(o.t); return *this; } long get() const { return t.get(); } bool operator==(const Q1& o) const { return t == o.t; } bool operator<(const Q1& o) const { return t < o.t; } };
struct Q2 { T<13,0,1,2> t; explicit Q2(long v) : t(v) {} Q2(const Q2& o) : t(o.t) {} Q2(Q2&& o) noexcept(false) : t((point(), std::move(o.t))) {} Q2& operator=(const Q2& o) { t = o.t; return *this; } Q2& operator=(Q2&& o) noexcept { t = std::move(o.t); return *this; } long get() const { return t.get(); } bool operator==(const Q2& o) const { return t == o.t; } bool operator<(const Q2& o) const { return t < o.t; } };
// nothrow moves, but a swap of its own that may throw
struct Q3 { T<14,0,1,2> t; explicit Q3(long v) : t(v) {} Q3(const Q3& o) : t(o.t) {} Q3(Q3&& o) noexcept : t(std::move(o.t)) {} Q3& operator=(const Q3& o) { t = o.t; return *this; } Q3& operator=(Q3&& o) noexcept { t = std::move(o.t); return *this; } long get() const { return t.get(); } bool operator==(const Q3& o) const { return t == o.t; } bool operator<(const Q3& o) const { return t < o.t; } };
inline void swap(Q3& a, Q3& b) { point(); Q3 x(std::move(a)); a = std::move(b); b = std::move(x); }
inline std::size_t hash_value(const Q3& q) { return hash_value(q.t); } inline std::ostream& operator<<(std::ostream& o, const Q3& q) { return o << q.t; }
inline std::size_t hash_value(const Q1& q) { return hash_value(q.t); } inline std::size_t hash_value(const Q2& q) { return hash_value(q.t); }
inline std::ostream& operator<<(std::ostream& o, const Q1& q) { return o << q.t; } inline std::ostream& operator<<(std::ostream& o, const Q2& q) { return o << q.t; }
namespace boost { inline std::size_t hash_value(const blank&) { return 17; } }
template <class X> struct Mk { static X make(long v) { return X(v); } }; template <> struct Mk<blank> { static blank make(long) { return blank(); } };

struct Boom { long n; }; struct NotStd { int x; };
// an exception thrown by a visitor must come out as it is
struct Thrower : boost::static_visitor<int> { int kind; mutable int calls; explicit Thrower(int k) : kind(k), calls(0) {} void go() const { ++calls; if (kind == 1) { Boom b = { 77 }; throw b; } if (kind == 2) throw 42; if (kind == 3) throw std::bad_alloc(); if (kind == 4) throw boost::bad_visit(); if (kind == 5) throw "text"; }
    template <class X> int operator()(const X&) const { go(); return 1; } template <class X, class Y> int operator()(const X&, const Y&) const { go(); return 2; } template <class X, class Y, class Z> int operator()(const X&, const Y&, const Z&) const { go(); return 3; } };

template <class... X> struct AllCopy { enum { value = 1 }; }; template <class A, class... R> struct AllCopy<A, R...> { enum { value = std::is_copy_constructible<A>::value && AllCopy<R...>::value }; };
template <class V> struct Nx;
template <class... Ts> struct Nx<boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V; enum { N = sizeof...(Ts) }; const char* name; 
    enum { copyable = std::is_copy_constructible<typename Unwrap<typename NthT<0, Ts...>::type>::type>::value };
    // run f with a fault at every point; nx: the operation is declared noexcept. mk prepares fresh operands for each run.
    template <class P, class F> void probe(const char* op, bool nx, int t, int u, P prep, F f) {
        set_case("%s: %s types %d %d%s", name, op, t, u, nx ? " (noexcept)" : ""); seen(name, shash(op), t, u);
        { auto st = prep(); long p; { Inside in; arm(1000000); f(*st); p = fault().points; disarm(); }
          CHECK("C16", !nx || p == 0, "noexcept-lie", "%s is declared noexcept but passes %ld points that may throw (types %d, %d)", op, p, t, u); count(nx ? "noexcept_ops" : "throwing_ops"); if (nx) return;
          count("points", p);
          for (int sticky = 0; sticky < 3; sticky += 2) for (long k = 1; k <= p; ++k) {
            auto s2 = prep(); set_case("%s: %s types %d %d fault %ld/%ld%s", name, op, t, u, k, p, sticky ? " sticky" : ""); int got = 0; long ser = -1; bool fired, alloc;
            { Inside in; arm(k, sticky); try { f(*s2); } catch (const Injected& i) { got = 1; ser = i.serial; } catch (const std::bad_alloc&) { got = 2; } catch (...) { got = 3; } fired = fault().fired; alloc = fault().was_alloc; disarm(); }
            if (!fired) continue;
            count("faults");
            CHECK("C16", got != 0, "swallowed", "%s: an exception thrown inside did not reach the caller (fault %ld of %ld)", op, k, p);
            CHECK("C16", got == 0 || (sticky ? got < 3 : alloc ? got == 2 : got == 1 && ser == fault().serial), "replaced", "%s: the caller got another exception (%d) than the one thrown", op, got);
          } }
    }
    struct Two { V a, b; Two(V&& x, V&& y) : a(std::move(x)), b(std::move(y)) {} }; 
    template <class A> static V mk(long v) { return V(Mk<typename Unwrap<A>::type>::make(v)); }
    template <class A, class B> void pair(int t, int u) {
        auto prep = [] { return std::unique_ptr<Two>(new Two(mk<A>(5), mk<B>(6))); };
        probe("move assignment", noexcept(std::declval<V&>() = std::declval<V>()), t, u, prep, [](Two& s) { s.a = std::move(s.b); });
        probe("swap member", noexcept(std::declval<V&>().swap(std::declval<V&>())), t, u, prep, [](Two& s) { s.a.swap(s.b); });
        probe("swap", noexcept(swap(std::declval<V&>(), std::declval<V&>())), t, u, prep, [](Two& s) { swap(s.a, s.b); });
        probe("==", noexcept(std::declval<const V&>() == std::declval<const V&>()), t, u, prep, [](Two& s) { (void)(s.a == s.b); });
        probe("<", noexcept(std::declval<const V&>() < std::declval<const V&>()), t, u, prep, [](Two& s) { (void)(s.a < s.b); });
        probe("!= > <= >=", noexcept(std::declval<const V&>() != std::declval<const V&>()) && noexcept(std::declval<const V&>() > std::declval<const V&>()), t, u, prep, [](Two& s) { (void)(s.a != s.b); (void)(s.a > s.b); (void)(s.a <= s.b); (void)(s.a >= s.b); });
        probe("binary visitation", false, t, u, prep, [](Two& s) { Thrower v(0); boost::apply_visitor(v, s.a, s.b); });
        copies<A, B>(t, u, std::integral_constant<bool, allcopy::value>());
        for (int k = 1; k <= 5; ++k) { auto s = prep(); Thrower v(k); int got = 0; set_case("%s: throwing visitor %d on %d %d", name, k, t, u); try { boost::apply_visitor(v, s->a, s->b); } catch (const Boom& b) { got = b.n == 77 ? 1 : 0; } catch (int i) { got = i == 42 ? 2 : 0; } catch (const std::bad_alloc&) { got = 3; } catch (const boost::bad_visit&) { got = 4; } catch (const char*) { got = 5; }
            CHECK("C16,C10", got == k && v.calls == 1, "visitor-exception", "binary visitation: exception %d of the visitor arrived as %d after %d calls", k, got, v.calls);
            auto s3 = prep(); Thrower w(k); got = 0; try { boost::apply_visitor(w, s3->a, s3->b, s3->a); } catch (const Boom&) { got = 1; } catch (int) { got = 2; } catch (const std::bad_alloc&) { got = 3; } catch (const boost::bad_visit&) { got = 4; } catch (const char*) { got = 5; } CHECK("C16,C10", got == k && w.calls == 1, "visitor-exception", "ternary visitation: exception %d arrived as %d after %d calls", k, got, w.calls); }
    }
    typedef AllCopy<typename Unwrap<Ts>::type...> allcopy;
    template <class A, class B> void copies(int, int, std::false_type) {}
    template <class A, class B> void copies(int t, int u, std::true_type) {
        auto prep = [] { return std::unique_ptr<Two>(new Two(mk<A>(5), mk<B>(6))); }; typedef typename Unwrap<B>::type X;
        probe("copy assignment", noexcept(std::declval<V&>() = std::declval<const V&>()), t, u, prep, [](Two& s) { s.a = static_cast<const V&>(s.b); });
        static X xv(Mk<X>::make(8));
        probe("assignment of a value", noexcept(std::declval<V&>() = std::declval<const X&>()), t, u, prep, [](Two& s) { s.a = static_cast<const X&>(xv); });
        probe("assignment of an rvalue", noexcept(std::declval<V&>() = std::declval<X>()), t, u, prep, [](Two& s) { s.a = std::move(boost::get<X>(s.b)); });
        // source in backup state
        { X b(Mk<X>::make(3)); typedef typename Unwrap<A>::type Y; V probe_v(Mk<Y>::make(5));
          if (back<Y>(probe_v, b, std::integral_constant<bool, !std::is_same<Y, X>::value && !std::is_same<X, blank>::value && !std::is_same<Y, blank>::value>())) {
            auto pb = [&] { std::unique_ptr<Two> s(new Two(mk<A>(5), mk<B>(6))); back<Y>(s->a, b, std::integral_constant<bool, !std::is_same<Y, X>::value && !std::is_same<X, blank>::value && !std::is_same<Y, blank>::value>()); return s; };
            probe("copy assignment to backup", false, t, u, pb, [](Two& s) { s.a = static_cast<const V&>(s.b); }); probe("copy assignment from backup", false, t, u, pb, [](Two& s) { s.b = static_cast<const V&>(s.a); });
            probe("move assignment from backup", noexcept(std::declval<V&>() = std::declval<V>()), t, u, pb, [](Two& s) { s.b = std::move(s.a); }); probe("move construction from backup", std::is_nothrow_move_constructible<V>::value, t, u, pb, [](Two& s) { V x(std::move(s.a)); (void)x; }); probe("swap with backup", noexcept(std::declval<V&>().swap(std::declval<V&>())), t, u, pb, [](Two& s) { s.b.swap(s.a); });
          } }
    }
    template <class Y, class X> static bool back(V& v, const X& b, std::true_type) { return into_backup<Y>(v, 5, b); }
    template <class Y, class X> static bool back(V&, const X&, std::false_type) { return false; }
    template <class A> void single(int t) {
        typedef typename Unwrap<A>::type X; struct S1 { V a; S1(V&& x) : a(std::move(x)) {} }; auto prep = [] { return std::unique_ptr<S1>(new S1(mk<A>(5))); };
        probe("move construction", std::is_nothrow_move_constructible<V>::value, t, t, prep, [](S1& s) { V x(std::move(s.a)); (void)x; });
        probe("which/type/empty", true, t, t, prep, [](S1& s) { (void)s.a.which(); (void)s.a.empty(); (void)&s.a.type(); });
        probe("pointer get", true, t, t, prep, [](S1& s) { int d[] = { (boost::get<typename Unwrap<Ts>::type>(&s.a), 0)... }; (void)d; });
        CHECK("C16", noexcept(boost::get<X>(static_cast<V*>(0))) && noexcept(boost::get<X>(static_cast<const V*>(0))) && noexcept(std::declval<V&>().which()) && noexcept(std::declval<V&>().empty()) && std::is_nothrow_destructible<V>::value, "declared", "an operation that cannot fail is not declared noexcept");
        probe("destruction", true, t, t, prep, [](S1& s) { alignas(V) unsigned char b[sizeof(V)]; bool on = fault().on; disarm(); V* p = new (b) V(std::move(s.a)); fault().on = on; p->~V(); });
        probe("hash", false, t, t, prep, [](S1& s) { (void)boost::hash<V>()(s.a); });
        probe("stream", false, t, t, [] { return std::unique_ptr<S1>(new S1(mk<A>(5))); }, [](S1& s) { Outside o; std::ostringstream os; { Inside i; os << s.a; } });
        one_copy<A>(t, std::integral_constant<bool, allcopy::value>());
        for (int k = 1; k <= 5; ++k) { auto s = prep(); Thrower v(k); int got = 0; set_case("%s: throwing visitor %d on %d", name, k, t); try { boost::apply_visitor(v, s->a); } catch (const Boom& b) { got = b.n == 77 ? 1 : 0; } catch (int i) { got = i == 42 ? 2 : 0; } catch (const std::bad_alloc&) { got = 3; } catch (const boost::bad_visit&) { got = 4; } catch (const char*) { got = 5; } CHECK("C16,C09", got == k && v.calls == 1, "visitor-exception", "exception %d of the visitor arrived as %d after %d calls", k, got, v.calls); }
        // the failing forms of get
        { auto s = prep(); const V& c = s->a; bool ok = false; try { (void)boost::relaxed_get<NotStd>(s->a); } catch (const boost::bad_get& e) { ok = e.what() && *e.what(); } CHECK("C16,C07", ok, "bad_get", "reference get of another type did not throw bad_get with a message"); ok = false; try { (void)boost::relaxed_get<NotStd>(c); } catch (const std::exception& e) { ok = dynamic_cast<const boost::bad_get*>(&e) && *e.what(); } CHECK("C16,C07", ok, "bad_get", "reference get did not throw a std::exception with a message");
          ok = false; try { (void)boost::polymorphic_relaxed_get<NotStd>(c); } catch (const std::exception& e) { ok = dynamic_cast<const boost::bad_polymorphic_get*>(&e) && *e.what(); } CHECK("C16,C08", ok, "bad_polymorphic_get", "polymorphic_get did not throw bad_polymorphic_get with a message");
          ok = false; try { boost::apply_visitor(boost::visitor_ptr(&notstd), s->a); } catch (const std::exception& e) { ok = dynamic_cast<const boost::bad_visit*>(&e) && *e.what(); } CHECK("C16,C09", ok, "bad_visit", "visitor_ptr did not throw bad_visit with a message"); }
    }
    static void notstd(const NotStd&) {}
    template <class A> void one_copy(int, std::false_type) {}
    template <class A> void one_copy(int t, std::true_type) {
        typedef typename Unwrap<A>::type X; struct S1 { V a; X x; S1(V&& y) : a(std::move(y)), x(Mk<X>::make(4)) {} }; auto prep = [] { return std::unique_ptr<S1>(new S1(mk<A>(5))); };
        probe("copy construction", std::is_nothrow_copy_constructible<V>::value, t, t, prep, [](S1& s) { V x(static_cast<const V&>(s.a)); (void)x; });
        probe("construction from a value", std::is_nothrow_constructible<V, const X&>::value, t, t, prep, [](S1& s) { V x(static_cast<const X&>(s.x)); (void)x; });
        probe("construction from an rvalue", std::is_nothrow_constructible<V, X>::value, t, t, prep, [](S1& s) { V x(std::move(s.x)); (void)x; });
        // containers: a growing vector keeps its contents when an element operation throws
        for (long k = 1; k < 40; ++k) { set_case("%s: vector growth, type %d fault %ld", name, t, k); std::vector<V> v; int start = 1 + (int)(k % 5); v.reserve((std::size_t)start); for (int i = 0; i < start; ++i) v.push_back(mk<A>(10 + i)); V extra(mk<A>(99)); bool threw = false; std::size_t cap = v.capacity();
            { Inside in; arm(k); try { v.push_back(extra); } catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } disarm(); }
            CHECK("C16", v.size() == (std::size_t)start + !threw, "strong-size", "vector of variants has %d elements after %s push_back", (int)v.size(), threw ? "failed" : "successful");
            if (std::is_nothrow_move_constructible<V>::value || std::is_copy_constructible<V>::value) { bool same = true; { for (int i = 0; i < start; ++i) { V e(mk<A>(10 + i)); if (!(v[(std::size_t)i] == e)) same = false; } } CHECK("C16", same, "strong-guarantee", "a failed push_back changed the elements of a vector of variants"); }
            (void)cap; if (threw) count("faults"); else break; }
    }
    template <class A> void pairs(int t) { int u = 0; int d[] = { (pair<A, Ts>(t, u++), 0)... }; (void)d; }
    template <class Z> static typename std::enable_if<std::is_default_constructible<typename Unwrap<Z>::type>::value>::type dflt(Nx* n) { int dummy = 0; (void)dummy; n->probe("default construction", std::is_nothrow_default_constructible<V>::value, 0, 0, [] { return std::unique_ptr<int>(new int(0)); }, [](int&) { V v; (void)v; }); }
    template <class Z> static typename std::enable_if<!std::is_default_constructible<typename Unwrap<Z>::type>::value>::type dflt(Nx*) {}
    void go(const char* n) { name = n; long live0 = reg().n; { int t = 0; dflt<typename NthT<0, Ts...>::type>(this); int d[] = { (single<Ts>(t), pairs<Ts>(t), ++t)... }; (void)d;
        set_case("%s: traits", name);
        static const bool mc[] = { (!Unwrap<Ts>::wrapped && std::is_nothrow_move_constructible<typename Unwrap<Ts>::type>::value)... }, ma[] = { ((Unwrap<Ts>::wrapped) || std::is_nothrow_move_assignable<typename Unwrap<Ts>::type>::value)... };
        bool all_mc = true, all_ma = true; for (int i = 0; i < N; ++i) { all_mc &= mc[i]; all_ma &= ma[i]; }
        CHECK("C16", all_mc || !std::is_nothrow_move_constructible<V>::value, "trait", "move construction reported noexcept although a bounded type's may throw"); CHECK("C16", (all_mc && all_ma) || !std::is_nothrow_move_assignable<V>::value, "trait", "move assignment reported noexcept although a bounded type's may throw");
        CHECK("C16", !all_mc || std::is_nothrow_move_constructible<V>::value, "trait-lost", "move construction of nothrow-movable types is not reported noexcept"); CHECK("C16", !(all_mc && all_ma) || std::is_nothrow_move_assignable<V>::value, "trait-lost", "move assignment of nothrow-movable types is not reported noexcept");
        } (void)live0; }
};
template <class V> void go(const char* n) { Nx<V>* x = new Nx<V>; x->go(n); delete x; }
int main() {
    using boost::variant;
#if PART == 1
    go<variant<C1, E1, B1> >("C1,E1,B1");
#elif PART == 2
    go<variant<A1, N1> >("A1,N1"); go<variant<N1> >("N1");
#elif PART == 3
    go<variant<F1, C1> >("F1,C1"); go<variant<D1, E1> >("D1,E1");
#elif PART == 4
    go<variant<B1, G1, A1> >("B1,G1,A1");
#elif PART == 5
    go<variant<H1, blank, C1> >("H1,blank,C1");
#elif PART == 6
    go<variant<Q1, B1> >("Q1,B1"); go<variant<Q2, A1> >("Q2,A1");
#elif PART == 7
    go<variant<M1, B1> >("M1,B1"); go<variant<M1, N1> >("M1,N1"); go<variant<recursive_wrapper<B1>, A1> >("wrapped B1,A1");
#elif PART == 8
    go<variant<N1, recursive_wrapper<A1> > >("N1,wrapped A1"); go<variant<recursive_wrapper<G1>, recursive_wrapper<C1> > >("wrapped G1,C1");
#elif PART == 9
    go<variant<Q3> >("Q3"); go<variant<Q3, N1> >("Q3,N1"); go<variant<B1, Q3, blank> >("B1,Q3,blank");
#endif
    finish(); return 0;
}
