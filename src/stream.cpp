// C13: streaming a variant against streaming its content directly, for narrow and wide streams in every formatting state.
#define VERIF_NO_ALLOC_HOOK
#include "common.hpp"
#include <iomanip>
#include <locale>
#include <sstream>
#include <iostream>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <string>

static int g_calls, g_mode; static const void* g_addr; static const void* g_stream; struct Boom { int n; };
static std::string current() {                       // what is being handled, to the last detail
    try { throw; } catch (const Boom& b) { return "Boom" + std::to_string(b.n); } catch (const std::bad_alloc&) { return "bad_alloc"; } catch (const std::ios_base::failure& e) { return std::string("failure ") + e.what(); } catch (const boost::bad_get&) { return "bad_get"; } catch (const boost::bad_visit&) { return "bad_visit"; } catch (const std::exception& e) { return std::string(typeid(e).name()) + e.what(); } catch (int i) { return std::to_string(i); } catch (const char* s) { return s; } catch (...) { return "another"; } }
static int xidx() { static int i = std::ios_base::xalloc(); return i; }
template <int N> struct U {                          // user type: reads and writes every kind of stream state
    long v; explicit U(long x = 0) : v(x) {} U(const U& o) : v(o.v) { point(); } U& operator=(const U& o) { point(); v = o.v; return *this; }
    template <class C, class Tr> friend std::basic_ostream<C, Tr>& operator<<(std::basic_ostream<C, Tr>& o, const U& u) {
        ++g_calls; g_addr = &u; g_stream = &o;
        long w = (long)o.width(); o << u.v; o << C(':') << w; ++o.iword(xidx()); o.precision(o.precision() + 1);
        if (g_mode == 1) o.setstate(std::ios_base::failbit); if (g_mode == 2) { Boom b = { 7 }; throw b; } if (g_mode == 3) o << std::hex << std::left; if (g_mode == 4) o.setstate(std::ios_base::badbit);
        if (g_mode == 5) throw std::bad_alloc(); if (g_mode == 6) throw std::ios_base::failure("content"); if (g_mode == 7) throw 42; if (g_mode == 8) throw std::runtime_error("content"); if (g_mode == 9) throw boost::bad_get(); if (g_mode == 10) throw boost::bad_visit(); if (g_mode == 11) throw (const char*)"content";
        return o;
    }
};
struct Numpunct : std::numpunct<char> { char do_thousands_sep() const { return '\''; } std::string do_grouping() const { return "\3"; } char do_decimal_point() const { return ','; } std::string do_truename() const { return "ja"; } };
template <class X> struct Mk { static X make(long v) { return X(v); } };
template <> struct Mk<int> { static int make(long v) { return (int)(v * 12345); } };
template <> struct Mk<double> { static double make(long v) { return (double)v * 1.37e3 + 0.125; } };
template <> struct Mk<bool> { static bool make(long v) { return v & 1; } };
template <> struct Mk<char> { static char make(long v) { return (char)('a' + v % 26); } };
template <> struct Mk<blank> { static blank make(long) { return blank(); } };
template <> struct Mk<std::string> { static std::string make(long v) { return std::string((std::size_t)(v % 23), (char)('A' + v % 26)); } };
template <> struct Mk<std::wstring> { static std::wstring make(long v) { return std::wstring((std::size_t)(v % 23), (wchar_t)('A' + v % 26)); } };
template <> struct Mk<const char*> { static const char* make(long v) { static const char* t[] = { "", "x", "hello world", "0x" }; return t[v % 4]; } };
template <> struct Mk<const wchar_t*> { static const wchar_t* make(long v) { static const wchar_t* t[] = { L"", L"x", L"hello", L"0x" }; return t[v % 4]; } };
template <> struct Mk<void*> { static void* make(long v) { return (void*)(v * 4096); } };
template <class A, class B> struct Mk<boost::variant<A, B> > { static boost::variant<A, B> make(long v) { if (v & 1) return Mk<A>::make(v / 2); return Mk<B>::make(v / 2); } };

template <class C> void setup(std::basic_ostream<C>& o, Rng rng, bool user_locale) {
    using namespace std;
    if (rng.chance(1, 2)) o << (rng.chance(1, 2) ? hex : oct);
    if (rng.chance(1, 2)) o << showbase; if (rng.chance(1, 3)) o << showpos; if (rng.chance(1, 3)) o << uppercase; if (rng.chance(1, 2)) o << boolalpha;
    if (rng.chance(1, 3)) o << (rng.chance(1, 2) ? fixed : scientific); if (rng.chance(1, 3)) o << showpoint; if (rng.chance(1, 3)) o << unitbuf;
    switch (rng.below(4)) { case 0: o << left; break; case 1: o << right; break; case 2: o << internal; break; }
    if (rng.chance(1, 2)) o.fill(C("*_0#"[rng.below(4)])); o.precision((streamsize)rng.below(12));
    if (rng.chance(1, 8)) o.setstate(ios_base::failbit); else if (rng.chance(1, 8)) o.setstate(ios_base::badbit); else if (rng.chance(1, 8)) o.setstate(ios_base::eofbit);
    if (rng.chance(2, 3)) o.width((streamsize)rng.below(20));
    o.iword(xidx()) = (long)rng.below(100);
}
template <class C> struct NP; 
// a buffer that refuses output after some characters
template <class C> struct Limited : std::basic_streambuf<C> { std::basic_string<C> s; std::size_t cap; explicit Limited(std::size_t c) : cap(c) {} typename std::basic_streambuf<C>::int_type overflow(typename std::basic_streambuf<C>::int_type c) { if (s.size() >= cap) return std::char_traits<C>::eof(); s.push_back((C)c); return c; } };

template <class C, class V> struct Run;
template <class C, class... Ts> struct Run<C, boost::variant<Ts...> > {
    typedef boost::variant<Ts...> V; const char* lname;
    template <class X> void compare(const V& v, const X& x, Rng& rng) {
        std::uint64_t st = rng.next();
        set_case("%s (%s): which()=%d stream state %llu mode %d", lname, sizeof(C) == 1 ? "narrow" : "wide", v.which(), (unsigned long long)st, g_mode);
        seen(lname, sizeof(C), v.which(), st, g_mode);
        std::size_t cap = rng.chance(1, 6) ? rng.below(12) : 100000; bool exc = rng.chance(1, 5); bool loc = rng.chance(1, 4);
        Limited<C> b1(cap), b2(cap); std::basic_ostream<C> o1(&b1), o2(&b2);
        if (loc && sizeof(C) == 1) { std::locale l(std::locale::classic(), new Numpunct); o1.imbue(l); o2.imbue(l); }
        setup(o1, Rng(st), loc); setup(o2, Rng(st), loc);
        if (exc) { o1.clear(); o2.clear(); o1.exceptions(std::ios_base::badbit | std::ios_base::failbit); o2.exceptions(std::ios_base::badbit | std::ios_base::failbit); }
        std::string e1, e2; int which0 = v.which(); const void* addr0 = content_addr(v);
        g_calls = 0; g_addr = g_stream = 0;
        try { std::basic_ostream<C>& r = (o1 << v); CHECK("C13", &r == &o1, "returns", "operator<< did not return its stream"); } catch (...) { e1 = current(); }
        int c1 = g_calls; const void* ad = g_addr; const void* so = g_stream; g_calls = 0;
        try { o2 << x; } catch (...) { e2 = current(); }
        CHECK("C13", e1 == e2, "exception", "exception '%s' instead of '%s'", e1.c_str(), e2.c_str());
        CHECK("C13", b1.s == b2.s, "text", "variant wrote %d characters, content writes %d, or other ones", (int)b1.s.size(), (int)b2.s.size());
        CHECK("C13", o1.rdstate() == o2.rdstate(), "rdstate", "stream state %d instead of %d", (int)o1.rdstate(), (int)o2.rdstate());
        CHECK("C13", o1.flags() == o2.flags(), "flags", "format flags differ");
        CHECK("C13", o1.width() == o2.width() && o1.precision() == o2.precision() && o1.fill() == o2.fill(), "format", "width/precision/fill %d/%d instead of %d/%d", (int)o1.width(), (int)o1.precision(), (int)o2.width(), (int)o2.precision());
        CHECK("C13", o1.iword(xidx()) == o2.iword(xidx()), "iword", "user stream state differs");
        CHECK("C13", c1 == g_calls, "calls", "content operator<< called %d times, expected %d", c1, g_calls);
        if (c1 && SAME(X, U<1>)) CHECK("C13", ad == addr0 && so == (const void*)&o1, "identity", "content operator<< got another object or stream");
        CHECK("C13", v.which() == which0 && content_addr(v) == addr0, "changed", "streaming changed the variant");
    }
    template <class X> void one(Rng& rng, int n) {
        typedef typename Unwrap<X>::type T0;
        for (int i = 0; i < n; ++i) { T0 x = Mk<T0>::make((long)rng.below(1000)); V v(x); g_mode = (int)rng.below(12); compare<T0>(v, x, rng); g_mode = 0;
            V w(v); compare<T0>(w, x, rng); }
    }
    void go(const char* n, std::uint64_t seed, int k) { lname = n; Rng rng(seed); int d[] = { (this->template one<Ts>(rng, k), 0)... }; (void)d; }
    template <class A, class B> void backup(const char* n, std::uint64_t seed, int k) { lname = n; Rng rng(seed); B b(2); for (int i = 0; i < k; ++i) { V v(A(0)); if (!into_backup<A>(v, i, b)) return; A x(i); compare<A>(v, x, rng); } }
};
int main(int argc, char** argv) {
    std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], 0, 10) : 1; int n = argc > 2 ? std::atoi(argv[2]) : 400;
    { typedef boost::variant<int, double, std::string, char, bool, const char*, void*> V; Run<char, V> r; r.go("std", seed, n); }
    { typedef boost::variant<U<1>, int, U<2> > V; Run<char, V> r; r.go("user", seed, n); Run<wchar_t, V> w; w.go("user", seed, n); }
    { typedef boost::variant<U<1>, U<2> > V; Run<char, V> r; r.backup<U<1>, U<2> >("backup", seed, n / 4); Run<wchar_t, V> w; w.backup<U<2>, U<1> >("backup", seed, n / 4); }
    { typedef boost::variant<recursive_wrapper<U<1> >, std::string, recursive_wrapper<int> > V; Run<char, V> r; r.go("wrapped", seed, n); }
    { typedef boost::variant<boost::variant<boost::variant<U<1>, std::string>, U<2> >, int> V; Run<char, V> r; r.go("nested", seed, n); }
    { typedef boost::variant<int, double, std::wstring, bool, const wchar_t*> V; Run<wchar_t, V> r; r.go("wide", seed, n); }
    { typedef boost::variant<blank, int> V; Run<char, V> r; r.go("blank", seed, n); }
    { typedef boost::variant<U<1> > V; Run<char, V> r; r.go("single", seed, n); }
    finish(); return 0;
}
