// Helpers shared by the direct (non-history) drivers.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#ifndef VERIF_NO_ALLOC_HOOK
#ifndef VERIF_ALLOC
#define VERIF_ALLOC
#endif
#endif
#include "mon.hpp"
#include <boost/variant.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <tuple>

using namespace mon;
using boost::recursive_wrapper; using boost::blank;

#define CHECK(cats, cond, key, ...) do { mon::count("evaluations"); if (!(cond)) mon::violation(cats, key, __VA_ARGS__); } while (0)
#define SAME(...) (std::is_same<__VA_ARGS__>::value)

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); return a * 0xff51afd7ed558ccdull; }
inline std::uint64_t shash(const char* s) { std::uint64_t h = 14695981039346656037ull; for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; } return h; }
template <class... A> std::uint64_t key(const char* s, A... a) { std::uint64_t h = shash(s); std::uint64_t v[] = { (std::uint64_t)a..., 0 }; for (unsigned i = 0; i < sizeof...(A); ++i) h = mix(h, v[i]); return h; }
template <class... A> void seen(const char* s, A... a) { distinct().add(key(s, a...)); }

template <int I, class... Ts> struct NthT;
template <class A, class... R> struct NthT<0, A, R...> { typedef A type; };
template <int I, class A, class... R> struct NthT<I, A, R...> { typedef typename NthT<I - 1, R...>::type type; };
template <class U> struct Unwrap { typedef U type; enum { wrapped = 0 }; };
template <class U> struct Unwrap<boost::recursive_wrapper<U> > { typedef U type; enum { wrapped = 1 }; };
template <class U, class... Ts> struct IndexOf;
template <class U> struct IndexOf<U> { enum { value = -1 }; };
template <class U, class A, class... R> struct IndexOf<U, A, R...> {
    enum { rest = IndexOf<U, R...>::value, value = std::is_same<U, typename Unwrap<A>::type>::value ? 0 : (int)rest < 0 ? -1 : (int)rest + 1 };
};

struct AddrVis : boost::static_visitor<const void*> {
    template <class U> const void* operator()(const U& x) const { return (const void*)&reinterpret_cast<const char&>(x); }
};
template <class V> const void* content_addr(const V& v) { AddrVis a; return boost::apply_visitor(a, v); }
template <class V> bool is_outside(const V& v) {
    std::uintptr_t a = (std::uintptr_t)content_addr(v), b = (std::uintptr_t)&reinterpret_cast<const char&>(v);
    return a < b || a >= b + sizeof(V);
}
#if defined(__cpp_exceptions) || defined(__EXCEPTIONS)
// put v (which holds A(val)) into the state a failed assignment leaves when the value is kept on the heap; false if the library never uses that state here
template <class A, class V, class B> bool into_backup(V& v, long val, const B& b) {
    for (long n = 1; n <= 6; ++n) {
        v = A(val);
        bool threw = false;
        { Inside in; arm(n); try { v = b; } catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } disarm(); }
        fault().fired = false; fault_ctx() = false;
        if (!threw) break;
        if (boost::get<A>(&v) && is_outside(v)) { count("backup_states"); return true; }
    }
    v = A(val);
    return false;
}
#endif
#endif
