// Monitor shared by all drivers: reporting protocol, fault injection, allocation tracking,
// registry of live content objects and instrumented bounded types.
//
// Observes only through the public API of Boost.Variant and through the bounded types it supplies.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <exception>
#include <functional>
#include <iosfwd>
#include <new>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace mon {

// ---------------------------------------------------------------- in_sut: are we inside a library call?
// Allocations made while true belong to the code under test (or to contents it handles).
#ifdef VERIF_THREADS
#define VERIF_TLS thread_local
#else
#define VERIF_TLS
#endif
inline bool& in_sut() { static VERIF_TLS bool b = false; return b; }
struct Outside { bool s; Outside() : s(in_sut()) { in_sut() = false; } ~Outside() { in_sut() = s; } };
struct Inside { bool s; Inside() : s(in_sut()) { in_sut() = true; } ~Inside() { in_sut() = s; } };

// ---------------------------------------------------------------- reporting
// stdout protocol:  V|props|key|detail   C|counter|n   S|sample   D|name|hash   E|ok
struct Case {            // description of the running case, kept in a shared mapping so that it survives a crash
    char* buf; size_t cap;
    Case() : buf(0), cap(4096) {
        const char* p = std::getenv("VERIF_CASEFILE");
        if (p) {
            int fd = ::open(p, O_RDWR | O_CREAT | O_TRUNC, 0600);
            if (fd >= 0 && ::ftruncate(fd, (off_t)cap) == 0) {
                void* m = ::mmap(0, cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (m != MAP_FAILED) buf = (char*)m;
            }
            if (fd >= 0) ::close(fd);
        }
        if (!buf) { static char local[4096]; buf = local; }
        buf[0] = 0;
    }
};
inline Case& the_case() { static Case c; return c; }
inline void set_case(const char* fmt, ...) {
    Case& c = the_case();
    va_list ap; va_start(ap, fmt);
    vsnprintf(c.buf, c.cap, fmt, ap);
    va_end(ap);
}
inline void add_case(const char* fmt, ...) {
    Case& c = the_case();
    size_t n = std::strlen(c.buf);
    va_list ap; va_start(ap, fmt);
    vsnprintf(c.buf + n, c.cap - n, fmt, ap);
    va_end(ap);
}

struct Counters { enum { N = 256 }; const char* name[N]; long v[N]; int n; Counters() : n(0) {} };
inline Counters& counters() { static Counters c; return c; }
inline void count(const char* name, long d = 1) {   // name must be a literal (compared by pointer, then text)
    Counters& c = counters();
    for (int i = 0; i < c.n; ++i) if (c.name[i] == name) { c.v[i] += d; return; }
    for (int i = 0; i < c.n; ++i) if (!std::strcmp(c.name[i], name)) { c.v[i] += d; return; }
    if (c.n < Counters::N) { c.name[c.n] = name; c.v[c.n] = d; ++c.n; }
}
inline long& viol_count() { static long n = 0; return n; }
inline bool& case_bad() { static bool b = false; return b; }  // a violation was seen in the running case
// extra property ids that follow from the situation of the running operation (set by the history engine)
inline bool& fault_ctx() { static VERIF_TLS bool b = false; return b; }   // the running operation was made to fail
inline std::string& ctx_cats() { static std::string s; return s; }
// cats: comma separated property ids this observation violates
inline void violation(const char* cats, const char* key, const char* fmt, ...) {
    Outside o;
    case_bad() = true;
    if (++viol_count() > 400) return;
    char d[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(d, sizeof d, fmt, ap); va_end(ap);
    for (char* p = d; *p; ++p) if (*p == '\n' || *p == '|') *p = ' ';
    char cs[1500]; snprintf(cs, sizeof cs, "%s", the_case().buf);
    for (char* p = cs; *p; ++p) if (*p == '\n' || *p == '|') *p = ' ';
    bool add = std::strstr(cats, "C01") || std::strstr(cats, "C02") || std::strstr(cats, "C04") || std::strstr(cats, "C05");
    std::printf("V|%s%s%s|%s|%s @ %s\n", cats, add ? ctx_cats().c_str() : "", add && fault_ctx() ? ",C02" : "", key, d, cs);
    std::fflush(stdout);
}
inline void sample(const char* fmt, ...) {
    static int n = 0;
    if (n++ >= 6) return;
    Outside o;
    char d[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(d, sizeof d, fmt, ap); va_end(ap);
    for (char* p = d; *p; ++p) if (*p == '\n' || *p == '|') *p = ' ';
    std::printf("S|%s\n", d);
}
struct Digest {
    std::uint64_t h; Digest() : h(1469598103934665603ull) {}
    void add(long x) { for (int i = 0; i < 8; ++i) { h ^= (unsigned char)((unsigned long)x >> (8 * i)); h *= 1099511628211ull; } }
};
inline Digest& digest() { static Digest d; return d; }

// set of 64-bit keys, to count distinct cases
struct KeySet {
    std::uint64_t* t; size_t cap, n; 
    KeySet() : cap(1 << 16), n(0) { t = (std::uint64_t*)std::calloc(cap, 8); }
    bool add(std::uint64_t k) {
        if (!k) k = 1;
        if (n * 2 > cap) grow();
        size_t i = (size_t)((k * 0x9E3779B97F4A7C15ull) >> 20) & (cap - 1);
        while (t[i]) { if (t[i] == k) return false; i = (i + 1) & (cap - 1); }
        t[i] = k; ++n; return true;
    }
    void grow() {
        std::uint64_t* o = t; size_t oc = cap; cap *= 2; n = 0; t = (std::uint64_t*)std::calloc(cap, 8);
        for (size_t i = 0; i < oc; ++i) if (o[i]) add(o[i]);
        std::free(o);
    }
};
inline KeySet& distinct() { static KeySet k; return k; }

inline void finish() {
    Outside o;
    Counters& c = counters();
    for (int i = 0; i < c.n; ++i) std::printf("C|%s|%ld\n", c.name[i], c.v[i]);
    std::printf("C|distinct|%ld\n", (long)distinct().n);
    std::printf("D|digest|%016llx\n", (unsigned long long)digest().h);
    std::printf("E|ok\n");
    std::fflush(stdout);
}

// ---------------------------------------------------------------- random
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    unsigned below(unsigned n) { return n ? (unsigned)((next() >> 33) % n) : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// ---------------------------------------------------------------- fault injection
struct Injected { long serial; };
struct Fault {
    bool on; long countdown; bool fired; long serial; bool was_alloc; long points; int late; bool allocs;   // late: 0 throw before the effect, 1 after it, 2 sticky: every later point of the operation throws as well
    Fault() : on(false), countdown(0), fired(false), serial(0), was_alloc(false), points(0), late(0), allocs(true) {}
};
inline Fault& fault() { static VERIF_TLS Fault f; return f; }
inline void arm(long countdown, int late = 0) {
    Fault& f = fault(); f.on = countdown > 0; f.countdown = countdown; f.fired = false; f.points = 0; f.late = late;
    fault_ctx() = false;
}
inline int& fault_sticky() { static VERIF_TLS int s = 0; return s; }
inline void disarm() { fault().on = false; }
inline bool hit() {            // true: this point has to throw
    Fault& f = fault();
    if (!f.on || !in_sut()) return false;
    ++f.points;
    if (--f.countdown > 0) return false;
    f.on = f.late == 2; f.fired = true; f.was_alloc = false; ++f.serial; fault_ctx() = true;
    return true;
}
#if defined(__cpp_exceptions) || defined(__EXCEPTIONS)
#define VERIF_THROW(x) throw x
inline void throw_injected() { Injected i; i.serial = fault().serial; throw i; }
#else                    // drivers built without exceptions inject no faults
#define VERIF_THROW(x) std::abort()
inline void throw_injected() { std::abort(); }
#endif
inline void point() { if (hit()) throw_injected(); }

// ---------------------------------------------------------------- allocations made by the code under test
struct Allocs {
    enum { CAP = 1 << 16 };
    void* p[CAP]; long live; long total;
    Allocs() : live(0), total(0) { std::memset(p, 0, sizeof p); }
    static size_t h(void* q) { return (size_t)(((std::uint64_t)(std::uintptr_t)q * 0x9E3779B97F4A7C15ull) >> 40) & (CAP - 1); }
    void add(void* q) {
        if (live * 2 > CAP) return;
        size_t i = h(q); while (p[i] && p[i] != (void*)1) i = (i + 1) & (CAP - 1);
        p[i] = q; ++live; ++total;
    }
    void del(void* q) {
        size_t i = h(q);
        while (p[i]) { if (p[i] == q) { p[i] = (void*)1; --live; return; } i = (i + 1) & (CAP - 1); }
    }
    bool has(void* q) { size_t i = h(q); while (p[i]) { if (p[i] == q) return true; i = (i + 1) & (CAP - 1); } return false; }
    void clear() { std::memset(p, 0, sizeof p); live = 0; }
};
inline Allocs& allocs() { static Allocs* a = new (std::malloc(sizeof(Allocs))) Allocs; return *a; }

// ---------------------------------------------------------------- registry of live content objects
struct Rec { const void* addr; std::uint32_t size; int tid; long id; };
struct Registry {
    enum { CAP = 1 << 14 };
    Rec* r; int n; long next_id; long constructed, destroyed;
    Registry() : n(0), next_id(1), constructed(0), destroyed(0) { r = (Rec*)std::malloc(sizeof(Rec) * CAP); }
    int lower(const void* a) const {
        int lo = 0, hi = n;
        while (lo < hi) { int m = (lo + hi) / 2; if ((std::uintptr_t)r[m].addr < (std::uintptr_t)a) lo = m + 1; else hi = m; }
        return lo;
    }
    Rec* find(const void* a, int tid) { int i = lower(a); return i < n && r[i].addr == a && r[i].tid == tid ? &r[i] : 0; }
    void born(const void* a, std::uint32_t size, int tid) {
        int i = lower(a);
        if (i < n && (std::uintptr_t)r[i].addr < (std::uintptr_t)a + size) {
            violation("C03,C19", "construct-over-live", "object of type %d constructed over live object of type %d", tid, r[i].tid);
            if (r[i].addr == a) { r[i].tid = tid; r[i].size = size; return; }
        }
        if (i > 0 && (std::uintptr_t)r[i - 1].addr + r[i - 1].size > (std::uintptr_t)a)
            violation("C03,C19", "construct-inside-live", "object of type %d constructed inside live object of type %d", tid, r[i - 1].tid);
        if (n >= CAP) return;
        std::memmove(r + i + 1, r + i, sizeof(Rec) * (size_t)(n - i));
        Rec x = { a, size, tid, next_id++ }; r[i] = x; ++n; ++constructed;
    }
    bool died(const void* a, int tid) {
        int i = lower(a);
        if (i < n && r[i].addr == a) {
            bool ok = r[i].tid == tid;
            if (!ok) violation("C03,C19", "destroy-wrong-type", "object of type %d destroyed as type %d", r[i].tid, tid);
            std::memmove(r + i, r + i + 1, sizeof(Rec) * (size_t)(n - i - 1)); --n; ++destroyed;
            return ok;
        }
        violation("C03,C19", "destroy-dead", "destructor of type %d run on storage that holds no such object", tid);
        return false;
    }
    void clear() { n = 0; }
};
inline Registry& reg() { static Registry r; return r; }

enum Special { MOVED = -7777777, DEAD = -6666666 };
struct Ev { long copies, moves, casg, masg, dflt, dtor, cmp; };
inline Ev& ev() { static Ev e = {0,0,0,0,0,0,0}; return e; }
// per type id: copy constructions/assignments while in the library (0..255)
inline long* type_copies() { static long c[512] = {0}; return c; }
inline long* type_births() { static long c[512] = {0}; return c; }      // constructions in the library, likewise

enum { MAGIC = 0x5AFEC0DE };

// Fields of every instrumented object. SZ: size of the complete object.
struct Fields {
    std::uint32_t magic; int tid; long val; const void* self;
    // is this really a live object of type tid at this address?
    bool valid(int t) const {
        return reg().find(this, t) != 0 && magic == MAGIC && tid == t && self == this;
    }
    void need(int t, const char* what) const {
        if (!valid(t)) violation("C01,C03,C19", "use-of-dead", "%s on storage that holds no live object of type %d", what, t);
    }
};

template <int N, int DF, std::size_t SZ> struct Core;

template <int N, std::size_t SZ> struct CoreBase : Fields {
    void birth(long v) { Outside o; magic = MAGIC; tid = N; val = v; self = this; reg().born(this, (std::uint32_t)SZ, N); }
    explicit CoreBase(long v) { birth(v); }
    ~CoreBase() {
        Outside o; ++ev().dtor;
        reg().died(this, N);
        magic = 0xDEADDEAD; val = DEAD; self = 0;
    }
    CoreBase(const CoreBase&) = delete;
    CoreBase& operator=(const CoreBase&) = delete;
protected:
    struct CopyTag {}; struct MoveTag {}; struct DefTag {};
    CoreBase(CopyTag, const CoreBase& o, bool may_throw) {
        o.need(N, "copy construction from");
        if (may_throw) point();
        ++ev().copies; if (in_sut()) { ++type_copies()[N & 511]; ++type_births()[N & 511]; }
        birth(o.val);
    }
    CoreBase(MoveTag, CoreBase& o, bool may_throw) {
        o.need(N, "move construction from");
        if (may_throw && hit()) { if (fault().late == 1) o.val = MOVED; throw_injected(); }
        ++ev().moves; if (in_sut()) ++type_births()[N & 511];
        birth(o.val); o.val = MOVED;
    }
    CoreBase(DefTag, bool may_throw) {
        if (may_throw) point();
        ++ev().dflt; birth(0);
    }
public:
    void cassign(const CoreBase& o, bool may_throw) {
        this->need(N, "copy assignment to"); o.need(N, "copy assignment from");
        ++ev().casg; if (in_sut()) ++type_copies()[N & 511];
        if (may_throw && hit()) { if (fault().late == 1) val = o.val; throw_injected(); }
        val = o.val;
    }
    void massign(CoreBase& o, bool may_throw) {
        this->need(N, "move assignment to"); o.need(N, "move assignment from");
        ++ev().masg;
        if (may_throw && hit()) { if (fault().late == 1) { val = o.val; if (&o != this) o.val = MOVED; } throw_injected(); }
        if (&o != this) { val = o.val; o.val = MOVED; }
    }
    long get() const { this->need(N, "read of"); return val; }
};
template <int N, std::size_t SZ> struct Core<N, 0, SZ> : CoreBase<N, SZ> {
    typedef CoreBase<N, SZ> B; explicit Core(long v) : B(v) {}
    Core(typename B::CopyTag t, const B& o, bool m) : B(t, o, m) {}
    Core(typename B::MoveTag t, B& o, bool m) : B(t, o, m) {}
};
template <int N, std::size_t SZ> struct Core<N, 1, SZ> : CoreBase<N, SZ> {
    typedef CoreBase<N, SZ> B; explicit Core(long v) : B(v) {}
    Core() : B(typename B::DefTag(), true) {}
    Core(typename B::CopyTag t, const B& o, bool m) : B(t, o, m) {}
    Core(typename B::MoveTag t, B& o, bool m) : B(t, o, m) {}
};
template <int N, std::size_t SZ> struct Core<N, 2, SZ> : CoreBase<N, SZ> {
    typedef CoreBase<N, SZ> B; explicit Core(long v) : B(v) {}
    Core() noexcept : B(typename B::DefTag(), false) {}
    Core(typename B::CopyTag t, const B& o, bool m) : B(t, o, m) {}
    Core(typename B::MoveTag t, B& o, bool m) : B(t, o, m) {}
};

// T<N,DF,CP,MV,PAD>: N type id; DF default constructor 0 none 1 may throw 2 nothrow;
// CP copy 0 deleted 1 may throw 2 nothrow; MV move 0 not declared 1 may throw 2 nothrow. Assignment follows.
template <int N, int DF, int CP, int MV, int PAD = 0> struct T;
#ifdef VERIF_AMP      // contents with an overloaded address-of operator that leads to a decoy
inline void* amp_decoy() { static long d[64]; return d; }
#define VERIF_T_AMP T* operator&() { return (T*)amp_decoy(); } const T* operator&() const { return (const T*)amp_decoy(); }
#else
#define VERIF_T_AMP
#endif
#define VERIF_T_COMMON(CPV, MVV) \
    enum { tid = N, dflt = DF, cp = CPV, mv = MVV }; \
    typedef Core<N, DF, sizeof(Fields) + PAD> B; \
    unsigned char pad[PAD]; \
    void fill() { for (int i = 0; i < PAD; ++i) pad[i] = (unsigned char)(i * 7 + N); } \
    bool pad_ok() const { for (int i = 0; i < PAD; ++i) if (pad[i] != (unsigned char)(i * 7 + N)) return false; return true; } \
    explicit T(long v) : B(v) { fill(); } VERIF_T_AMP
#define VERIF_T_COPY(NX) \
    T(const T& o) noexcept(NX) : B(typename B::B::CopyTag(), o, !(NX)) { fill(); } \
    T& operator=(const T& o) noexcept(NX) { this->cassign(o, !(NX)); return *this; }
#define VERIF_T_MOVE(NX) \
    T(T&& o) noexcept(NX) : B(typename B::B::MoveTag(), o, !(NX)) { fill(); } \
    T& operator=(T&& o) noexcept(NX) { this->massign(o, !(NX)); return *this; }
#define VERIF_T_DELETED T(const T&) = delete; T& operator=(const T&) = delete;
#define VERIF_T_DEF(CPV, MVV, BODY) \
    template <int N, int DF, int PAD> struct T<N, DF, CPV, MVV, PAD> : Core<N, DF, sizeof(Fields) + PAD> { \
        VERIF_T_COMMON(CPV, MVV) BODY }; \
    template <int N, int PAD> struct T<N, 1, CPV, MVV, PAD> : Core<N, 1, sizeof(Fields) + PAD> { \
        enum { DF = 1 }; VERIF_T_COMMON(CPV, MVV) T() { fill(); } BODY }; \
    template <int N, int PAD> struct T<N, 2, CPV, MVV, PAD> : Core<N, 2, sizeof(Fields) + PAD> { \
        enum { DF = 2 }; VERIF_T_COMMON(CPV, MVV) T() noexcept { fill(); } BODY };
#if defined(__GNUC__)
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wpedantic"
#endif
VERIF_T_DEF(1, 0, VERIF_T_COPY(false))
VERIF_T_DEF(2, 0, VERIF_T_COPY(true))
VERIF_T_DEF(1, 1, VERIF_T_COPY(false) VERIF_T_MOVE(false))
VERIF_T_DEF(1, 2, VERIF_T_COPY(false) VERIF_T_MOVE(true))
VERIF_T_DEF(2, 1, VERIF_T_COPY(true) VERIF_T_MOVE(false))
VERIF_T_DEF(2, 2, VERIF_T_COPY(true) VERIF_T_MOVE(true))
VERIF_T_DEF(0, 2, VERIF_T_DELETED VERIF_T_MOVE(true))
VERIF_T_DEF(0, 1, VERIF_T_DELETED VERIF_T_MOVE(false))
#if defined(__GNUC__)
#pragma GCC diagnostic pop
#endif

template <int N, int DF, int CP, int MV, int PAD>
bool operator==(const T<N,DF,CP,MV,PAD>& a, const T<N,DF,CP,MV,PAD>& b) { ++ev().cmp; point(); return a.get() == b.get(); }
template <int N, int DF, int CP, int MV, int PAD>
bool operator<(const T<N,DF,CP,MV,PAD>& a, const T<N,DF,CP,MV,PAD>& b) { ++ev().cmp; point(); return a.get() < b.get(); }
template <int N, int DF, int CP, int MV, int PAD>
std::size_t hash_value(const T<N,DF,CP,MV,PAD>& a) { point(); return (std::size_t)a.get(); }
template <class Ch, class Tr, int N, int DF, int CP, int MV, int PAD>
std::basic_ostream<Ch, Tr>& operator<<(std::basic_ostream<Ch, Tr>& o, const T<N,DF,CP,MV,PAD>& a) { point(); return o << a.get(); }

} // namespace mon

// ---------------------------------------------------------------- global allocation functions
#if defined(VERIF_ALLOC) && !defined(VERIF_NO_ALLOC_HOOK)
namespace mon {
inline void* do_new(std::size_t n, std::size_t al) {
    if (in_sut() && fault().allocs && hit()) { fault().was_alloc = true; VERIF_THROW(std::bad_alloc()); }
    void* p = 0;
    if (al <= alignof(std::max_align_t)) p = std::malloc(n ? n : 1);
    else if (posix_memalign(&p, al, n ? n : 1)) p = 0;
    if (!p) VERIF_THROW(std::bad_alloc());
#ifndef VERIF_NOFILL
    std::memset(p, 0xA5, n);
#endif
    if (in_sut()) allocs().add(p);
    return p;
}
inline void do_delete(void* p) { if (p) { allocs().del(p); std::free(p); } }
}
void* operator new(std::size_t n) { return mon::do_new(n, 1); }
void* operator new[](std::size_t n) { return mon::do_new(n, 1); }
#if defined(__cpp_exceptions) || defined(__EXCEPTIONS)
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return mon::do_new(n, 1); } catch (...) { return 0; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return mon::do_new(n, 1); } catch (...) { return 0; } }
#endif
void operator delete(void* p, const std::nothrow_t&) noexcept { mon::do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mon::do_delete(p); }
void operator delete(void* p) noexcept { mon::do_delete(p); }
void operator delete[](void* p) noexcept { mon::do_delete(p); }
void operator delete(void* p, std::size_t) noexcept { mon::do_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { mon::do_delete(p); }
#if __cplusplus >= 201703L
void* operator new(std::size_t n, std::align_val_t a) { return mon::do_new(n, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a) { return mon::do_new(n, (std::size_t)a); }
void operator delete(void* p, std::align_val_t) noexcept { mon::do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mon::do_delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { mon::do_delete(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { mon::do_delete(p); }
#endif
#endif

#endif
