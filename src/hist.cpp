// History driver for one bounded type list, chosen with -DLIST=n.
#include "engine.hpp"
using namespace eng;
using boost::recursive_wrapper; using boost::blank;
#ifndef LIST
#define LIST 1
#endif
// instrumented types: T<id, default, copy, move, pad>
typedef T<1,0,1,1> C1; typedef T<2,0,1,1,24> C2; typedef T<3,0,1,1> C3;        // copy and move may throw
typedef T<4,0,1,0> E1; typedef T<5,0,1,0,8> E2; typedef T<6,1,1,0> E3;         // no move, copy may throw
typedef T<7,0,2,2> A1; typedef T<8,0,2,0> A2;                                  // nothrow
typedef T<9,0,1,2> B1; typedef T<10,0,1,2,16> B2;                              // copy may throw, nothrow move
typedef T<11,0,2,1> D1; typedef T<12,0,2,1,8> D2;                              // nothrow copy, move may throw
typedef T<13,2,1,1> F1; typedef T<14,2,1,0> F2; typedef T<19,2,1,2,8> F3;      // nothrow default constructible
typedef T<15,1,1,1,8> G1;                                                      // default constructor may throw
typedef T<16,0,0,2> M1; typedef T<17,0,0,2,8> M2; typedef T<18,2,0,1> M3; typedef T<20,0,1,2> B3;  // move-only

#if LIST == 1
typedef Engine<boost::variant<C3, C1, C2>, C1, C2, C3> Eng; static const char* NAME = "L1<throwing copy+move, no fallback>";
#elif LIST == 2
typedef Engine<boost::variant<E2, E3, E1>, E1, E2, E3> Eng; static const char* NAME = "L2<throwing copy, no move, no fallback>";
#elif LIST == 3
typedef Engine<void, A1, B1, C1, D1, E1> Eng; static const char* NAME = "L3<mixed, no fallback>";
#elif LIST == 4
typedef Engine<boost::variant<blank, B1, E1, C1>, C1, E1, B1, blank> Eng; static const char* NAME = "L4<blank fallback last>";
#elif LIST == 5
typedef Engine<boost::variant<int, E1, C1>, C1, int, E1> Eng; static const char* NAME = "L5<int fallback>";
#elif LIST == 6
typedef Engine<void, C1, F1, blank, int, F2, D1> Eng; static const char* NAME = "L6<several fallbacks, blank preferred>";
#elif LIST == 7
typedef Engine<boost::variant<E1, C1, B1>, recursive_wrapper<C1>, E1, recursive_wrapper<B1> > Eng; static const char* NAME = "L7<wrapped, no fallback>";
#elif LIST == 8
typedef Engine<void, M1, M2, B3> Eng; static const char* NAME = "L8<move-only>";
#elif LIST == 9
typedef Engine<boost::variant<std::vector<int>, std::string, C1>, C1, std::string, std::vector<int> > Eng; static const char* NAME = "L9<std types>";
#elif LIST == 10
typedef Engine<void, E1, boost::variant<C2, E2>, C1> Eng; static const char* NAME = "L10<nested variant>";
#elif LIST == 11
typedef Engine<void, D1, D2, C1, E1> Eng; static const char* NAME = "L11<nothrow copy with throwing move>";
#elif LIST == 12
typedef Engine<boost::variant<B2, G1, B1>, G1, B1, B2> Eng; static const char* NAME = "L12<nothrow move, throwing default>";
#elif LIST == 13
typedef Engine<void, A1, A2, D1> Eng; static const char* NAME = "L13<all nothrow copy>";
#elif LIST == 14
typedef Engine<boost::variant<C1, recursive_wrapper<E1>, F2>, F2, recursive_wrapper<E1>, C1> Eng; static const char* NAME = "L14<wrapped, class fallback first>";
#elif LIST == 15
typedef Engine<void, C1, M3, C2> Eng; static const char* NAME = "L15<move-only fallback, throwing moves>";
#elif LIST == 16
typedef Engine<void, E1, std::vector<C1>, F3, B1> Eng; static const char* NAME = "L16<container content, class fallback>";
#elif LIST == 17
typedef Engine<void, C1> Eng; static const char* NAME = "L17<single type>";
#elif LIST == 18
typedef Engine<boost::variant<char, E1, C1, int>, E1, char, int, C1> Eng; static const char* NAME = "L18<char fallback>";
#endif

int main(int argc, char** argv) {
    std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], 0, 10) : 1;
    long pairs = argc > 2 ? std::atol(argv[2]) : 2000;
    long hist = argc > 3 ? std::atol(argv[3]) : 300;
    int pct = argc > 4 ? std::atoi(argv[4]) : 30;
    Eng* e = new Eng(NAME);
    if (pairs >= 0) e->systematic(seed, pairs);
    e->random(seed, hist, 40, pct);
    delete e;
    finish();
    return 0;
}
