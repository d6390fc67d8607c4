// Controlled-scheduler runtime: the code under test is compiled with the compiler's
// thread-sanitizer instrumentation, but linked against this runtime instead of libtsan.
// Only one thread runs at a time; at every synchronisation operation the runtime
// decides which enabled thread continues, following a given prefix of decisions and
// then a default policy, and records all decisions taken.  Every instrumented memory
// access is checked for happens-before races with vector clocks.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cstdint>
#include <cstddef>
namespace mc {
constexpr int MAXD = 20000, MAXT = 32;
struct Decision { uint8_t chosen, cur; uint8_t cur_enabled; uint8_t kind; uint32_t enabled; };
enum Policy { CONTINUE = 0, LAST_CREATED = 1, ROUND_ROBIN = 2 };
struct Shared {
  int prefix_len; uint8_t prefix[MAXD];
  int policy; int detect;          // detect: 1 = look for races
  int nd; Decision d[MAXD];
  int race, deadlock, diverged, finished, toomany;
  uint64_t accesses, syncs, threads;
  char msg[1024];
  int has_result; uint64_t result; char text[4096];
};
void begin(Shared*);     // the calling thread becomes thread 0; control starts
void end();
void point(int kind = 9);     // a scheduling point of the harness's own
bool active();
void touch(void* p, size_t n, bool write);   // record an access by hand
void ignore(const void* p, size_t n);        // no races are reported there (objects of the harness, synchronised standard streams)
}
#endif
