#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <cstddef>
namespace sch {
static const int MAXT = 4;
struct Decision { int nopt, chosen; bool free; };
static const int MAXD = 4096;
extern Decision trail[MAXD]; extern int ntrail;       // decisions of the last run
void begin(int nthreads, const int* prefix, int nprefix, unsigned seed, int randomPercent);
void start();                             // let the threads run; returns when all have left
void enter(int t); void leave(); void yield();
void inLib(bool on);                      // the calling thread is inside the code under test
const char* allocProblem(); size_t liveBlocks(); void resetAlloc();
}
#endif
