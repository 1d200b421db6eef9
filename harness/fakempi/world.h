// A world of ranks under a controlled scheduler.
//
// run(r, n, body) forks n ranks.  Each rank blocks in every message-passing
// call until the router grants it; the router waits until every living rank
// is blocked, then picks one of the calls that can complete, so an execution
// is one interleaving chosen by the seed.  Rank speeds differ from case to
// case; sends either complete at once or only when the message is received.
#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H
#include "../mon.h"
namespace world {
struct Entry { int rank; std::string what; long a, b; }; // one observation, in global order
struct Result {
    std::vector<Entry> log;
    bool completed = false;  // every rank came back from its body
    unsigned long messages = 0, calls = 0, choices = 0;
    mon::u64 schedule = 0;
};
// what a rank reports; order in the log is the order of execution
void note(const char* what, long a = 0, long b = 0);
int rank();
int size();
Result run(mon::Rand& r, int n, const std::function<void()>& body);
}
#endif
