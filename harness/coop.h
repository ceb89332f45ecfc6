// Deterministic cooperative scheduler for conformance drivers.
//
// The library's threads, mutexes, condition variables and clock all reach
// libpthread through the PLT; this file's definitions interpose them.  While a
// scenario runs exactly one controlled thread executes at a time, every
// blocking operation and lock is a scheduling point decided by a seeded
// strategy, and time is virtual: it advances only when the scheduler says so
// (to the next deadline when everybody is blocked, or occasionally early).
#ifndef VH_SCHED_H
#define VH_SCHED_H
#include <functional>
#include <string>
#include <stdint.h>
namespace sched {
struct Opts {
    uint64_t seed;
    int strategy;       // 0 uniform, 1 sticky, 2 priorities with change points, 3 round robin
    int early;          // per mille of scheduling points at which time passes early
    long step;          // ns added by an early tick
    int fine;           // mean number of memory accesses between preemptions, 0: none
    Opts() : seed(1), strategy(0), early(0), step(1000000), fine(0) {}
};
// hooks (called with the baton held)
extern std::function<void(int64_t now, bool idle)> onTick;   // virtual time advanced
extern std::function<void(const std::string&)> onDeadlock;   // nobody can ever run: must not return
void begin(const Opts&);   // caller becomes a controlled thread (id 0)
void end();                // back to free running; every other controlled thread must have ended
void point();              // explicit scheduling point
void sleep(int64_t ns);    // virtual sleep
int64_t now();             // virtual ns since begin()
int self();                // id of the calling controlled thread
int spawn(const std::function<void()>&);   // new controlled thread
void join(int);
bool alone();              // every other controlled thread has ended
size_t points();
// Preemption inside the library (flavor fine): its instrumented memory accesses
// become scheduling points, on average one in every `fine` of them (Opts).  On
// in the library's own threads; the driver's threads say where they are in it.
struct Lib { bool was; Lib(); ~Lib(); };       // in the library
struct Own { bool was; Own(); ~Own(); };       // back in the driver (callbacks)
size_t preempted();
}
#endif
