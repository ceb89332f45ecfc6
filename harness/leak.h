// Allocations made through operator new while Watch is in force, and not yet released.
#ifndef LEAK_H
#define LEAK_H
#include <cstddef>
namespace leak { extern bool on; struct Watch { Watch() { on=true; } ~Watch() { on=false; } }; size_t alive(); void forget(); void dump(); }
#endif
