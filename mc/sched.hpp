// Controlled scheduler and happens-before monitor for code compiled with -fsanitize=thread (instrumentation only; the
// callbacks, the allocator wrappers and the synchronisation primitives of that code are the ones in sched.cpp).
//
// Logical threads are real threads that run one at a time. They hand over only in front of synchronisation
// operations (locks, once, atomics, OpenMP work sharing, barriers, start, end), which is enough for executions
// without data races; and a data race, i.e. two accesses to one byte, one of them a write, not ordered by
// happens-before, is itself reported. explore() enumerates all schedules by depth-first search with sleep sets, every
// one in a process of its own.
#pragma once
#include "mc.hpp"
#include <functional>

namespace sched {

enum { MAXT = 28 };

struct Stats { long schedules, redundant, decisions, accesses; bool complete; };

// team: threads that an OpenMP parallel region gets; one_each: every chunk of a work-sharing loop on a thread of its own
struct Options { int team = 1; bool one_each = false; long cap = 100000; };

// body(): runs in a fresh process with the monitor on; it uses spawn_all(), or code with OpenMP regions.
// It returns an empty string if what it computed is right.
Stats explore(mc::Ctx &c, const Options &o, std::function<std::string()> body);

// run the functions as concurrent logical threads and wait for all
void spawn_all(const std::vector<std::function<void()>> &fs);

}  // namespace sched
