// Controlled scheduler for WorkStream. Every task runs in a thread of its own,
// but only the thread that holds the baton runs; who gets it next is a choice
// of the exploration.
//
// Scheduling points: start and end of a task, the user callbacks, entry of
// the functions of the eigensolver library that keep state between calls,
// mutexes, and (instrumented builds) every call made from a function of
// namespace mfmg.
#ifndef VERIF_SCHEDULER_HPP
#define VERIF_SCHEDULER_HPP
#include <deal.II/base/work_stream.h>

#include "explore.hpp"

#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace sched
{
struct Policy
{
  int target = -1;      // which WorkStream::run is explored; -1: all
  int preemptions = 0;  // preemption bound
  int slices = 1;       // the first preemption happens at a point whose
  int slice = 0;        // number is slice modulo slices
  int repeats = 2;      // a call site is a point the first times per task
  int min_point = 0;    // (window of the first preemption)
  bool choose_slots = false; // else: uniform slots
  int uniform = -1;     // >= 0: a fixed schedule, no choices
  bool lazy_copy = false; // copies wait until all work is done
};

void set(ex::Run *run, Policy const &policy); // nullptr: off
// from the last set() on
int n_streams();
int n_points();
int n_switches();
int max_items();
void point(char const *what); // scheduling point, if in a controlled task
} // namespace sched
#endif
