// Controlled scheduler for real threads: one thread runs at a time, every
// memory access of the code under test is seen (compiler instrumentation of
// -fsanitize=thread with this runtime in place of the sanitizer's), happens-before
// is tracked with vector clocks, and context switches are made only where the
// explorer decides: in front of synchronisation and of accesses to memory that
// another thread also uses with at least one write.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sched {
constexpr int kThreads = 3, kPoints = 4096, kConflicts = 256;
struct Report {
  int points;                      // scheduling points met
  unsigned char options[kPoints];  // enabled threads there
  unsigned char taken[kPoints];
  unsigned char forced[kPoints];   // the running thread could not continue
  int overflow;
  int deadlock;
  int races;
  char race[300];
  int nconf;
  uintptr_t conf[kConflicts];      // granules with conflicting accesses
  uint64_t accesses, foreign, syncs, switches;
};
void prepare();  // once, before forking
// runs body(0..n-1) in n threads; choices[] are the decisions at the first
// scheduling points (0 = keep running)
void run(int n, void (*body)(int), const unsigned char *choices, int nchoices, const uintptr_t *conf, int nconf, Report *r);
}  // namespace sched
