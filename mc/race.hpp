// the part of P11 shared by the scheduler and the explored programs
#pragma once
#include "mc.hpp"

#include "fast_positive/tuples.h"
#include "fast_positive/tuples/1Hippeus/buffer.h"
#include <new>
#include <ucontext.h>

namespace race {
enum { SLOTS = 24, SLOT = 2048, MAXT = 3, STACK = 64 * 1024 };
struct Meta {
  bool live, freed;
  uint32_t bytes;
};
extern Meta meta[SLOTS];
extern int nthreads, current; // -1: no scheduling
extern unsigned preemptions_left;
extern mc::Chooser *chooser;
extern uint64_t points;
hippeus::buffer_tag tag();
void start(int i, void (*body)(int)); // makes a thread
void run(int first);                  // until all of them finish
} // namespace race
