// stands in for CMSIS and for the tick of the target: a counter that runs down
// once per millisecond, driven by the clock of the harness
#pragma once
static uint64_t g_system_timer; // milliseconds
struct SysTick_t {
  struct Counter {
    operator uint32_t() const {
      struct timespec n;
      clock_gettime(CLOCK_REALTIME, &n);
      g_system_timer = n.tv_sec * 1000ull + n.tv_nsec / 1000000;
      return 1000000 - n.tv_nsec % 1000000;
    }
  } VAL;
  uint32_t LOAD;
};
static SysTick_t systick_ = {{}, 1000000};
#define SysTick (&systick_)
#define __NOP() ((void)0)
