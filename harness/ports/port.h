// Included before everything else: makes rtmlib's headers choose the code of
// another target, which is then compiled and executed on this machine.
//   -DPORT_HW       hardware synthesis
//   -DPORT_RISCV    RISC-V 64 (LP64, as here); with -D__NUTTX__, -D__rtems__ or
//                   -D__FREERTOS__ (their headers are stood in for, ports/)
//   -DPORT_ARM      32-bit ARM: pointers are kept in 32 bits, so what is shared
//                   has to be placed below 4 GB; times have 32 bits
// The system's own headers are read first, as they are for this machine.
#ifndef PORT_H
#define PORT_H
#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cfenv>
#include <cfloat>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cwchar>
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <future>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <queue>
#include <random>
#include <ratio>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <vector>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <string_view>
#include <variant>
#endif
#if __cplusplus >= 202002L
#include <bit>
#include <compare>
#include <concepts>
#include <numbers>
#include <span>
#endif
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>

#if defined(PORT_HW)
#define __HW__ 1
#elif defined(PORT_RISCV)
#undef __x86_64__
#undef __linux__
#define __riscv 1
#elif defined(PORT_ARM)
#undef __x86_64__
#undef __linux__
#define __arm__ 1
#define CORTEX_M4 1
#endif
#endif
