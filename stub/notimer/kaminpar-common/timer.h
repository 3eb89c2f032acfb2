// Extraction-only replacement of the timers: measuring running times is dropped from the verified text (see DESIGN.md).
#pragma once
#include <string>
#include <string_view>
#define SCOPED_TIMER(...) ((void)0)
#define START_TIMER(...) ((void)0)
#define STOP_TIMER(...) ((void)0)
#define ENABLE_TIMERS() ((void)0)
#define DISABLE_TIMERS() ((void)0)
#define TIMED_SCOPE(...) kaminpar::timer::UntimedScope{} + [&]
namespace kaminpar::timer { struct UntimedScope { template <typename F> decltype(auto) operator+(F &&f) { return f(); } }; }
