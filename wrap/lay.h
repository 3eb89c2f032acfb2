// Layout probes: offsets of (private) members, read by the generator from the constants of the extracted module.
#pragma once
#include <cstddef>
#define LAY(name, T, f) extern "C" { __attribute__((used)) extern const unsigned long lay_##name = offsetof(T, f); }
#define LAYSIZE(name, T) extern "C" { __attribute__((used)) extern const unsigned long lay_##name = sizeof(T); }
