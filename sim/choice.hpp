// One stream of choices drives everything that may vary in a simulated run.
//
// While exploring, the values come from a PRNG seeded from the run's seed and are recorded.
// While replaying or minimising, they come from a given list (0 once the list is used up), so
// a replay file does not depend on the PRNG.  Choice 0 is always the simplest alternative.
#pragma once
#include <cstdint>
#include <cstddef>

namespace sim
{

inline uint64_t
mix64(uint64_t z)
{
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

struct Choices {
  static constexpr uint32_t cap = 1U << 15;
  uint64_t state;     // PRNG state (exploring)
  uint32_t replaying; // take values from given[]
  uint32_t ngiven;
  uint32_t n; // number of choices made so far (recorded in made[])
  uint32_t overflow;
  uint32_t given[cap];
  uint32_t made[cap];

  void
  startRandom(uint64_t seed)
  {
    state = mix64(seed ^ 0xD1B54A32D192ED03ULL);
    replaying = 0;
    ngiven = 0;
    n = 0;
    overflow = 0;
  }

  void
  startReplay(uint32_t const * v, uint32_t k)
  {
    replaying = 1;
    ngiven = k < cap ? k : cap;
    for (uint32_t i = 0; i < ngiven; ++i) {
      given[i] = v[i];
    }
    n = 0;
    overflow = 0;
  }

  // A value in [0, m).
  uint32_t
  pick(uint32_t m)
  {
    if (m <= 1) {
      return 0;
    }
    uint32_t v = 0;
    if (replaying != 0) {
      v = n < ngiven ? given[n] % m : 0;
    } else {
      state += 0x9E3779B97F4A7C15ULL;
      v = static_cast<uint32_t>((mix64(state) >> 32) % m);
    }
    if (n < cap) {
      made[n] = v;
      ++n;
    } else {
      overflow = 1;
      return 0;
    }
    return v;
  }
};

} // namespace sim
