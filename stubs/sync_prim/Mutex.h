// Stand-in for the absent sync_prim submodule: a mutual exclusion lock whose
// word the scheduler of the executor (or of the replay runtime) understands.
#pragma once
#include "vp.h"
namespace sync_prim::mutex {
class Mutex {
  uint32_t w = 0;

public:
  constexpr Mutex() = default;
  Mutex(const Mutex &) = delete;
  void lock() { vp_mutex_lock(&w); }
  bool try_lock() { return vp_mutex_trylock(&w); }
  void unlock() { vp_mutex_unlock(&w); }
  bool is_locked() const { return w != 0; }
};
} // namespace sync_prim::mutex
