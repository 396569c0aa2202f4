// Stand-in for the absent sync_prim submodule: thread identifiers are those of
// the scheduler.
#pragma once
#include "vp.h"
#ifndef VP_MAX_THREADS
#define VP_MAX_THREADS 4
#endif
namespace sync_prim {
inline int g_max_tid = 0;
inline int g_tid = -1;  // set while one thread stands in for another
class ThreadRegistry {
public:
  static constexpr int MAX_THREADS = VP_MAX_THREADS;
  static bool RegisterThread() { return true; }
  static void UnregisterThread() {}
  static int ThreadID() { return g_tid >= 0 ? g_tid : vp_tid(); }
  static int MaxThreadID() { return g_max_tid; }
};
} // namespace sync_prim
