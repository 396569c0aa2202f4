// Has the maps of the harness hand back retired memory as soon as their epoch
// manager allows it, instead of once 1000 objects are waiting.
#pragma once
#define EpochManager EpochManagerAt
#include <indexes/utils/EpochManager.h>
#undef EpochManager
namespace indexes::utils {
template <class Epoch, class T, int Threshold = 1, class E = void>
class EpochManager : public EpochManagerAt<Epoch, T, 1, E> {
  using Base = EpochManagerAt<Epoch, T, 1, E>;
  bool waiting[ThreadRegistry::MAX_THREADS] = {};

public:
  template <class O> void retire_in_new_epoch(std::function<void(T *)> f, O &&o) {
    Base::retire_in_new_epoch(f, std::forward<O>(o));
    waiting[ThreadRegistry::ThreadID()] = true;
  }
  template <class O> void retire_in_current_epoch(std::function<void(T *)> f, O &&o) {
    Base::retire_in_current_epoch(f, std::forward<O>(o));
    waiting[ThreadRegistry::ThreadID()] = true;
  }
  void exit_epoch() {
    Base::exit_epoch();
    bool &w = waiting[ThreadRegistry::ThreadID()];
    if (w) w = Base::do_reclaim() > 0;
  }
};
} // namespace indexes::utils
