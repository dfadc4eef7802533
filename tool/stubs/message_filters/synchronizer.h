#pragma once
#include "message_filters/subscriber.h"
namespace message_filters {
template <class Policy>
class Synchronizer {
 public:
  template <class F0, class F1>
  Synchronizer(const Policy& policy, F0& f0, F1& f1);
  void registerCallback(const boost::function<void(const boost::shared_ptr<typename Policy::First const>&,
                                                   const boost::shared_ptr<typename Policy::Second const>&)>& callback);
};
}
