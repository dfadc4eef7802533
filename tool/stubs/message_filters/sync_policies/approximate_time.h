#pragma once
#include "message_filters/subscriber.h"
namespace message_filters {
namespace sync_policies {
template <class A, class B>
struct ApproximateTime {
  typedef A First;
  typedef B Second;
  ApproximateTime(uint32_t queue_size);
};
}
}
