#pragma once
#include "message_filters/subscriber.h"
namespace message_filters {
namespace sync_policies {
template <class A, class B>
struct ExactTime {
  typedef A First;
  typedef B Second;
  ExactTime(uint32_t queue_size);
};
}
}
