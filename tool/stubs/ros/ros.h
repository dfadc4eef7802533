// Declarations of the ROS 1 interface used by ROS/drift, for parsing only.
#pragma once
#include <boost/function.hpp>
#include <boost/shared_ptr.hpp>
#include <array>
#include <cstdint>
#include <string>
#include <vector>

namespace ros {
class Duration {
 public:
  Duration();
  explicit Duration(double t);
  double toSec() const;
  bool sleep() const;
  int32_t sec, nsec;
};
class Time {
 public:
  Time();
  explicit Time(double t);
  Time(uint32_t sec, uint32_t nsec);
  double toSec() const;
  uint64_t toNSec() const;
  Time& fromSec(double t);
  static Time now();
  bool isZero() const;
  Duration operator-(const Time& rhs) const;
  bool operator<(const Time& rhs) const;
  bool operator>(const Time& rhs) const;
  bool operator==(const Time& rhs) const;
  uint32_t sec = 0, nsec = 0;
};
class Rate {
 public:
  Rate(double frequency);
  bool sleep();
};
class Publisher {
 public:
  template <class M>
  void publish(const M& message) const;
  uint32_t getNumSubscribers() const;
};
class Subscriber {
 public:
  void shutdown();
};
class TransportHints {
 public:
  TransportHints& tcpNoDelay(bool b = true);
};
class NodeHandle {
 public:
  NodeHandle(const std::string& ns = std::string());
  template <class M>
  Publisher advertise(const std::string& topic, uint32_t queue_size, bool latch = false);
  template <class M>
  Subscriber subscribe(const std::string& topic, uint32_t queue_size,
                       const boost::function<void(const boost::shared_ptr<M const>&)>& callback);
  template <class T>
  bool getParam(const std::string& key, T& value) const;
  template <class T>
  void param(const std::string& key, T& value, const T& dflt) const;
};
class AsyncSpinner {
 public:
  explicit AsyncSpinner(uint32_t threads);
  void start();
  void stop();
};
class MultiThreadedSpinner {
 public:
  MultiThreadedSpinner(uint32_t threads = 0);
  void spin();
};
void init(int& argc, char** argv, const std::string& name, uint32_t options = 0);
bool ok();
void spin();
void spinOnce();
void shutdown();
void waitForShutdown();
}    // namespace ros

#define ROS_INFO_STREAM(x) ((void) 0)
#define ROS_WARN_STREAM(x) ((void) 0)
#define ROS_ERROR_STREAM(x) ((void) 0)
#define ROS_INFO(...) ((void) 0)
#define ROS_WARN(...) ((void) 0)
#define ROS_ERROR(...) ((void) 0)
#define ROS_WARN_THROTTLE(...) ((void) 0)
#define ROS_WARN_STREAM_THROTTLE(p, x) ((void) 0)
#define ROS_ERROR_THROTTLE(...) ((void) 0)
