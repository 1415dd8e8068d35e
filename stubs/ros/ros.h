// Stand-in for the few ROS types that curves_ros uses.
#pragma once
#include <cmath>
#include <cstdint>
#include <iostream>
namespace ros {
struct Duration {
  int32_t sec = 0, nsec = 0;
  Duration() {}
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) {}
  explicit Duration(double t) : sec(static_cast<int32_t>(std::floor(t))), nsec(static_cast<int32_t>(std::lround((t - std::floor(t)) * 1e9))) {}
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000ll + nsec; }
};
}
#define ROS_ERROR(...) do {} while (0)
#define ROS_WARN(...) do {} while (0)
#define ROS_INFO(...) do {} while (0)
#define ROS_DEBUG(...) do {} while (0)
#define ROS_ERROR_STREAM(x) do { std::cerr << x << std::endl; } while (0)
#define ROS_WARN_STREAM(x) do { std::cerr << x << std::endl; } while (0)
#define ROS_INFO_STREAM(x) do { std::cerr << x << std::endl; } while (0)
#define ROS_DEBUG_STREAM(x) do { std::cerr << x << std::endl; } while (0)
