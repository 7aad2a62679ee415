// Stand-in for pybind11 in the simulator: the only thing the solver uses is
// pybind11::print, which becomes the console seam of the simulated system.
#pragma once
#include <exception>
#include <string>
#include <sstream>

namespace sim {
void console_event(double v);
void console_event(const std::string &s);
} // namespace sim

namespace pybind11 {

struct error_already_set : std::exception {
  const char *what() const noexcept override { return "console: KeyboardInterrupt"; }
};

namespace detail {
inline void out(double v) { sim::console_event(v); }
inline void out(int v) { sim::console_event(double(v)); }
inline void out(long v) { sim::console_event(double(v)); }
inline void out(unsigned v) { sim::console_event(double(v)); }
inline void out(unsigned long v) { sim::console_event(double(v)); }
inline void out(float v) { sim::console_event(double(v)); }
inline void out(const char *v) { sim::console_event(std::string(v)); }
inline void out(const std::string &v) { sim::console_event(v); }
} // namespace detail

template <class... A> void print(A &&... a) { (detail::out(a), ...); }

} // namespace pybind11
