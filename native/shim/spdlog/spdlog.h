// Offline stand-in for spdlog: thread-safe, silent unless VERIF_SPDLOG is set.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <format>
#include <mutex>
#include <string>
namespace spdlog {
namespace vshim {
inline std::mutex& mtx() { static std::mutex m; return m; }
inline void emit(const char* lvl, const std::string& s) {
  static const bool on = std::getenv("VERIF_SPDLOG") != nullptr;
  if (!on) return;
  std::lock_guard<std::mutex> g(mtx());
  std::fprintf(stderr, "[%s] %s\n", lvl, s.c_str());
}
}  // namespace vshim
#define VSHIM_LVL(name)                                                                                   \
  inline void name(const std::string& s) { vshim::emit(#name, s); }                                       \
  inline void name(const char* s) { vshim::emit(#name, s); }                                              \
  template <typename A0, typename... A>                                                                   \
  void name(std::format_string<A0, A...> f, A0&& a0, A&&... a) {                                          \
    vshim::emit(#name, std::format(f, std::forward<A0>(a0), std::forward<A>(a)...));                      \
  }
VSHIM_LVL(trace) VSHIM_LVL(debug) VSHIM_LVL(info) VSHIM_LVL(warn) VSHIM_LVL(error) VSHIM_LVL(critical)
#undef VSHIM_LVL
inline void set_pattern(const std::string&) {}
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
inline void set_level(level::level_enum) {}
}  // namespace spdlog
