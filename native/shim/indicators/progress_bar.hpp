// Offline stand-in for p-ranav/indicators: same API surface as used, no terminal output.
#pragma once
#include <cstddef>
#include <iostream>
#include <mutex>
#include <string>
#include <vector>
namespace indicators {
enum class Color { grey, red, green, yellow, blue, magenta, cyan, white, unspecified };
enum class FontStyle { bold, dark, italic, underline, blink, reverse, concealed, crossed };
namespace option {
struct BarWidth { std::size_t v; explicit BarWidth(std::size_t x) : v(x) {} };
struct Start { std::string v; explicit Start(std::string x) : v(std::move(x)) {} };
struct End { std::string v; explicit End(std::string x) : v(std::move(x)) {} };
struct ForegroundColor { Color v; explicit ForegroundColor(Color x) : v(x) {} };
struct PrefixText { std::string v; explicit PrefixText(std::string x) : v(std::move(x)) {} };
struct PostfixText { std::string v; explicit PostfixText(std::string x) : v(std::move(x)) {} };
struct ShowElapsedTime { bool v; explicit ShowElapsedTime(bool x) : v(x) {} };
struct ShowRemainingTime { bool v; explicit ShowRemainingTime(bool x) : v(x) {} };
struct ShowPercentage { bool v; explicit ShowPercentage(bool x) : v(x) {} };
struct MaxProgress { std::size_t v; explicit MaxProgress(std::size_t x) : v(x) {} };
struct Stream { std::ostream& v; explicit Stream(std::ostream& x) : v(x) {} };
struct FontStyles { std::vector<FontStyle> v; explicit FontStyles(std::vector<FontStyle> x) : v(std::move(x)) {} };
}  // namespace option
class BlockProgressBar {
 public:
  template <typename... O>
  explicit BlockProgressBar(O&&...) {}
  void set_progress(std::size_t p) { std::lock_guard<std::mutex> g(m_); p_ = static_cast<float>(p); }
  void tick() { std::lock_guard<std::mutex> g(m_); p_ += 1; }
  void mark_as_completed() { std::lock_guard<std::mutex> g(m_); done_ = true; }
  bool is_completed() const { return done_; }
 private:
  std::mutex m_;
  float p_{0};
  bool done_{false};
};
using ProgressBar = BlockProgressBar;
inline void show_console_cursor(bool) {}
}  // namespace indicators
