// Offline stand-in for {fmt}: the subset chunker.cpp uses, on top of std::format.
#pragma once
#include <format>
#include <string>
#include <utility>
namespace fmt {
template <typename... A>
std::string format(std::format_string<A...> f, A&&... a) { return std::format(f, std::forward<A>(a)...); }
template <typename... A>
std::string vformat_rt(const std::string& f, A&&... a) { return std::vformat(f, std::make_format_args(a...)); }
}  // namespace fmt
