// Stand-in for the header-only progress-bar library `indicators` (not installed here).
// It only renders a progress bar; no result depends on it.
#pragma once
#include <cstddef>
#include <ostream>
#include <iostream>
#include <vector>
namespace indicators {
enum class Color { grey, red, green, yellow, blue, magenta, cyan, white, unspecified };
enum class FontStyle { bold, dark, italic, underline, blink, reverse, concealed, crossed };
namespace option {
struct Any { template <class... A> Any(A&&...) {} };
using ShowElapsedTime = Any; using ShowRemainingTime = Any; using BarWidth = Any; using Start = Any; using End = Any; using PrefixText = Any;
using ForegroundColor = Any; using MaxProgress = Any; using Stream = Any; using FontStyles = Any;
}  // namespace option
struct BlockProgressBar {
  template <class... A> explicit BlockProgressBar(A&&...) {}
  void set_progress(std::size_t) {}
  void tick() {}
  void mark_as_completed() {}
};
inline void show_console_cursor(bool) {}
}  // namespace indicators
