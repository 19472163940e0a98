// Stand-in used only for the symbolic encoding: rofl's logging macros need
// boost::filesystem::path(__FILE__).filename().string(), whose result is only
// printed.  Native replays are built against the real boost.
#pragma once
#include <string>
namespace boost { namespace filesystem {
struct path {
  path(const char*) {}
  path filename() const { return path(""); }
  std::string string() const { return std::string(); }
};
} }
