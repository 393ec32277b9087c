// The race detector's interface (defined by tsan_rt.cc in the mc flavour only).
#pragma once
#include <string>
namespace mcrt {
extern void (*hb_report)(const std::string &) __attribute__((weak));
bool hb_quiet(bool q) __attribute__((weak));  // accesses of the current fibre are not watched; returns the old setting
std::string hb_where() __attribute__((weak));
void hb_begin() __attribute__((weak));  // accesses are recorded from here on
void hb_end() __attribute__((weak));
// the harness's own code is not watched, the code under test is
struct Watch {
    bool old = true;
    explicit Watch(bool on) {
        if (hb_quiet) old = hb_quiet(!on);
    }
    ~Watch() {
        if (hb_quiet) hb_quiet(old);
    }
    Watch(const Watch &) = delete;
};
}  // namespace mcrt
