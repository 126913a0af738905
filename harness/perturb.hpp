// Schedule perturbation: delays around the synchronisation calls of the code
// under test, and spurious wake-ups. Everything injected here is something the
// operating system is allowed to do by itself.
#pragma once
#include <atomic>
#include <cstdint>

namespace vf {
struct Perturb {
    std::atomic<int> level{0};            // 0: off
    std::atomic<int> spurious{0};         // per mille of the waits that return at once
    std::atomic<uint64_t> seed{1};
    std::atomic<uint64_t> locks{0}, waits{0}, spurious_wakeups{0}, notifies{0}, delays{0}, creates{0};
};
Perturb &perturb();
void perturb_point();                     // maybe delay the calling thread
}  // namespace vf
