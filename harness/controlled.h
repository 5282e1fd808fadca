// Controlled scheduler: runs operations in real threads of which only one runs at any time. Switches happen only before the
// memory accesses (reported by the compiler's instrumentation), atomic operations and lock operations selected by the plan.
#ifndef SCHED_H
#define SCHED_H
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Result {
    std::vector<std::uint64_t> steps; // number of accesses by thread
    std::vector<std::string> races; // pairs of conflicting accesses which are not ordered (only if detection is enabled)
    bool deadlock = false;
    std::uint64_t switches = 0, accesses = 0, shared = 0;
};

// Runs the operations; the running thread is preempted after the specified number of accesses since the last switch in favour of the next one
// which is not finished. If detect is set, accesses are recorded and memory is not reused.
Result execute(const std::vector<std::function<void()>> &ops, const std::vector<std::uint32_t> &preemptions, bool detect);

} // namespace sched
#endif
