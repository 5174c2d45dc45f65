// Controlled scheduler: two real threads of which one runs at a time; every access to shared memory of the
// instrumented code (compiled with -fsanitize=thread, whose callbacks are implemented in sched.cpp) is a scheduling point.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <vector>
namespace sched {
// runs the two functions under a controlled schedule: thread `first` runs until the other is due; the threads are exchanged
// at the numbered scheduling points of `preempt` (accesses to a location of `shared`) and when one of them ends or blocks.
// Returns the number of scheduling points met.
struct Result { long points = 0, switches = 0; bool deadlock = false; };
Result execute(const std::function<void()>& a, const std::function<void()>& b, int first, const std::vector<uint64_t>& shared, const std::vector<long>& preempt);
// runs a then b, without exchange, and returns the locations accessed by both and written by one of them
std::vector<uint64_t> conflicts(const std::function<void()>& a, const std::function<void()>& b, long& accesses);
}
