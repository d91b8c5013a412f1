// Cooperative scheduler: exactly one thread of the process runs at a time and the scheduler decides at every
// synchronisation operation (and at instrumented memory accesses) which one. Time is virtual.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace sched {
struct Config {
    uint64_t seed = 1;
    int mode = 0;           // 0 random at synchronisation points, 1 random also at memory accesses, 2 priorities with changes
    int rate = 50;          // mode 1: one of so many accesses is a switch
    int changes = 3;        // mode 2: number of priority changes
    int length = 20000;     // mode 2: estimated number of points
    int hurry = 0;          // per mille: time passes although threads could run
    int spurious = 0;       // per mille: a waiting thread wakes up without notification
    int64_t limitMs = 60000;
    uint64_t maxPoints = 20000000;
};
void begin(const Config& c);      // the calling thread becomes thread 0
int tid();                        // scheduler's number of the calling thread
int64_t nowMs();
void sleepMs(int64_t ms);
void point();                     // explicit scheduling point
struct Quiet {                    // no switches while it lives
    Quiet();
    ~Quiet();
};
uint64_t points();
// implemented by the harness; called (quietly) when every thread is blocked / when time is moved / when the run can't go on
void onIdle(int64_t nowMs);
void onTime(int64_t nowMs);
void onStuck(const char* why, const std::string& threads);
}  // namespace sched
