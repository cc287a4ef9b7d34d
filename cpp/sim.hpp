// Deterministic simulation of the POSIX IPC facilities EigenIPC uses.  Calls of the
// code under test are intercepted with ld --wrap; simulated processes are threads
// that run one at a time, scheduled by the case's choice tape.
#pragma once
#include "pbt.hpp"
#include <memory>
#include <set>
#include <map>

namespace sim {

struct Options {
    bool page_yield = false;      // context switches at first touch of every shared page
    double p_switch = 0.2;        // bias of the scheduler towards switching
    double p_timepass = 0.0;      // let time jump to the next deadline although something can run
    double p_spurious = 0.0;      // spurious condition wake-ups
    int max_steps = 200000;
    int64_t max_vtime_ms = 60000;
    int64_t start_s = 0;          // wall clock at the start (seconds since 1970; 0: some day in 2027)
};

enum class End { Done, Deadlock, Limit, Failed };

// Fresh world (no names, no processes) for a case.
void reset(pbt::Case& c, const Options& o = Options());
void teardown();
void limit_steps(int n);
void limit_vtime(int64_t ms);                         // changes max_vtime_ms for the runs that follow

int new_process();                                   // returns process id
int spawn(const std::string& name, int proc, std::function<void()> fn); // returns task id
End run();                                           // runs until all tasks are done/dead, or no progress
std::string report();                                // states of all tasks
bool finished(int task);
bool dead(int task);
bool blocked(int task);                              // neither done nor dead
const char* blocked_on(int task);
void kill(int task);                                 // abandons a task (SIGKILL semantics) at its current point
void kill_at(int task, long nth_yield);              // ... at its nth scheduling point from now (1 = next)
long yields(int task);

// within a task
void yield(const char* what = "yield");
void set_process(int proc);
int process();
void wait_until(const std::function<bool()>& pred, const char* what);
void sleep_ms(int64_t ms);
int64_t now_ns();
bool in_task();

// As process p (fd/mapping/semaphore accounting) for the duration of a scope.
struct As { int old; explicit As(int p) : old(process()) { set_process(p); } ~As() { set_process(old); } };

// accounting
struct Res { int fds, maps, sems; bool operator==(const Res& o) const { return fds == o.fds && maps == o.maps && sems == o.sems; } };
Res resources(int proc);
std::string resources_text(int proc);
std::vector<std::string> names();                    // linked shared memory and semaphore names
long blocking_calls();                               // of the current task so far: calls that had to wait, and sleeps
long syscalls(int proc);                             // intercepted calls of a process so far

// fault injection: the nth (1..) faultable call made by the process from now on fails
void fault_at(int proc, long nth, int err_sel);
long faultable_calls(int proc);                      // since last reset of the counter by fault_at/clear_fault
void clear_fault(int proc);
bool fault_fired(int proc);
std::string fault_text(int proc);

// heap accounting for the current thread
void count_allocs(bool on);
long allocs();

// runs fn as the only task of a fresh process-less world step and returns how it ended
template <class F> End solo(const char* name, int proc, F&& fn) { spawn(name, proc, std::forward<F>(fn)); return run(); }

// objects under test live in garbage-filled storage so that uninitialised members are noticed
template <class T> class Box {
    struct Storage { alignas(64) unsigned char b[sizeof(T)]; };
    std::unique_ptr<Storage> st_; T* p_ = nullptr;
public:
    Box() = default;
    template <class... A> void make(A&&... a) { destroy(); st_.reset(new Storage); std::memset(st_->b, 0x7B, sizeof(T)); p_ = new (st_->b) T(std::forward<A>(a)...); }
    void destroy() { if (p_) { T* q = p_; p_ = nullptr; q->~T(); st_.reset(); } }
    void leak() { p_ = nullptr; st_.release(); }
    T* operator->() { return p_; }
    T& operator*() { return *p_; }
    explicit operator bool() const { return p_ != nullptr; }
    ~Box() { destroy(); }
    Box(const Box&) = delete; Box& operator=(const Box&) = delete;
    Box(Box&& o) : st_(std::move(o.st_)), p_(o.p_) { o.p_ = nullptr; }
};

}
