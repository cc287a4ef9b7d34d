#include "sim.hpp"
#include <atomic>
#include <thread>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <chrono>
#ifdef __SANITIZE_ADDRESS__
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" const char* __asan_default_options() { return "handle_segv=0:handle_sigbus=1:allow_user_segv_handler=1:detect_leaks=0:abort_on_error=0:exitcode=1:detect_stack_use_after_return=0:use_sigaltstack=0:quarantine_size_mb=16:malloc_context_size=8"; }
#endif

extern "C" {
int __real_shm_open(const char*, int, mode_t); int __real_shm_unlink(const char*);
int __real_ftruncate(int, off_t); void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
int __real_close(int);
sem_t* __real_sem_open(const char*, int, ...); int __real_sem_close(sem_t*); int __real_sem_unlink(const char*);
int __real_sem_wait(sem_t*); int __real_sem_trywait(sem_t*); int __real_sem_timedwait(sem_t*, const struct timespec*);
int __real_sem_clockwait(sem_t*, clockid_t, const struct timespec*); int __real_sem_post(sem_t*); int __real_sem_getvalue(sem_t*, int*);
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*); int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_timedlock(pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*); int __real_pthread_cond_destroy(pthread_cond_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*); int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __real_pthread_cond_signal(pthread_cond_t*); int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_nanosleep(const struct timespec*, struct timespec*); int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __real_usleep(useconds_t); unsigned __real_sleep(unsigned); int __real_sched_yield(void);
int __real_clock_gettime(clockid_t, struct timespec*); int __real_gettimeofday(struct timeval*, void*); time_t __real_time(time_t*);
int __real_posix_fallocate(int, off_t, off_t); int __real_fallocate(int, int, off_t, off_t);
int __real_poll(struct pollfd*, nfds_t, int); int __real_ppoll(struct pollfd*, nfds_t, const struct timespec*, const sigset_t*);
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*); int __real_pselect(int, fd_set*, fd_set*, fd_set*, const struct timespec*, const sigset_t*);
int __real_pthread_mutex_clocklock(pthread_mutex_t*, clockid_t, const struct timespec*);
}

namespace sim {

using pbt::Case;

struct Obj { int id; int fd; std::string name; bool linked; };
struct Sem { int id; std::string name; bool linked; unsigned value; };
struct Map { uintptr_t addr; size_t len; int obj; int proc; bool live; std::vector<uint8_t> prot; };
struct Handle { sem_t* ptr; int sem; int refs; };
struct Proc {
    std::map<int, int> fds;          // fd -> object
    std::vector<Handle> sems;
    std::vector<int> open_pages_map; // maps with unprotected pages
    long calls = 0, faultable = 0, fault_at = 0; int fault_sel = 0; bool fired = false; std::string fault_txt;
};
enum TS { READY, BLOCKED, SLEEPING, DONE, DEAD };
struct Worker;
struct Task {
    int id; std::string name; int proc; std::function<void()> fn; TS st = READY;
    bool (*pred)(void*) = nullptr; void* arg = nullptr; int64_t deadline = -1; const char* what = ""; char whatbuf[120];
    long yields = 0, kill_at = 0, blocks = 0; Worker* w = nullptr; int in_kernel = 0; bool started = false;
};
struct Worker { std::atomic<int> baton{0}; Task* task = nullptr; bool busy = false; };

struct PMutex { int owner = -1; };            // task id, -2 controller
struct PCond { std::vector<int> waiters; std::set<int> signaled; clockid_t clk = CLOCK_REALTIME; };

struct World {
    Case* c; Options o;
    std::vector<std::unique_ptr<Obj>> objs; std::vector<std::unique_ptr<Sem>> sems;
    std::map<std::string, int> shm_names, sem_names;
    std::vector<std::unique_ptr<Map>> maps;
    std::vector<std::unique_ptr<Proc>> procs;
    std::vector<std::unique_ptr<Task>> tasks;
    std::map<std::pair<int, size_t>, PMutex> mtx; std::map<std::pair<int, size_t>, PCond> cnd;
    int64_t now; int64_t t0; int64_t boot = 0; long steps = 0; int cur_task = -1; int ctl_proc = 0; End end = End::Done;
};
static World* W = nullptr;
static std::atomic<int> g_ctl{0};
static std::vector<Worker*> g_pool;
static thread_local Task* t_task = nullptr;
static thread_local bool t_count = false; static thread_local long t_allocs = 0; static thread_local int t_kernel = 0;

struct K { K() { ++t_kernel; } ~K() { --t_kernel; } };

static void fwait(std::atomic<int>& a) { while (a.load(std::memory_order_acquire) == 0) syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a.store(0, std::memory_order_relaxed); }
static void fwake(std::atomic<int>& a) { a.store(1, std::memory_order_release); syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

[[noreturn]] static void die(const std::string& m) {
    std::string t = m;
    if (W) { t += t_task ? "  [in task " + t_task->name + "]" : ""; t += "\n" + report(); }
    pbt::fail_here(t.c_str());
}
bool in_task() { return t_task != nullptr; }
static inline bool active() { return W != nullptr; }
static int curproc() { return t_task ? t_task->proc : W->ctl_proc; }
static Proc& P() { return *W->procs[curproc()]; }
static void tr(const char* fmt, ...) {
    if (!pbt::g_replay_verbose) return;
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fprintf(stderr, "      %-10s| p%d %s\n", t_task ? t_task->name.c_str() : "-", curproc(), b);
}

// ------------------------------------------------------------------ page protection
static const size_t PG = 4096;
static void protect_all(int proc) {
    if (!W->o.page_yield) return;
    Proc& p = *W->procs[proc];
    for (int mi : p.open_pages_map) { Map& m = *W->maps[mi]; if (!m.live) continue; mprotect((void*)m.addr, m.prot.size() * PG, PROT_NONE); std::fill(m.prot.begin(), m.prot.end(), 0); }
    p.open_pages_map.clear();
}

// ------------------------------------------------------------------ scheduler
static bool ready(Task& t) {
    switch (t.st) {
        case READY: return true;
        case BLOCKED: return (t.pred && t.pred(t.arg)) || (t.deadline >= 0 && t.deadline <= W->now);
        case SLEEPING: return t.deadline <= W->now;
        default: return false;
    }
}
static void park_forever() { std::atomic<int> a{0}; for (;;) { int z = 0; (void)z; syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); } }

static void worker_main(Worker* w);
static void launch(Task& t) {
    Worker* w = nullptr;
    for (auto* x : g_pool) if (!x->busy) { w = x; break; }
    if (!w) {
        w = new Worker; g_pool.push_back(w);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 * 1024);
        pthread_t th; int e = pthread_create(&th, &a, [](void* p) -> void* { worker_main((Worker*)p); return nullptr; }, w);
        if (e) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
        pthread_detach(th); pthread_attr_destroy(&a);
    }
    w->busy = true; w->task = &t; t.w = w; t.started = true;
}

// picks the next task and transfers control; returns when the calling task is scheduled again
static void reschedule() {
    Task* me = t_task;
    for (;;) {
        std::vector<Task*>& rd = *new (alloca(sizeof(std::vector<Task*>))) std::vector<Task*>();
        int n = (int)W->tasks.size(), base = W->cur_task >= 0 ? W->cur_task : 0;
        for (int k = 0; k < n; ++k) { Task& t = *W->tasks[(base + k) % n]; if (ready(t)) rd.push_back(&t); }
        int64_t minw = -1;
        for (auto& tp : W->tasks) { Task& t = *tp; if ((t.st == SLEEPING || (t.st == BLOCKED && t.deadline >= 0)) && t.deadline > W->now) if (minw < 0 || t.deadline < minw) minw = t.deadline; }
        Task* next = nullptr; bool stop = false; End e = End::Done;
        if (W->now - W->t0 > W->o.max_vtime_ms * 1000000ll || W->steps > W->o.max_steps) { stop = true; e = End::Limit; }
        else if (rd.empty()) {
            if (minw >= 0) { W->now = minw; rd.~vector(); continue; }
            stop = true; e = End::Done;
            for (auto& tp : W->tasks) if (tp->st != DONE && tp->st != DEAD) e = End::Deadlock;
        } else {
            bool mecur = rd[0] == me && me && me->st != DONE && me->st != DEAD;
            if (W->o.p_timepass > 0 && minw >= 0 && W->c->chance(W->o.p_timepass)) { W->now = minw; rd.~vector(); continue; }
            int i = 0;
            if (rd.size() > 1) i = mecur ? (int)W->c->draw_biased((uint32_t)rd.size(), W->o.p_switch) : (int)W->c->draw((uint32_t)rd.size());
            next = rd[i];
            if (rd.size() > 1) { W->c->hash_ ^= (uint64_t)next->id + 1; W->c->hash_ *= 1099511628211ull; }   // two schedules of one program are two cases
            ++W->steps; W->now += 1000;
        }
        rd.~vector();
        if (stop) {
            W->end = e;
            if (!me) return;
            bool finished = me->st == DONE || me->st == DEAD;
            Worker* w = me->w; fwake(g_ctl);
            if (finished) return;
            fwait(w->baton);
            protect_all(me->proc);
            return;
        }
        next->st = READY;
        W->cur_task = next->id;
        if (next == me) return;
        protect_all(next->proc);
        if (!next->started) launch(*next);
        bool finished = me && (me->st == DONE || me->st == DEAD);
        Worker* myw = me ? me->w : nullptr;
        fwake(next->w->baton);
        if (!me) { fwait(g_ctl); return; }
        if (finished) return;
        fwait(myw->baton);
        return;
    }
}
static void worker_main(Worker* w) {
    for (;;) {
        fwait(w->baton);
        Task* t = w->task; t_task = t;
        try { t->fn(); }
        catch (pbt::CaseEnd&) {}
        catch (std::exception& e) { die(std::string("uncaught exception in task ") + t->name + ": " + e.what()); }
        catch (...) { die("uncaught unknown exception in task " + t->name); }
        t->st = DONE;
        w->busy = false;
        { K k; reschedule(); }
        t_task = nullptr;
    }
}
static void check_kill(Task& t) {
    if (t.kill_at && t.yields >= t.kill_at) {
        tr("*** dies here");
        t.st = DEAD;
        reschedule();
        park_forever();
    }
}
static void point(const char* what) {
    if (!t_task) return;
    K k;
    Task& t = *t_task; ++t.yields; t.what = what;
    check_kill(t);
    t.st = READY; reschedule();
}
// blocks until pred or deadline; true if pred holds
static bool block(bool (*pred)(void*), void* arg, int64_t deadline, const char* what) {
    if (pred(arg)) return true;
    if (!t_task) die(std::string("would block forever outside of any task: ") + what);
    Task& t = *t_task;
    ++t.blocks;
    for (;;) {
        t.st = BLOCKED; t.pred = pred; t.arg = arg; t.deadline = deadline; snprintf(t.whatbuf, sizeof t.whatbuf, "%s", what); t.what = t.whatbuf;
        ++t.yields; check_kill(t);
        reschedule();
        t.pred = nullptr;
        bool ok = pred(arg);
        if (ok) { t.deadline = -1; return true; }
        if (deadline >= 0 && W->now >= deadline) { t.deadline = -1; return false; }
    }
}
static void do_sleep(int64_t ns) {
    if (!t_task) { W->now += ns; return; }
    Task& t = *t_task; ++t.blocks; ++t.yields; t.what = "sleep"; check_kill(t);
    t.st = SLEEPING; t.deadline = W->now + std::max<int64_t>(ns, 1); reschedule(); t.deadline = -1;
}

// ------------------------------------------------------------------ public control
static void segv(int sig, siginfo_t* si, void* uc);
static bool installed = false;
static void malloc_hook(const volatile void*, size_t) { if (t_count && t_kernel == 0) ++t_allocs; }
static void free_hook(const volatile void*) {}

void reset(Case& c, const Options& o) {
    teardown();
    if (!installed) {
        struct sigaction sa{}; sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr);
#ifdef __SANITIZE_ADDRESS__
        __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook);
#endif
        installed = true;
    }
    K k;
    W = new World; W->c = &c; W->o = o; 
    // the clock starts at any point of a second, also just before its end
    static const int64_t phase[] = {0, 999990000, 999999000, 990000000, 500000000, 985000000};
    W->now = W->t0 = (o.start_s ? o.start_s : 1800000000ll) * 1000000000ll + phase[c.draw_biased(6, 0.5)]; W->boot = 1799990000ll * 1000000000ll + 123456789;
    if (o.start_s) W->boot = (o.start_s - 10000) * 1000000000ll + 123456789;

    W->procs.emplace_back(new Proc); W->ctl_proc = 0;
}
void teardown() {
    if (!W) return;
    K k;
    for (auto& m : W->maps) if (m->live) __real_munmap((void*)m->addr, m->prot.size() * PG);
    for (auto& p : W->procs) for (auto& f : p->fds) __real_close(f.first);
    for (auto& ob : W->objs) __real_close(ob->fd);
    bool parked = false; for (auto& t : W->tasks) if (t->started && t->st != DONE) parked = true;
    // abandoned tasks stay parked on their own worker for the life of this process
    if (parked) for (auto& t : W->tasks) if (t->started && t->st != DONE) t.release();
    delete W; W = nullptr;
}
int new_process() { K k; W->procs.emplace_back(new Proc); return (int)W->procs.size() - 1; }
int spawn(const std::string& name, int proc, std::function<void()> fn) {
    K k; auto t = std::make_unique<Task>(); t->id = (int)W->tasks.size(); t->name = name; t->proc = proc; t->fn = std::move(fn);
    W->tasks.push_back(std::move(t)); return (int)W->tasks.size() - 1;
}
End run() { K k; W->cur_task = -1; W->t0 = W->now; W->steps = 0; reschedule(); return W->end; }
bool finished(int t) { return W->tasks[t]->st == DONE; }
bool dead(int t) { return W->tasks[t]->st == DEAD; }
bool blocked(int t) { return W->tasks[t]->st != DONE && W->tasks[t]->st != DEAD; }
const char* blocked_on(int t) { return W->tasks[t]->what; }
void kill(int t) { if (W->tasks[t]->st != DONE) W->tasks[t]->st = DEAD; }
void kill_at(int t, long n) { W->tasks[t]->kill_at = W->tasks[t]->yields + n; }
long yields(int t) { return W->tasks[t]->yields; }
std::string report() {
    std::string s; if (!W) return s;
    static const char* n[] = {"ready", "blocked", "sleeping", "done", "dead"};
    for (auto& t : W->tasks) { s += "task " + t->name + ": " + n[t->st]; if (t->st != DONE) s += std::string(" at ") + t->what; s += "\n"; }
    return s;
}
void limit_steps(int n) { W->o.max_steps = n; }
void limit_vtime(int64_t ms) { W->o.max_vtime_ms = ms; }
void yield(const char* what) { point(what); }
void set_process(int p) { if (t_task) t_task->proc = p; else W->ctl_proc = p; }
int process() { return curproc(); }
void wait_until(const std::function<bool()>& pred, const char* what) { K k; block([](void* a) { return (*(const std::function<bool()>*)a)(); }, (void*)&pred, -1, what); }
void sleep_ms(int64_t ms) { K k; do_sleep(ms * 1000000ll); }
int64_t now_ns() { return W->now; }
Res resources(int p) {
    Proc& q = *W->procs[p]; Res r{(int)q.fds.size(), 0, 0};
    for (auto& m : W->maps) if (m->live && m->proc == p) ++r.maps;
    for (auto& h : q.sems) if (h.refs > 0) r.sems += h.refs;
    return r;
}
std::string resources_text(int p) {
    Proc& q = *W->procs[p]; std::string s;
    for (auto& f : q.fds) s += "fd of " + W->objs[f.second]->name + "; ";
    for (auto& m : W->maps) if (m->live && m->proc == p) s += "mapping of " + W->objs[m->obj]->name + "; ";
    for (auto& h : q.sems) if (h.refs > 0) s += "semaphore " + W->sems[h.sem]->name + " x" + std::to_string(h.refs) + "; ";
    return s;
}
std::vector<std::string> names() { std::vector<std::string> r; for (auto& x : W->shm_names) r.push_back(x.first); for (auto& x : W->sem_names) r.push_back("sem:" + x.first); return r; }
long blocking_calls() { return t_task ? t_task->blocks : 0; }
long syscalls(int p) { return W->procs[p]->calls; }
void fault_at(int p, long n, int sel) { Proc& q = *W->procs[p]; q.faultable = 0; q.fault_at = n; q.fault_sel = sel; q.fired = false; q.fault_txt.clear(); }
void clear_fault(int p) { Proc& q = *W->procs[p]; q.faultable = 0; q.fault_at = 0; }
long faultable_calls(int p) { return W->procs[p]->faultable; }
bool fault_fired(int p) { return W->procs[p]->fired; }
std::string fault_text(int p) { return W->procs[p]->fault_txt; }
void count_allocs(bool on) { t_count = on; if (on) t_allocs = 0; }
long allocs() { return t_allocs; }

// ------------------------------------------------------------------ faults on shared pages
static void segv(int sig, siginfo_t* si, void* ucv) {
    uintptr_t a = (uintptr_t)si->si_addr;
    if (W && W->o.page_yield) {
        for (size_t i = 0; i < W->maps.size(); ++i) {
            Map& m = *W->maps[i];
            if (!m.live || a < m.addr || a >= m.addr + m.prot.size() * PG) continue;
            size_t pg = (a - m.addr) / PG;
            bool wr = true;
#if defined(__x86_64__)
            wr = (((ucontext_t*)ucv)->uc_mcontext.gregs[REG_ERR] & 2) != 0;
#endif
            if (m.prot[pg] == 2 || (m.prot[pg] == 1 && !wr)) break;
            int me = t_task ? t_task->proc : W->ctl_proc;
            int e = errno;
            if (m.proc != me) die("access to the memory of another (simulated) process");
            bool c = t_count; t_count = false;
            point(wr ? "memory write" : "memory read");
            t_count = c;
            {
                K k; Map& m2 = *W->maps[i];
                if (!m2.live) break;
                m2.prot[pg] = wr ? 2 : 1; mprotect((void*)(m2.addr + pg * PG), PG, wr ? PROT_READ | PROT_WRITE : PROT_READ);
                Proc& p = *W->procs[me]; if (std::find(p.open_pages_map.begin(), p.open_pages_map.end(), (int)i) == p.open_pages_map.end()) p.open_pages_map.push_back((int)i);
                tr("touches page %zu of %s (%s)", pg, W->objs[m2.obj]->name.c_str(), wr ? "write" : "read");
            }
            errno = e;
            return;
        }
    }
    void* bt[40]; int n = backtrace(bt, 40);
    static char msg[300]; snprintf(msg, sizeof msg, "segmentation fault at address %p%s\n", si->si_addr, t_task ? "" : "");
    if (::write(2, msg, strlen(msg)) < 0) {}
    backtrace_symbols_fd(bt, n, 2);
    signal(SIGSEGV, SIG_DFL); raise(SIGSEGV);
}

static int owner_map(const void* p) {
    uintptr_t a = (uintptr_t)p;
    for (size_t i = 0; i < W->maps.size(); ++i) { Map& m = *W->maps[i]; if (m.live && a >= m.addr && a < m.addr + m.prot.size() * PG) return (int)i; }
    return -1;
}
static bool shkey(const void* p, std::pair<int, size_t>& k) { if (!W) return false; int i = owner_map(p); if (i < 0) return false; k = {W->maps[i]->obj, (uintptr_t)p - W->maps[i]->addr}; return true; }

static bool fault(const char* call, std::initializer_list<int> errs, const char* arg) {
    Proc& p = P(); ++p.faultable;
    if (p.fault_at && p.faultable == p.fault_at) {
        p.fired = true; auto it = errs.begin(); std::advance(it, p.fault_sel % errs.size()); errno = *it;
        p.fault_txt = std::string(call) + "(" + arg + ") fails with " + strerror(*it);
        tr("%s", p.fault_txt.c_str());
        return true;
    }
    return false;
}
static Handle* find_handle(sem_t* s) { for (auto& h : P().sems) if (h.ptr == s && h.refs > 0) return &h; return nullptr; }
static Sem& sem_of(sem_t* s, const char* call) {
    Handle* h = find_handle(s);
    if (!h) die(std::string(call) + " on a semaphore handle that is not open in this process");
    return *W->sems[h->sem];
}
// the monotonic clocks started when the machine did
static int64_t clk_offset(clockid_t c) { return c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME ? W->boot : 0; }
static bool bad_ts(const struct timespec* t) { return t->tv_nsec < 0 || t->tv_nsec >= 1000000000; }
static int64_t abs_ns(const struct timespec* t) { return (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec; }
static bool sem_free(void* a) { return ((Sem*)a)->value > 0; }

} // namespace sim
using namespace sim;

extern "C" {

int __wrap_shm_open(const char* name, int flags, mode_t mode) {
    if (!active()) return __real_shm_open(name, flags, mode);
    point("shm_open"); K k; ++P().calls;
    if (fault("shm_open", {EMFILE, EACCES, ENFILE}, name)) return -1;
    std::string nm = name; if (nm.empty() || nm[0] != '/') nm = "/" + nm;
    if (nm.size() < 2 || nm.find('/', 1) != std::string::npos) { errno = EINVAL; return -1; }
    if (nm.size() > 255) { errno = ENAMETOOLONG; return -1; }
    auto it = W->shm_names.find(nm); int oi;
    if (it == W->shm_names.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        auto o = std::make_unique<Obj>(); o->id = (int)W->objs.size(); o->name = nm; o->linked = true; o->fd = memfd_create("simshm", MFD_CLOEXEC);
        if (o->fd < 0) { perror("memfd_create"); _exit(3); }
        oi = o->id; W->objs.push_back(std::move(o)); W->shm_names[nm] = oi;
        tr("shm_open(%s) creates #%d", name, oi);
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        oi = it->second; tr("shm_open(%s) opens #%d", name, oi);
    }
    if (flags & O_TRUNC) if (__real_ftruncate(W->objs[oi]->fd, 0)) {}
    int fd;
    if ((flags & O_ACCMODE) == O_RDONLY) { char pth[64]; snprintf(pth, 64, "/proc/self/fd/%d", W->objs[oi]->fd); fd = open(pth, O_RDONLY | O_CLOEXEC); }
    else fd = fcntl(W->objs[oi]->fd, F_DUPFD_CLOEXEC, 100);
    if (fd < 0) { perror("dup"); _exit(3); }
    P().fds[fd] = oi; return fd;
}
int __wrap_shm_unlink(const char* name) {
    if (!active()) return __real_shm_unlink(name);
    point("shm_unlink"); K k; ++P().calls;
    std::string nm = name; if (nm.empty() || nm[0] != '/') nm = "/" + nm;
    auto it = W->shm_names.find(nm);
    if (it == W->shm_names.end()) { errno = ENOENT; return -1; }
    tr("shm_unlink(%s) #%d", name, it->second);
    W->objs[it->second]->linked = false; W->shm_names.erase(it); return 0;
}
static int check_fd(int fd, const char* call) { auto it = P().fds.find(fd); if (it == P().fds.end()) { if (fd < 0) return -1; die(std::string(call) + " on file descriptor " + std::to_string(fd) + ", which this process does not own"); } return it->second; }
int __wrap_ftruncate(int fd, off_t len) {
    if (!active()) return __real_ftruncate(fd, len);
    point("ftruncate"); K k; ++P().calls;
    int o = check_fd(fd, "ftruncate"); if (o < 0) { errno = EBADF; return -1; }
    if (fault("ftruncate", {ENOSPC, EINVAL, EFBIG}, W->objs[o]->name.c_str())) return -1;
    tr("ftruncate(%s, %ld)", W->objs[o]->name.c_str(), (long)len);
    return __real_ftruncate(fd, len);
}
int __wrap_posix_fallocate(int fd, off_t off, off_t len) {
    if (!active()) return __real_posix_fallocate(fd, off, len);
    point("posix_fallocate"); K k; ++P().calls;
    int o = check_fd(fd, "posix_fallocate"); if (o < 0) return EBADF;
    if (fault("posix_fallocate", {ENOSPC}, W->objs[o]->name.c_str())) return errno;
    return __real_posix_fallocate(fd, off, len);
}
int __wrap_fallocate(int fd, int mode, off_t off, off_t len) {
    if (!active()) return __real_fallocate(fd, mode, off, len);
    point("fallocate"); K k; ++P().calls;
    int o = check_fd(fd, "fallocate"); if (o < 0) { errno = EBADF; return -1; }
    if (fault("fallocate", {ENOSPC}, W->objs[o]->name.c_str())) return -1;
    return __real_fallocate(fd, mode, off, len);
}
void* __wrap_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    if (!active() || (flags & MAP_ANONYMOUS)) return __real_mmap(addr, len, prot, flags, fd, off);
    point("mmap"); K k; ++P().calls;
    int o = check_fd(fd, "mmap"); if (o < 0) { errno = EBADF; return MAP_FAILED; }
    if (fault("mmap", {ENOMEM, EACCES}, W->objs[o]->name.c_str())) return MAP_FAILED;
    void* p = __real_mmap(addr, len, W->o.page_yield ? PROT_NONE : prot, flags, fd, off);
    if (p == MAP_FAILED) return p;
    auto m = std::make_unique<Map>(); m->addr = (uintptr_t)p; m->len = len; m->obj = o; m->proc = curproc(); m->live = true; m->prot.assign((len + PG - 1) / PG, 0);
    W->maps.push_back(std::move(m)); tr("mmap(%s, %zu) #%d", W->objs[o]->name.c_str(), len, o); return p;
}
int __wrap_munmap(void* addr, size_t len) {
    if (!active()) return __real_munmap(addr, len);
    int i = owner_map(addr);
    if (i < 0) {
        if (addr == nullptr || len == 0 || addr == MAP_FAILED) { errno = EINVAL; return -1; }
        die("munmap of an address that is not mapped by this process");
    }
    point("munmap"); K k; ++P().calls; Map& m = *W->maps[i];
    if (m.proc != curproc()) die("munmap of another process' mapping");
    if ((uintptr_t)addr != m.addr || (len + PG - 1) / PG != m.prot.size()) die("munmap does not match the mapping (" + W->objs[m.obj]->name + ": mapped " + std::to_string(m.len) + " bytes, unmapping " + std::to_string(len) + ")");
    m.live = false; tr("munmap(%s)", W->objs[m.obj]->name.c_str()); return __real_munmap(addr, len);
}
int __wrap_close(int fd) {
    if (!active()) return __real_close(fd);
    point("close"); K k; ++P().calls;
    if (fd < 0) { errno = EBADF; return -1; }
    auto it = P().fds.find(fd);
    if (it == P().fds.end()) die("close of file descriptor " + std::to_string(fd) + ", which this process does not own (never opened, or closed before)");
    tr("close(fd of %s)", W->objs[it->second]->name.c_str());
    P().fds.erase(it); return __real_close(fd);
}

sem_t* __wrap_sem_open(const char* name, int flags, ...) {
    unsigned mode = 0, value = 0; va_list ap; va_start(ap, flags); if (flags & O_CREAT) { mode = va_arg(ap, unsigned); value = va_arg(ap, unsigned); } va_end(ap);
    if (!active()) return __real_sem_open(name, flags, mode, value);
    point("sem_open"); K k; ++P().calls;
    if (fault("sem_open", {EMFILE, ENOMEM, EACCES}, name)) return SEM_FAILED;
    std::string nm = name; if (nm.empty() || nm[0] != '/') nm = "/" + nm;
    if (nm.size() < 2 || nm.find('/', 1) != std::string::npos) { errno = EINVAL; return SEM_FAILED; }
    if (nm.size() > 251) { errno = ENAMETOOLONG; return SEM_FAILED; }
    auto it = W->sem_names.find(nm); int si;
    if (it == W->sem_names.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
        if (value > SEM_VALUE_MAX) { errno = EINVAL; return SEM_FAILED; }
        auto s = std::make_unique<Sem>(); s->id = (int)W->sems.size(); s->name = nm; s->linked = true; s->value = value; si = s->id; W->sems.push_back(std::move(s)); W->sem_names[nm] = si;
        tr("sem_open(%s) creates #%d value %u", name, si, value);
    } else { if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return SEM_FAILED; } si = it->second; tr("sem_open(%s) opens #%d value %u", name, si, W->sems[si]->value); }
    for (auto& h : P().sems) if (h.sem == si && h.refs > 0) { ++h.refs; return h.ptr; }
    sem_t* p = (sem_t*)calloc(1, sizeof(sem_t)); P().sems.push_back({p, si, 1}); return p;   // never freed: a stale handle stays recognisable
}
int __wrap_sem_close(sem_t* s) {
    if (!active()) return __real_sem_close(s);
    point("sem_close"); K k; ++P().calls;
    Handle* h = find_handle(s);
    if (!h) { if (s == nullptr || s == SEM_FAILED) { errno = EINVAL; return -1; } die("sem_close of a handle that is not open in this process"); }
    tr("sem_close(%s)", W->sems[h->sem]->name.c_str());
    --h->refs; return 0;
}
int __wrap_sem_unlink(const char* name) {
    if (!active()) return __real_sem_unlink(name);
    point("sem_unlink"); K k; ++P().calls;
    std::string nm = name; if (nm.empty() || nm[0] != '/') nm = "/" + nm;
    auto it = W->sem_names.find(nm); if (it == W->sem_names.end()) { errno = ENOENT; return -1; }
    tr("sem_unlink(%s) #%d", name, it->second);
    W->sems[it->second]->linked = false; W->sem_names.erase(it); return 0;
}
int __wrap_sem_wait(sem_t* s) {
    if (!active()) return __real_sem_wait(s);
    point("sem_wait"); K k; ++P().calls; Sem& m = sem_of(s, "sem_wait");
    if (fault("sem_wait", {EINTR}, m.name.c_str())) return -1;
    std::string w = "sem_wait(" + m.name + ")";
    block(sem_free, &m, -1, w.c_str());
    --m.value; tr("sem_wait(%s) #%d -> acquired", m.name.c_str(), m.id); return 0;
}
int __wrap_sem_trywait(sem_t* s) {
    if (!active()) return __real_sem_trywait(s);
    point("sem_trywait"); K k; ++P().calls; Sem& m = sem_of(s, "sem_trywait");
    if (P().fault_at) if (fault("sem_trywait", {EINTR}, m.name.c_str())) return -1;
    if (m.value == 0) { tr("sem_trywait(%s) #%d -> busy", m.name.c_str(), m.id); errno = EAGAIN; return -1; }
    --m.value; tr("sem_trywait(%s) #%d -> acquired", m.name.c_str(), m.id); return 0;
}
static int timedwait_common(sem_t* s, const struct timespec* t, clockid_t clk = CLOCK_REALTIME) {
    int64_t n0 = W->now; point("sem_timedwait"); K k; ++P().calls; Sem& m = sem_of(s, "sem_timedwait");
    if (fault("sem_timedwait", {EINTR}, m.name.c_str())) return -1;
    if (m.value > 0) { --m.value; tr("sem_timedwait(%s) #%d -> acquired", m.name.c_str(), m.id); return 0; }
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { errno = EINVAL; return -1; }
    std::string w = "sem_timedwait(" + m.name + ")"; int64_t d = abs_ns(t) + clk_offset(clk);
    if (d <= W->now && d > n0 - 100000 && t_task) ++t_task->blocks;   // the few virtual microseconds it was to wait went by on the way here
    if (d <= W->now || !block(sem_free, &m, d, w.c_str())) { tr("sem_timedwait(%s) #%d -> timeout", m.name.c_str(), m.id); errno = ETIMEDOUT; return -1; }
    --m.value; tr("sem_timedwait(%s) #%d -> acquired", m.name.c_str(), m.id); return 0;
}
int __wrap_sem_timedwait(sem_t* s, const struct timespec* t) { if (!active()) return __real_sem_timedwait(s, t); return timedwait_common(s, t); }
int __wrap_sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) { if (!active()) return __real_sem_clockwait(s, c, t); return timedwait_common(s, t, c); }
int __wrap_sem_post(sem_t* s) {
    if (!active()) return __real_sem_post(s);
    point("sem_post"); K k; ++P().calls; Sem& m = sem_of(s, "sem_post"); ++m.value; tr("sem_post(%s) #%d -> %u", m.name.c_str(), m.id, m.value); return 0;
}
int __wrap_sem_getvalue(sem_t* s, int* v) {
    if (!active()) return __real_sem_getvalue(s, v);
    point("sem_getvalue"); K k; ++P().calls; Sem& m = sem_of(s, "sem_getvalue"); *v = (int)m.value; return 0;
}

// process-shared mutexes and conditions that live in simulated shared memory
typedef std::pair<int, size_t> Key;
static int myid() { return t_task ? t_task->id : -2; }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { Key q; if (!active() || !shkey(m, q)) return __real_pthread_mutex_init(m, a); K k; W->mtx[q] = PMutex{}; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { Key q; if (!active() || !shkey(m, q)) return __real_pthread_mutex_destroy(m); return 0; }
static bool mfree(void* a) { return ((PMutex*)a)->owner == -1; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    Key q; if (!active() || !shkey(m, q)) return __real_pthread_mutex_lock(m);
    point("pthread_mutex_lock"); K k; ++P().calls; PMutex& x = W->mtx[q]; block(mfree, &x, -1, "pthread_mutex_lock"); x.owner = myid(); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    Key q; if (!active() || !shkey(m, q)) return __real_pthread_mutex_trylock(m);
    point("pthread_mutex_trylock"); K k; ++P().calls; PMutex& x = W->mtx[q]; if (x.owner != -1) return EBUSY; x.owner = myid(); return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
    Key q; if (!active() || !shkey(m, q)) return __real_pthread_mutex_timedlock(m, t);
    point("pthread_mutex_timedlock"); K k; ++P().calls; if (bad_ts(t)) return EINVAL; PMutex& x = W->mtx[q]; if (!block(mfree, &x, abs_ns(t), "pthread_mutex_timedlock")) return ETIMEDOUT; x.owner = myid(); return 0;
}
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t ck, const struct timespec* t) {
    Key q; if (!active() || !shkey(m, q)) return __real_pthread_mutex_clocklock(m, ck, t);
    point("pthread_mutex_clocklock"); K k; ++P().calls; if (bad_ts(t)) return EINVAL; PMutex& x = W->mtx[q]; if (!block(mfree, &x, abs_ns(t) + clk_offset(ck), "pthread_mutex_clocklock")) return ETIMEDOUT; x.owner = myid(); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    Key q; if (!active() || !shkey(m, q)) return __real_pthread_mutex_unlock(m);
    point("pthread_mutex_unlock"); K k; ++P().calls; PMutex& x = W->mtx[q]; x.owner = -1; return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { Key q; if (!active() || !shkey(c, q)) return __real_pthread_cond_init(c, a); K k; PCond x; if (a) pthread_condattr_getclock(a, &x.clk); W->cnd[q] = x; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { Key q; if (!active() || !shkey(c, q)) return __real_pthread_cond_destroy(c); return 0; }
struct CW { PCond* c; int id; };
static int cond_wait_common(Key cq, Key mq, int64_t deadline, const char* what) {
    point(what); K k; ++P().calls;
    PCond& c = W->cnd[cq]; PMutex& m = W->mtx[mq]; int id = myid();
    c.waiters.push_back(id); m.owner = -1;
    tr("%s", what);
    if (W->o.p_spurious > 0 && W->c->chance(W->o.p_spurious)) { c.signaled.insert(id); tr("(spurious wake-up follows)"); }
    CW cw{&c, id};
    bool ok = block([](void* a) { CW* w = (CW*)a; return w->c->signaled.count(w->id) > 0; }, &cw, deadline, what);
    c.signaled.erase(id); c.waiters.erase(std::remove(c.waiters.begin(), c.waiters.end(), id), c.waiters.end());
    block(mfree, &m, -1, "re-locking after a condition wait"); m.owner = id;
    tr("%s -> %s", what, ok ? "woken" : "timeout");
    return ok ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    Key q, r; if (!active() || !shkey(c, q) || !shkey(m, r)) return __real_pthread_cond_wait(c, m);
    return cond_wait_common(q, r, -1, "pthread_cond_wait");
}
static int timedwait_on(Key q, Key r, pthread_mutex_t* m, clockid_t ck, const struct timespec* t) {
    if (bad_ts(t)) return EINVAL;
    int64_t d = abs_ns(t) + clk_offset(ck);
    if (d <= W->now) { __wrap_pthread_mutex_unlock(m); __wrap_pthread_mutex_lock(m); return ETIMEDOUT; }
    return cond_wait_common(q, r, d, "pthread_cond_timedwait");
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    Key q, r; if (!active() || !shkey(c, q) || !shkey(m, r)) return __real_pthread_cond_timedwait(c, m, t);
    return timedwait_on(q, r, m, W->cnd[q].clk, t);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* t) {
    Key q, r; if (!active() || !shkey(c, q) || !shkey(m, r)) return __real_pthread_cond_clockwait(c, m, ck, t);
    return timedwait_on(q, r, m, ck, t);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
    Key q; if (!active() || !shkey(c, q)) return __real_pthread_cond_signal(c);
    point("pthread_cond_signal"); K k; ++P().calls; PCond& x = W->cnd[q];
    std::vector<int> un; for (int w : x.waiters) if (!x.signaled.count(w) && (w < 0 || W->tasks[w]->st != DEAD)) un.push_back(w);
    if (!un.empty()) x.signaled.insert(un[W->c->draw((uint32_t)un.size())]);
    tr("pthread_cond_signal (%zu waiting)", un.size());
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
    Key q; if (!active() || !shkey(c, q)) return __real_pthread_cond_broadcast(c);
    point("pthread_cond_broadcast"); K k; ++P().calls; PCond& x = W->cnd[q];
    for (int w : x.waiters) x.signaled.insert(w);
    tr("pthread_cond_broadcast (%zu waiting)", x.waiters.size());
    return 0;
}

// time
// (waiting for nothing is sleeping)
int __wrap_poll(struct pollfd* p, nfds_t n, int ms) { if (!active() || n || ms < 0) return __real_poll(p, n, ms); K k; do_sleep(ms * 1000000ll); return 0; }
int __wrap_ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t* s) { if (!active() || n || !t) return __real_ppoll(p, n, t, s); K k; do_sleep(abs_ns(t)); return 0; }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* t) { if (!active() || n || !t) return __real_select(n, r, w, x, t); K k; do_sleep(t->tv_sec * 1000000000ll + t->tv_usec * 1000ll); return 0; }
int __wrap_pselect(int n, fd_set* r, fd_set* w, fd_set* x, const struct timespec* t, const sigset_t* s) { if (!active() || n || !t) return __real_pselect(n, r, w, x, t, s); K k; do_sleep(abs_ns(t)); return 0; }
int __wrap_nanosleep(const struct timespec* t, struct timespec* rem) { if (!active()) return __real_nanosleep(t, rem); if (bad_ts(t) || t->tv_sec < 0) { errno = EINVAL; return -1; } K k; do_sleep(abs_ns(t)); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* rem) { if (!active()) return __real_clock_nanosleep(c, fl, t, rem); if (bad_ts(t) || t->tv_sec < 0) return EINVAL; K k; do_sleep(fl & TIMER_ABSTIME ? abs_ns(t) + clk_offset(c) - W->now : abs_ns(t)); return 0; }
int __wrap_usleep(useconds_t u) { if (!active()) return __real_usleep(u); K k; do_sleep((int64_t)u * 1000); return 0; }
unsigned __wrap_sleep(unsigned s) { if (!active()) return __real_sleep(s); K k; do_sleep((int64_t)s * 1000000000ll); return 0; }
int __wrap_sched_yield(void) { if (!active()) return __real_sched_yield(); K k; do_sleep(1000); return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) { if (!active()) return __real_clock_gettime(c, t); int64_t n = W->now - clk_offset(c); t->tv_sec = n / 1000000000ll; t->tv_nsec = n % 1000000000ll; return 0; }
int __wrap_gettimeofday(struct timeval* t, void* z) { if (!active()) return __real_gettimeofday(t, z); t->tv_sec = W->now / 1000000000ll; t->tv_usec = W->now % 1000000000ll / 1000; return 0; }
time_t __wrap_time(time_t* t) { if (!active()) return __real_time(t); time_t v = W->now / 1000000000ll; if (t) *t = v; return v; }
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { if (!active()) return __real__ZNSt6chrono3_V212system_clock3nowEv(); return std::chrono::system_clock::time_point(std::chrono::nanoseconds(W->now)); }
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { if (!active()) return __real__ZNSt6chrono3_V212steady_clock3nowEv(); return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(W->now - clk_offset(CLOCK_MONOTONIC))); }
}
