#include "pbt.hpp"
#include "sim.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <fstream>
#include <iostream>

extern "C" int __real_close(int);
extern "C" int __real_clock_gettime(clockid_t, struct timespec*);
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" int __real_usleep(useconds_t);

namespace pbt {

Case* g_case = nullptr;
long g_index = 0;
uint64_t g_seed = 1;
bool g_replay_verbose = false;
bool g_thorough = false;
std::vector<Prop>& props() { static std::vector<Prop> p; return p; }

static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

uint64_t Case::rnd() { rng_ += 0x9E3779B97F4A7C15ull; return mix(rng_); }

uint32_t Case::draw(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (replay_) { v = pos_ < replay_->size() ? (*replay_)[pos_] : 0; if (v >= n) v %= n; ++pos_; }
    else v = (uint32_t)(rnd() % n);
    if (*tape_len_ < cap_) tape_[(*tape_len_)++] = v;
    return v;
}
uint32_t Case::draw_biased(uint32_t n, double p) {
    if (n <= 1) return 0;
    uint32_t v;
    if (replay_) { v = pos_ < replay_->size() ? (*replay_)[pos_] : 0; if (v >= n) v %= n; ++pos_; }
    else {
        double u = (double)(rnd() >> 11) / 9007199254740992.0;
        v = u < p ? 1 + (uint32_t)(rnd() % (n - 1)) : 0;
    }
    if (*tape_len_ < cap_) tape_[(*tape_len_)++] = v;
    return v;
}
int Case::weighted(std::initializer_list<int> w) {
    int t = 0; for (int x : w) t += x;
    uint32_t n = (uint32_t)w.size(), v;
    if (replay_) { v = pos_ < replay_->size() ? (*replay_)[pos_] : 0; if (v >= n) v %= n; ++pos_; if ((w.begin())[v] == 0) { v = 0; while ((w.begin())[v] == 0) ++v; } }
    else { int r = (int)(rnd() % (unsigned)t); v = 0; for (int x : w) { if (r < x) break; r -= x; ++v; } }
    if (*tape_len_ < cap_) tape_[(*tape_len_)++] = v;
    return (int)v;
}
int Case::small(int hi) {
    uint32_t v;
    if (replay_) { v = pos_ < replay_->size() ? (*replay_)[pos_] : 0; if ((int)v > hi) v %= (uint32_t)(hi + 1); ++pos_; }
    else { double u = (double)(rnd() >> 11) / 9007199254740992.0; v = (uint32_t)(u * u * (hi + 1)); if ((int)v > hi) v = hi; }
    if (*tape_len_ < cap_) tape_[(*tape_len_)++] = v;
    return (int)v;
}
static void mirror_text(Case& c);
void Case::note(const char* fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); int k = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (k > (int)sizeof b - 1) k = sizeof b - 1;
    for (int i = 0; i < k; ++i) { hash_ ^= (unsigned char)b[i]; hash_ *= 1099511628211ull; }
    hash_ ^= '\n'; hash_ *= 1099511628211ull;
    if (text_.size() + k + 2 < 60000) { text_.append(b, k); text_.push_back('\n'); mirror_text(*this); }
    if (g_replay_verbose) { fprintf(stderr, "  %s\n", b); }
}
void Case::label(const char* l) { for (auto x : labels_) if (!strcmp(x, l)) return; labels_.push_back(l); }

// ------------------------------------------------------------------ worker channel
enum { TAPE_CAP = 1 << 18, NLAB = 96, NFP = 4096, MSG = 65536, NSAMP = 3, SAMPLEN = 3000, NKF = 8 };
struct Chan {
    volatile long index;                 // case being executed
    volatile long heartbeat;
    volatile int failed;
    long evals, nontriv, discarded;
    int nlab; char lab[NLAB][48]; long labn[NLAB];
    int nfp; uint64_t fp[NFP];
    int nsamp; char samp[NSAMP][SAMPLEN];
    int nkf; char kf[NKF][64];
    char msg[MSG];
    char text[MSG];
    uint32_t tape_len;
    uint32_t tape[TAPE_CAP];
};
static Chan* g_ch = nullptr;

static size_t g_mirrored = 0;
static void mirror_text(Case& c) {   // survives a crash of the worker
    if (!g_ch) return;
    if (g_mirrored > c.text_.size()) g_mirrored = 0;
    memcpy(g_ch->text + g_mirrored, c.text_.data() + g_mirrored, c.text_.size() - g_mirrored + 1);
    g_mirrored = c.text_.size();
}
static void record_failure(const char* msg) {
    if (g_ch && !g_ch->failed) {
        snprintf(g_ch->msg, MSG, "%s", msg);
        g_ch->failed = 1;
    }
    if (g_replay_verbose) fprintf(stderr, "  FAIL: %s\n", msg);
}
void fail_here(const char* msg) { record_failure(msg); fflush(stderr); _exit(77); }
void Case::fail(const char* fmt, ...) {
    static char b[16384]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fail_here(b);
}
void Case::kf(const char* id) {
    for (int i = 0; i < g_ch->nkf; ++i) if (!strcmp(g_ch->kf[i], id)) return;
    if (g_ch->nkf < NKF) snprintf(g_ch->kf[g_ch->nkf++], 64, "%s", id);
}

static void arm_cpu_timer() {
    struct itimerval it{}; it.it_value.tv_sec = 40; setitimer(ITIMER_PROF, &it, nullptr);
}

static void run_one(const Prop& p, long index, const std::vector<uint32_t>* tape) {
    Case c;
    g_index = index;
    g_ch->index = index; g_ch->heartbeat++;
    g_ch->tape_len = 0; g_ch->text[0] = 0; g_mirrored = 0;
    c.tape_ = g_ch->tape; c.tape_len_ = &g_ch->tape_len; c.cap_ = TAPE_CAP;
    c.replay_ = tape; c.tier_ = g_thorough;
    uint64_t h = 1469598103934665603ull; for (const char* q = p.name; *q; ++q) { h ^= (unsigned char)*q; h *= 1099511628211ull; }
    c.rng_ = mix(mix(g_seed ^ h) + (uint64_t)index * 0xD1342543DE82EF95ull);
    g_case = &c;
    arm_cpu_timer();
    try { p.run(c); }
    catch (CaseEnd&) {}
    catch (std::exception& e) { std::string m = std::string("exception escaped to the harness: ") + e.what(); fail_here(m.c_str()); }
    sim::teardown();
    g_ch->evals++;
    if (c.discarded_) g_ch->discarded++;
    for (auto l : c.labels_) {
        int i = 0; while (i < g_ch->nlab && strcmp(g_ch->lab[i], l)) ++i;
        if (i == g_ch->nlab && i < NLAB) { snprintf(g_ch->lab[i], 48, "%s", l); g_ch->labn[i] = 0; g_ch->nlab++; }
        if (i < g_ch->nlab) g_ch->labn[i]++;
    }
    if (c.nontriv_ && !c.discarded_) {
        g_ch->nontriv++;
        if (g_ch->nfp < NFP) g_ch->fp[g_ch->nfp++] = c.hash_ ^ h;
        if (g_ch->nsamp < 1) snprintf(g_ch->samp[g_ch->nsamp++], SAMPLEN, "%s", c.text_.c_str());
    }
    g_case = nullptr;
}

static Chan* new_chan() {
    void* m = __real_mmap(nullptr, sizeof(Chan), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
    return (Chan*)m;
}
static void clear_chan(Chan* ch) {
    ch->index = -1; ch->failed = 0; ch->evals = ch->nontriv = ch->discarded = 0; ch->nlab = 0; ch->nfp = 0; ch->nsamp = 0; ch->nkf = 0;
    ch->msg[0] = 0; ch->text[0] = 0; ch->tape_len = 0; ch->heartbeat = 0;
}
static double wall() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Result { bool failed = false; std::string msg, text; std::vector<uint32_t> tape; long index = -1; int at = -1; };

static std::string tmpdir;
static void child_setup(int slot) {
    signal(SIGPROF, SIG_DFL);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    std::string f = tmpdir + "/err." + std::to_string(slot);
    if (!g_replay_verbose) {
        int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); __real_close(fd); }
    }
}
static std::string read_err(int slot) {
    std::ifstream in(tmpdir + "/err." + std::to_string(slot)); std::string s((std::istreambuf_iterator<char>(in)), {});
    if (s.size() > 6000) s = s.substr(0, 6000);
    return s;
}
// interprets a finished child
static Result conclude(Chan* ch, int status, int slot, bool stuck) {
    Result r; r.index = ch->index;
    if (stuck) { r.failed = true; r.msg = "case does not terminate (blocked in the operating system)"; }
    else if (ch->failed) { r.failed = true; r.msg = ch->msg; r.text = ch->text; }
    else if (WIFSIGNALED(status)) {
        r.failed = true;
        int sg = WTERMSIG(status);
        if (sg == SIGPROF) r.msg = "case does not terminate (40 s of CPU time)";
        else if (sg == SIGKILL) { r.failed = false; r.msg = "worker killed"; }
        else r.msg = std::string("process died with signal ") + std::to_string(sg) + " (" + strsignal(sg) + ")\n" + read_err(slot);
    } else if (WEXITSTATUS(status) != 0) { r.failed = true; r.msg = "process died with exit status " + std::to_string(WEXITSTATUS(status)) + "\n" + read_err(slot); }
    if (r.failed) { r.tape.assign(ch->tape, ch->tape + ch->tape_len); r.text = ch->text; }
    return r;
}

// Runs candidate tapes in one child until one fails; -1 if none fails.
static Result run_tapes(const Prop& p, long index, const std::vector<std::vector<uint32_t>>& tapes, int slot, Chan* ch, double limit_s) {
    size_t start = 0; Result last;
    while (start < tapes.size()) {
        clear_chan(ch);
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            g_ch = ch; child_setup(slot);
            for (size_t i = start; i < tapes.size(); ++i) { run_one(p, index, &tapes[i]); }
            fflush(stdout); fflush(stderr);
            _exit(0);
        }
        int st; double t0 = wall(); bool stuck = false; long hb = -1;
        for (;;) {
            pid_t w = waitpid(pid, &st, WNOHANG);
            if (w == pid) break;
            if (ch->heartbeat != hb) { hb = ch->heartbeat; t0 = wall(); }
            if (wall() - t0 > limit_s) { kill(pid, SIGKILL); waitpid(pid, &st, 0); stuck = true; break; }
            __real_usleep(200);
        }
        Result r = conclude(ch, st, slot, stuck);
        if (r.failed) { r.at = (int)start + (int)ch->evals; return r; }
        if (r.msg.empty()) return r;      // all passed
        start += ch->evals + 1;           // worker was killed from outside: skip
    }
    return last;
}

static std::string jesc(const std::string& s) {
    std::string o; o.reserve(s.size() + 8);
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t";
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

static Result shrink(const Prop& p, Result best, Chan* ch, int slot, double budget) {
    double t0 = wall();
    auto try_all = [&](std::vector<std::vector<uint32_t>>& cands) -> bool {
        if (cands.empty()) return false;
        Result r = run_tapes(p, best.index, cands, slot, ch, 60);
        if (r.failed) {
            // keep the tape as actually consumed if it is shorter
            std::vector<uint32_t> t = cands[std::min<size_t>(r.at, cands.size() - 1)];
            if (r.tape.size() <= t.size()) t = r.tape;
            while (!t.empty() && t.back() == 0) t.pop_back();
            bool better = t.size() < best.tape.size() || (t.size() == best.tape.size() && t < best.tape);
            if (better) { long idx = best.index; best = r; best.tape = t; best.index = idx; return true; }
        }
        return false;
    };
    while (!best.tape.empty() && best.tape.back() == 0) best.tape.pop_back();
    bool progress = true;
    while (progress && wall() - t0 < budget) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.tape.size() / 2); len >= 1 && wall() - t0 < budget; len /= 2) {
            // delete windows
            bool again = true;
            while (again && wall() - t0 < budget) {
                again = false;
                std::vector<std::vector<uint32_t>> c;
                for (size_t i = 0; i + len <= best.tape.size() && c.size() < 200; i += std::max<size_t>(1, len / 2)) { auto t = best.tape; t.erase(t.begin() + i, t.begin() + i + len); c.push_back(t); }
                if (try_all(c)) { again = progress = true; }
            }
            again = true;
            while (again && wall() - t0 < budget) {       // zero windows
                again = false;
                std::vector<std::vector<uint32_t>> c;
                for (size_t i = 0; i + len <= best.tape.size() && c.size() < 200; i += len) {
                    bool z = true; for (size_t k = 0; k < len; ++k) z = z && best.tape[i + k] == 0;
                    if (z) continue;
                    auto t = best.tape; for (size_t k = 0; k < len; ++k) t[i + k] = 0; c.push_back(t);
                }
                if (try_all(c)) { again = progress = true; }
            }
            if (len == 1) break;
        }
        // lower single values
        std::vector<std::vector<uint32_t>> c;
        for (size_t i = 0; i < best.tape.size() && c.size() < 400; ++i) {
            uint32_t v = best.tape[i]; if (!v) continue;
            for (uint32_t w : {v / 2, v - 1}) if (w < v) { auto t = best.tape; t[i] = w; c.push_back(t); }
        }
        if (wall() - t0 < budget && try_all(c)) progress = true;
    }
    return best;
}

struct Agg { long evals = 0, nontriv = 0, discarded = 0; std::unordered_map<std::string, long> lab; std::unordered_set<uint64_t> fps; std::vector<std::string> samples; std::vector<std::string> kf; };
static void absorb(Agg& a, Chan* ch) {
    a.evals += ch->evals; a.nontriv += ch->nontriv; a.discarded += ch->discarded;
    for (int i = 0; i < ch->nlab; ++i) a.lab[ch->lab[i]] += ch->labn[i];
    for (int i = 0; i < ch->nfp; ++i) a.fps.insert(ch->fp[i]);
    for (int i = 0; i < ch->nsamp && a.samples.size() < 2; ++i) a.samples.push_back(ch->samp[i]);
    for (int i = 0; i < ch->nkf; ++i) if (std::find(a.kf.begin(), a.kf.end(), ch->kf[i]) == a.kf.end()) a.kf.push_back(ch->kf[i]);
}

} // namespace pbt

using namespace pbt;

// Makes the process image deterministic (no address space randomisation).
static void fix_aslr(char** argv) {
    int cur = personality(0xffffffff);
    if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && !getenv("PBT_REEXEC")) {
        if (personality(cur | ADDR_NO_RANDOMIZE) != -1) { setenv("PBT_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
}

int main(int argc, char** argv) {
    fix_aslr(argv);
    std::string out, replay, only, repl_out; int jobs = 8; double budget = 1e9; double scale = 1.0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") g_seed = std::stoull(val());
        else if (a == "--tier") g_thorough = val() == "thorough";
        else if (a == "--jobs") jobs = std::stoi(val());
        else if (a == "--out") out = val();
        else if (a == "--replay") replay = val();
        else if (a == "--replay-out") repl_out = val();
        else if (a == "--budget") budget = std::stod(val());
        else if (a == "--only") only = val();
        else if (a == "--scale") scale = std::stod(val());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    char td[] = "/tmp/pbt.XXXXXX"; if (!mkdtemp(td)) { perror("mkdtemp"); return 2; } tmpdir = td;
    auto cleanup = [&] { std::string c; for (int i = 0; i < 80; ++i) unlink((tmpdir + "/err." + std::to_string(i)).c_str()); rmdir(tmpdir.c_str()); };

    if (!replay.empty()) {
        std::ifstream in(replay); std::string prop, key; long index = 0; std::vector<uint32_t> tape; std::string line;
        while (std::getline(in, line)) {
            if (line.rfind("prop: ", 0) == 0) prop = line.substr(6);
            else if (line.rfind("index: ", 0) == 0) index = std::stol(line.substr(7));
            else if (line.rfind("seed: ", 0) == 0) g_seed = std::stoull(line.substr(6));
            else if (line.rfind("tier: ", 0) == 0) g_thorough = line.substr(6) == "thorough";
            else if (line.rfind("tape:", 0) == 0) { const char* q = line.c_str() + 5; char* e; for (;;) { while (*q == ' ') ++q; if (!*q) break; tape.push_back((uint32_t)strtoul(q, &e, 10)); if (e == q) break; q = e; } }
        }
        for (auto& p : props()) if (prop == p.name) {
            g_replay_verbose = true;
            Result r = run_tapes(p, index, {tape}, 0, new_chan(), 120);
            printf(r.failed ? "REPLAY FAILS: %s\n" : "REPLAY PASSES%s\n", r.failed ? r.msg.c_str() : "");
            cleanup();
            return r.failed ? 1 : 0;
        }
        fprintf(stderr, "no property %s\n", prop.c_str()); cleanup(); return 2;
    }

    double t0 = wall();
    std::string json = "{\"subs\":["; bool first = true; bool violated = false; Result vio; const Prop* vprop = nullptr; long unrepro = 0;
    std::vector<Chan*> chans; for (int j = 0; j < jobs; ++j) chans.push_back(new_chan());
    int nsub = 0; for (auto& p : props()) if (only.empty() || only == p.name) ++nsub;
    int isub = 0;
    for (auto& p : props()) {
        if (!only.empty() && only != p.name) continue;
        ++isub;
        double sub_deadline = t0 + budget * isub / nsub;
        long n = (long)((g_thorough ? p.thorough_cases : p.quick_cases) * scale); if (n < 1) n = 1;
        if ((g_thorough ? p.thorough_cases : p.quick_cases) <= 4) n = g_thorough ? p.thorough_cases : p.quick_cases;
        long chunk = std::max<long>(1, std::min<long>(g_thorough ? 400 : 200, (n + jobs * 2 - 1) / (jobs * 2)));
        if (chunk > NFP) chunk = NFP;
        Agg a; long next = 0; double s0 = wall(); bool cut = false;
        struct Slot { pid_t pid = 0; long lo = 0, hi = 0; long hb = -1; double t = 0; }; std::vector<Slot> slots(jobs);
        Result fail; bool got = false; bool stopping = false;
        for (;;) {
            if (wall() > sub_deadline) { if (next < n) cut = true; stopping = true; }
            int live = 0;
            for (int j = 0; j < jobs; ++j) {
                Slot& s = slots[j];
                if (s.pid == 0 && !got && !stopping && next < n) {
                    s.lo = next; s.hi = std::min(n, next + chunk); next = s.hi;
                    clear_chan(chans[j]); fflush(stdout); fflush(stderr);
                    pid_t pid = fork();
                    if (pid == 0) {
                        g_ch = chans[j]; child_setup(j);
                        for (long k = s.lo; k < s.hi; ++k) {
                            run_one(p, k, nullptr);
                            if ((k & 7) == 0 && wall() > sub_deadline) break;
                        }
                        _exit(0);
                    }
                    s.pid = pid; s.hb = -1; s.t = wall();
                }
                if (s.pid) {
                    ++live; int st; pid_t w = waitpid(s.pid, &st, WNOHANG); bool stuck = false;
                    if (w == 0) {
                        if (chans[j]->heartbeat != s.hb) { s.hb = chans[j]->heartbeat; s.t = wall(); }
                        else if (wall() - s.t > 90) { kill(s.pid, SIGKILL); waitpid(s.pid, &st, 0); stuck = true; w = s.pid; }
                    }
                    if (w == s.pid) {
                        s.pid = 0; absorb(a, chans[j]);
                        Result r = conclude(chans[j], st, j, stuck);
                        if (r.failed && (!got || r.index < fail.index)) { fail = r; got = true; }
                        else if (!r.failed && !r.msg.empty()) ++unrepro;
                    }
                }
            }
            if (live == 0 && (next >= n || got || stopping)) break;
            __real_usleep(300);
        }
        if (got) {
            // confirm, shrink, confirm three times
            Result conf = run_tapes(p, fail.index, {fail.tape}, 0, chans[0], 120);
            if (conf.failed) {
                long idx = fail.index; Result orig = fail;
                if (fail.text.empty()) fail.text = conf.text;
                Result sh = shrink(p, fail, chans[0], 0, g_thorough ? 60 : 20); sh.index = idx;
                int ok = 0; Result last;
                for (int k = 0; k < 3; ++k) { Result r = run_tapes(p, idx, {sh.tape}, 0, chans[0], 120); if (r.failed) { ++ok; last = r; } }
                if (ok < 3) { ok = 0; sh = orig; for (int k = 0; k < 3; ++k) { Result r = run_tapes(p, idx, {sh.tape}, 0, chans[0], 120); if (r.failed) { ++ok; last = r; } } }
                if (ok == 3) { vio = last; vio.tape = sh.tape; vio.index = idx; vprop = &p; violated = true; }
                else { ++unrepro; fprintf(stderr, "unreproducible failure in %s (index %ld): %s\n", p.name, idx, fail.msg.c_str()); }
            } else { ++unrepro; fprintf(stderr, "unreproducible failure in %s (index %ld): %s\n", p.name, fail.index, fail.msg.c_str()); }
        }
        if (!first) json += ","; first = false;
        json += "{\"name\":\"" + std::string(p.name) + "\",\"rule\":\"" + jesc(p.rule) + "\",\"planned\":" + std::to_string(n) +
            ",\"evaluations\":" + std::to_string(a.evals) + ",\"nontrivial\":" + std::to_string(a.nontriv) + ",\"distinct_nontrivial\":" + std::to_string(a.fps.size()) +
            ",\"discarded\":" + std::to_string(a.discarded) + ",\"cut\":" + (cut ? "true" : "false") + ",\"wall_s\":" + std::to_string(wall() - s0) + ",\"labels\":{";
        bool f2 = true; std::vector<std::pair<std::string, long>> ls(a.lab.begin(), a.lab.end()); std::sort(ls.begin(), ls.end());
        for (auto& l : ls) { json += std::string(f2 ? "" : ",") + "\"" + jesc(l.first) + "\":" + std::to_string(l.second); f2 = false; }
        json += "},\"samples\":["; f2 = true;
        for (auto& s : a.samples) { json += std::string(f2 ? "" : ",") + "\"" + jesc(s) + "\""; f2 = false; }
        json += "],\"kf\":["; f2 = true;
        for (auto& s : a.kf) { json += std::string(f2 ? "" : ",") + "\"" + jesc(s) + "\""; f2 = false; }
        json += "]}";
        if (violated) break;
    }
    json += "],\"unreproducible\":" + std::to_string(unrepro) + ",\"violation\":";
    if (violated) {
        json += "{\"sub\":\"" + std::string(vprop->name) + "\",\"index\":" + std::to_string(vio.index) + ",\"msg\":\"" + jesc(vio.msg) + "\"}";
        if (!repl_out.empty()) {
            std::ofstream o(repl_out);
            o << "# replay with: <check binary> --replay <this file>\nprop: " << vprop->name << "\nseed: " << g_seed << "\nindex: " << vio.index << "\ntier: " << (g_thorough ? "thorough" : "quick") << "\ntape:";
            for (auto v : vio.tape) o << ' ' << v;
            o << "\n# failure:\n"; std::string m = vio.msg; size_t pos = 0;
            for (std::string* s : {&m, &vio.text}) { pos = 0; while (pos < s->size()) { size_t e = s->find('\n', pos); if (e == std::string::npos) e = s->size(); o << "#   " << s->substr(pos, e - pos) << "\n"; pos = e + 1; } o << "# case:\n"; }
        }
    } else json += "null";
    json += ",\"wall_s\":" + std::to_string(wall() - t0) + "}";
    if (!out.empty()) { std::ofstream o(out); o << json << "\n"; } else std::cout << json << "\n";
    cleanup();
    return violated ? 1 : 0;
}
