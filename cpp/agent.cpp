// A C++ process of the checks of py/agents.py: reads commands from descriptor 0, writes replies to descriptor 3.
// Its objects live in the real operating system; py/agents.py has the same commands for Python processes.
#include <EigenIPC/Server.hpp>
#include <EigenIPC/Client.hpp>
#include <EigenIPC/StringTensor.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/CondVar.hpp>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <chrono>
using namespace EigenIPC;
typedef Journal::VLevel VL;
typedef std::istringstream In;

static std::string hex(const void* p, size_t n) {
    static const char* d = "0123456789abcdef"; std::string s = "="; s.reserve(2 * n + 1);
    for (size_t i = 0; i < n; i++) { unsigned char b = ((const unsigned char*)p)[i]; s += d[b >> 4]; s += d[b & 15]; }
    return s;
}
static std::string unhex(const std::string& s) {
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r; for (size_t i = 1; i + 1 < s.size(); i += 2) r += char(v(s[i]) << 4 | v(s[i + 1]));
    return r;
}
template <class T> static T next(In& in) { T t; if (!(in >> t)) throw std::logic_error("agent: missing argument"); return t; }
static std::string text(In& in) { return unhex(next<std::string>(in)); }
static VL vlevel(In& in) { static const VL l[] = {VL::V0, VL::V1, VL::V2, VL::V3}; return l[next<int>(in)]; }

struct Obj {
    virtual ~Obj() {}
    virtual std::string cmd(const std::string& c, In& in) = 0;
};
static std::string unknown() { throw std::logic_error("agent: unknown command"); }
static std::string B(bool b) { return b ? "1" : "0"; }

template <class O> static std::string lifecycle(O& o, const std::string& c, bool& done) {
    done = true;
    if (c == "run") { o.run(); return ""; }
    if (c == "close") { o.close(); return ""; }
    done = false; return "";
}
template <class S, int L, class O> static std::string tensor(O& o, const std::string& c, In& in) {
    if (c == "w") {
        int row = next<int>(in), col = next<int>(in), n = next<int>(in), m = next<int>(in); std::string d = text(in);
        Tensor<S, L> t(n, m); const S* p = (const S*)d.data();
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) std::memcpy(&t(i, j), p + (size_t)i * m + j, sizeof(S));
        return B(o.write(t, row, col));
    }
    if (c == "r") {
        int row = next<int>(in), col = next<int>(in), n = next<int>(in), m = next<int>(in);
        Tensor<S, L> t(n, m); std::memset((void*)t.data(), 1, sizeof(S) * t.size());
        bool ok = o.read(t, row, col);
        std::string d(sizeof(S) * (size_t)n * m, 0); S* p = (S*)d.data();
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) std::memcpy(p + (size_t)i * m + j, &t(i, j), sizeof(S));
        return B(ok) + " " + hex(d.data(), d.size());
    }
    if (c == "sw") {      // writes k whole tensors, each of one value (0/1 for bool), as fast as possible: number of successes
        int k = next<int>(in), v0 = next<int>(in), okn = 0; Tensor<S, L> t(o.getNRows(), o.getNCols());
        for (int i = 0; i < k; i++) { t.setConstant(S((v0 + i) & (sizeof(S) == 1 ? 1 : 0xffffff))); okn += o.write(t, 0, 0); }
        return std::to_string(okn);
    }
    if (c == "sr") {      // reads k whole tensors: successes and those that held more than one value
        int k = next<int>(in), okn = 0, torn = 0; Tensor<S, L> t(o.getNRows(), o.getNCols());
        for (int i = 0; i < k; i++) { t.setZero(); if (o.read(t, 0, 0)) { okn++; torn += (t.array() != t(0, 0)).any(); } }
        return std::to_string(okn) + " " + std::to_string(torn);
    }
    if (c == "inc") {     // k critical sections: the whole tensor holds one number, which is increased; counts other findings
        int k = next<int>(in), bad = 0; Tensor<S, L> t(o.getNRows(), o.getNCols());
        for (int i = 0; i < k; i++) {
            o.dataSemAcquire();
            bad += !o.read(t, 0, 0) || (t.array() != t(0, 0)).any(); t.setConstant(S(t(0, 0) + 1)); bad += !o.write(t, 0, 0);
            o.dataSemRelease();
        }
        return std::to_string(bad);
    }
    if (c == "dims") return std::to_string(o.getNRows()) + " " + std::to_string(o.getNCols());
    if (c == "hold") { o.dataSemAcquire(); return ""; }
    if (c == "free") { o.dataSemRelease(); return ""; }
    return unknown();
}
template <class S, int L> struct Srv : Obj {
    Server<S, L> o;
    Srv(int r, int c, std::string b, std::string n, bool v, VL l, bool f, bool s) : o(r, c, b, n, v, l, f, s) {}
    std::string cmd(const std::string& c, In& in) override {
        bool d; auto r = lifecycle(o, c, d); if (d) return r;
        if (c == "stop") { o.stop(); return ""; }
        if (c == "nc") return std::to_string(o.getNClients());
        if (c == "up") return B(o.isRunning());
        return tensor<S, L>(o, c, in);
    }
};
template <class S, int L> struct Cli : Obj {
    Client<S, L> o;
    Cli(std::string b, std::string n, bool v, VL l, bool s) : o(b, n, v, l, s) {}
    std::string cmd(const std::string& c, In& in) override {
        if (c == "attach") { o.attach(); return ""; }
        if (c == "detach") { o.detach(); return ""; }
        if (c == "close") { o.close(); return ""; }
        if (c == "up") return B(o.isAttached());
        return tensor<S, L>(o, c, in);
    }
};
static std::string longtext(int v) { std::string n = std::to_string(v), s; for (int i = 0; i < 1 + v % 97; i++) s += n + ","; return s; }
template <class M> struct Str : Obj {
    StringTensor<M> o;
    template <class... A> Str(A... a) : o(a...) {}
    std::string cmd(const std::string& c, In& in) override {
        bool d; auto r = lifecycle(o, c, d); if (d) return r;
        if (c == "up") return B(o.isRunning());
        if (c == "len") return std::to_string(o.getLength());
        if (c == "ws") { int i = next<int>(in); return B(o.write(text(in), i)); }
        if (c == "rs") { int i = next<int>(in); std::string s = "old"; bool b = o.read(s, i); return B(b) + " " + hex(s.data(), s.size()); }
        if (c == "wv") { int i = next<int>(in), n = next<int>(in); std::vector<std::string> v; while (n--) v.push_back(text(in)); return B(o.write(v, i)); }
        if (c == "rv") { int i = next<int>(in), n = next<int>(in); std::vector<std::string> v(n, "old"); bool b = o.read(v, i); std::string s = B(b); for (auto& x : v) s += " " + hex(x.data(), x.size()); return s; }
        if (c == "sw") {  // writes k whole vectors of one text each
            int k = next<int>(in), v0 = next<int>(in), okn = 0;
            for (int i = 0; i < k; i++) okn += o.write(std::vector<std::string>(o.getLength(), longtext(v0 + i)), 0);
            return std::to_string(okn);
        }
        if (c == "sr") {  // reads k whole vectors: successes, and those with different texts or one never written
            int k = next<int>(in), okn = 0, torn = 0; std::vector<std::string> v(o.getLength());
            for (int i = 0; i < k; i++) if (o.read(v, 0)) { okn++; bool bad = v[0] != "" && v[0] != longtext(std::atoi(v[0].c_str())); for (auto& x : v) bad |= x != v[0]; torn += bad; }
            return std::to_string(okn) + " " + std::to_string(torn);
        }
        return unknown();
    }
};
struct Prod : Obj {
    Producer o;
    template <class... A> Prod(A... a) : o(a...) {}
    std::string cmd(const std::string& c, In& in) override {
        bool d; auto r = lifecycle(o, c, d); if (d) return r;
        if (c == "trigger") { o.trigger(); return ""; }
        if (c == "loop") { // rounds at full speed: completed ones
            int k = next<int>(in), n = next<int>(in), ms = next<int>(in), okn = 0; for (int i = 0; i < k; i++) { o.trigger(); okn += o.wait_ack_from(n, ms); } return std::to_string(okn);
        }
        if (c == "wack") { int n = next<int>(in), ms = next<int>(in); return B(o.wait_ack_from(n, ms)); }
        return unknown();
    }
};
struct Cons : Obj {
    Consumer o;
    template <class... A> Cons(A... a) : o(a...) {}
    std::string cmd(const std::string& c, In& in) override {
        bool d; auto r = lifecycle(o, c, d); if (d) return r;
        if (c == "loop") {
            int k = next<int>(in), ms = next<int>(in), okn = 0; for (int i = 0; i < k; i++) okn += o.wait(ms) && o.ack(); return std::to_string(okn);
        }
        if (c == "wait") { int ms = next<int>(in); return B(o.wait(ms)); }
        if (c == "ack") return B(o.ack());
        if (c == "wna") { bool ret = next<int>(in); int ms = next<int>(in); int calls = 0; bool b = o.wait_and_ack([&] { calls++; return ret; }, ms); return B(b) + " " + std::to_string(calls); }
        return unknown();
    }
};
template <class F> static Obj* typed(int dt, int lay, F f) {
    switch (dt * 2 + lay) {
    case 0: return f((bool*)0, std::integral_constant<int, RowMajor>());
    case 1: return f((bool*)0, std::integral_constant<int, ColMajor>());
    case 2: return f((int*)0, std::integral_constant<int, RowMajor>());
    case 3: return f((int*)0, std::integral_constant<int, ColMajor>());
    case 4: return f((float*)0, std::integral_constant<int, RowMajor>());
    case 5: return f((float*)0, std::integral_constant<int, ColMajor>());
    case 6: return f((double*)0, std::integral_constant<int, RowMajor>());
    default: return f((double*)0, std::integral_constant<int, ColMajor>());
    }
}
static Obj* make(In& in) {
    std::string k = next<std::string>(in), b = next<std::string>(in), n = next<std::string>(in);
    if (k == "srv") {
        int dt = next<int>(in), lay = next<int>(in), r = next<int>(in), c = next<int>(in); bool v = next<int>(in); VL l = vlevel(in); bool f = next<int>(in), s = next<int>(in);
        return typed(dt, lay, [&](auto* t, auto L) -> Obj* { return new Srv<std::decay_t<decltype(*t)>, decltype(L)::value>(r, c, b, n, v, l, f, s); });
    }
    if (k == "cli") {
        int dt = next<int>(in), lay = next<int>(in); bool v = next<int>(in); VL l = vlevel(in); bool s = next<int>(in);
        return typed(dt, lay, [&](auto* t, auto L) -> Obj* { return new Cli<std::decay_t<decltype(*t)>, decltype(L)::value>(b, n, v, l, s); });
    }
    if (k == "ssrv") { int len = next<int>(in); bool v = next<int>(in); VL l = vlevel(in); bool f = next<int>(in), s = next<int>(in); return new Str<StrServer>(len, b, n, v, l, f, s); }
    if (k == "scli") { bool v = next<int>(in); VL l = vlevel(in); bool s = next<int>(in); return new Str<StrClient>(b, n, v, l, s); }
    if (k == "prod") { bool v = next<int>(in); VL l = vlevel(in); bool f = next<int>(in); return new Prod(b, n, v, l, f); }
    if (k == "cons") { bool v = next<int>(in); VL l = vlevel(in); return new Cons(b, n, v, l); }
    unknown(); return nullptr;
}
int main() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    FILE* in = fdopen(0, "r"); char* line = nullptr; size_t cap = 0;
    std::map<int, std::unique_ptr<Obj>> objs;
    while (getline(&line, &cap, in) > 0) {
        In ss(line); std::string c; int h; ss >> c;
        if (c == "quit") { objs.clear(); ssize_t w = write(3, "r 0\n", 4); return w == 4 ? 0 : 9; }
        ss >> h;
        std::string r; const char* st = "r";
        auto t0 = std::chrono::steady_clock::now();
        try {
            if (c == "new") { objs.erase(h); objs[h].reset(make(ss)); }
            else if (c == "del") objs.erase(h);
            else if (!objs.count(h) || !objs[h]) throw std::logic_error("agent: no such object");
            else r = objs[h]->cmd(c, ss);
        } catch (const std::exception& e) { st = "x"; r = hex(e.what(), std::strlen(e.what())); if (c == "new") objs.erase(h); }
        auto us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
        std::cout.flush();
        std::string o = std::string(st) + " " + std::to_string(us) + " " + r + "\n";
        for (size_t i = 0; i < o.size();) { ssize_t w = write(3, o.data() + i, o.size() - i); if (w <= 0) return 9; i += w; }
    }
    return 0;
}
