// Objects of every kind, driven by (operation, argument) pairs: used by C11 and C31.
#pragma once
#include "common.hpp"
#include <EigenIPC/StringTensor.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/CondVar.hpp>
using namespace sim;
using namespace EigenIPC;

struct Slot;
struct World { Case& c; std::vector<std::unique_ptr<Slot>> slots; };
struct Slot {
    World& w; int proc; std::string name; Res own{0, 0, 0}; int verb; std::string detail;   // results of the last step
    std::vector<std::string> mine;   // system names this object owns
    Slot(World& w_, int p, const std::string& n, int v) : w(w_), proc(p), name(n), verb(v) {}
    virtual ~Slot() {}
    virtual const char* kind() = 0;
    virtual std::string step(int op, int a) = 0;     // text of what was done, "" if nothing
    virtual bool open() = 0;                          // may hold resources
    virtual void destroy() = 0;
    // runs f as the slot's process and books the change of the process' handles on this object
    template <class F> void book(F&& f) { As as(proc); Res a = resources(proc); f(); Res b = resources(proc); own.fds += b.fds - a.fds; own.maps += b.maps - a.maps; own.sems += b.sems - a.sems; }
    std::string leak() { if (own.fds == 0 && own.maps == 0 && own.sems == 0) return ""; char b[200]; snprintf(b, sizeof b, "%d file descriptors, %d mappings, %d semaphore handles", own.fds, own.maps, own.sems); return b; }
    VLevel vl() { return vlevel_of(verb - 1); }
};
static std::vector<std::string> linked_names(const std::string& name) { std::vector<std::string> r; for (auto& x : names()) { size_t k = x.compare(0, 4, "sem:") == 0 ? 4 : 0; if (x[k] == '/') ++k; if (x.compare(k, name.size() + 1, "n" + name) == 0) r.push_back(x); } return r; }
static int linked(const std::string& name, bool& sem) { int n = 0; sem = false; for (auto& x : names()) { size_t k = x.compare(0, 4, "sem:") == 0 ? 4 : 0; if (x[k] == '/') ++k; if (x.compare(k, name.size() + 1, "n" + name) != 0) continue; ++n; if (x.compare(0, 4, "sem:") == 0) sem = true; } return n; }  // namespace "n"

struct TensorServer;
template <class X> static X* live(World& w, const std::string& name) { for (auto& s : w.slots) if (auto* x = dynamic_cast<X*>(s.get())) if (x->name == name && x->alive()) return x; return nullptr; }

typedef Srv<Ty<int, RowMajor>> SI; typedef Cli<Ty<int, RowMajor>> CI; typedef Cli<Ty<double, RowMajor>> CD; typedef Cli<Ty<int, ColMajor>> CC;
struct TensorServer : Slot {
    using Slot::Slot; Box<SI> s; bool run = false, closed = false; int R = 1, C = 1;
    const char* kind() override { return "server"; }
    bool alive() { return (bool)s && !closed; }
    bool open() override { return (bool)s && !closed; }
    void destroy() override { book([&] { s.destroy(); }); run = closed = false; }
    std::string step(int op, int a) override {
        if (!s) { if (op >= 10 || live<TensorServer>(w, name)) return ""; R = 1 + a % 5; C = 1 + a % 3; if (a % 7 == 0) C = 2000; book([&] { s.make(R, C, name, "n", verb > 0, vl(), a % 11 == 0, a % 3 != 0); }); closed = run = false; return "constructed"; }
        switch (op % 12) {
            case 0: case 1: case 2: if (closed) { bool t = false; book([&] { try { s->run(); } catch (std::exception&) { t = true; } if (s->isRunning()) { t = false; } }); w.c.label("run after close"); return t ? "run after close: refused" : "run after close: done"; } book([&] { s->run(); }); run = true; return "run";
            case 3: case 4: book([&] { s->stop(); }); run = false; return "stop";
            case 5: case 6: book([&] { s->close(); }); run = false; closed = true; return "close";
            case 7: destroy(); return "destroyed";
            case 8: book([&] { detail = std::to_string(s->getNClients()); }); return "count";
            case 9: if (!run) return ""; { bool t = false; int p = new_process(); { As as(p); Box<SI> x; try { x.make(1, 1, name, "n", verb > 0, vl(), false, true); x->run(); } catch (std::exception&) { t = true; } x.destroy(); Res r = resources(p); CHECK2(r.fds == 0 && r.maps == 0 && r.sems == 0, "a rejected second server left behind: " + resources_text(p)); } return t ? "rival rejected" : "rival accepted"; }
            default: { book([&] { Tensor<int> t(R, C); t.setConstant(a & 1 ? a : -7); bool ok = a & 1 ? s->write(t) : s->read(t); detail = std::to_string(ok) + ": " + std::to_string(t(0, 0)) + ".." + std::to_string(t(R - 1, C - 1)); }); return "read or write"; }
        }
    }
    void CHECK2(bool b, const std::string& m) { if (!b) w.c.fail("%s", m.c_str()); }
};
template <class K> struct TensorClient : Slot {
    using Slot::Slot; Box<K> c; bool att = false;
    const char* kind() override { return std::is_same<K, CI>::value ? "client" : "mismatching client"; }
    bool alive() { return (bool)c; }
    bool resting = true;   // closed, or never attached
    bool open() override { return (bool)c && !resting; }
    void destroy() override { book([&] { c.destroy(); }); att = false; resting = true; }
    std::string step(int op, int a) override {
        if (!c) { book([&] { c.make(name, "n", verb > 0, vl(), a % 3 != 0); }); return "constructed"; }
        TensorServer* s = live<TensorServer>(w, name);
        switch (op % 9) {
            case 0: case 1: case 2: if (!att && !(s && s->run)) return ""; { bool t = false; resting = false; book([&] { try { c->attach(); } catch (std::exception&) { t = true; } att = c->isAttached(); }); return t ? "attach rejected" : "attach"; }
            case 3: book([&] { c->detach(); }); att = false; return "detach";
            case 4: case 5: book([&] { c->close(); }); att = false; resting = true; return "close";
            case 6: destroy(); return "destroyed";
            default: book([&] { typename K::UniquePtr q; (void)q; }); if (std::is_same<K, CI>::value) book([&] { Tensor<int> t(1, 1); t.setConstant(a & 1 ? a : -7); auto* x = (CI*)&*c; bool ok = a & 1 ? x->write(t) : x->read(t); detail = std::to_string(ok) + ": " + std::to_string(t(0, 0)); }); return "read or write";
        }
    }
};
typedef StringTensor<StrServer> SS; typedef StringTensor<StrClient> SC;
struct StrServerSlot : Slot {
    using Slot::Slot; Box<SS> s; bool run = false, closed = false;
    const char* kind() override { return "string server"; }
    bool alive() { return (bool)s && !closed; }
    bool open() override { return alive(); }
    void destroy() override { book([&] { s.destroy(); }); run = closed = false; }
    std::string step(int op, int a) override {
        if (!s) { if (live<StrServerSlot>(w, name)) return ""; book([&] { s.make(1 + a % 4, name, "n", verb > 0, vl(), false, a % 2 == 0); }); return "constructed"; }
        switch (op % 8) {
            case 0: case 1: case 2: if (closed) return ""; book([&] { s->run(); }); run = true; return "run";
            case 3: case 4: book([&] { s->close(); }); closed = true; run = false; return "close";
            case 5: destroy(); return "destroyed";
            case 6: book([&] { auto&& m = s->getSharedMem(); (void)m.getNRows(); }); return "accessor of the shared memory";
            default: book([&] { std::string x = a & 1 ? std::string(a % 40, 'a' + a % 26) : "old"; int k = a % 7 == 0 ? 77 : 0; bool ok = a & 1 ? s->write(x, k) : s->read(x, k); detail = std::to_string(ok) + ": " + x; }); return "read or write";
        }
    }
};
struct StrClientSlot : Slot {
    using Slot::Slot; Box<SC> s; bool run = false, resting = true;
    const char* kind() override { return "string client"; }
    bool alive() { return (bool)s; }
    bool open() override { return (bool)s && !resting; }
    void destroy() override { book([&] { s.destroy(); }); run = false; resting = true; }
    std::string step(int op, int a) override {
        if (!s) { book([&] { s.make(name, "n", verb > 0, vl(), a % 2 == 0); }); return "constructed"; }
        StrServerSlot* v = live<StrServerSlot>(w, name);
        switch (op % 8) {
            case 0: case 1: case 2: if (!run && !(v && v->run)) return ""; book([&] { s->run(); }); run = true; resting = false; return "run";
            case 3: case 4: book([&] { s->close(); }); run = false; resting = true; return "close";
            case 5: destroy(); return "destroyed";
            case 6: book([&] { auto&& m = s->getSharedMem(); (void)m.getNRows(); }); return "accessor of the shared memory";
            default: book([&] { std::string x = a & 1 ? std::string(a % 40, 'a' + a % 26) : "old"; int k = a % 7 == 0 ? 77 : 0; bool ok = a & 1 ? s->write(x, k) : s->read(x, k); detail = std::to_string(ok) + ": " + x; }); return "read or write";
        }
    }
};
struct ProdSlot : Slot {
    using Slot::Slot; Box<Producer> p; bool run = false, closed = false;
    const char* kind() override { return "producer"; }
    bool alive() { return (bool)p && !closed; }
    bool open() override { return alive(); }
    void destroy() override { book([&] { p.destroy(); }); run = closed = false; }
    std::string step(int op, int a) override {
        if (!p) { if (live<ProdSlot>(w, name)) return ""; book([&] { p.make(name, "n", verb > 0, vl(), a % 5 == 0); }); return "constructed"; }
        switch (op % 7) {
            case 0: case 1: case 2: if (closed) return ""; book([&] { p->run(); }); run = true; return "run";
            case 3: book([&] { p->close(); }); run = false; closed = true; return "close";
            case 4: destroy(); return "destroyed";
            case 5: { bool t = false; book([&] { try { p->trigger(); } catch (std::exception&) { t = true; } }); return t ? "trigger refused" : "trigger"; }
            default: { bool t = false; book([&] { try { detail = std::to_string(p->wait_ack_from(1 + a % 3, 2)); } catch (std::exception&) { t = true; } }); return t ? "waiting for acks refused" : "waiting for acks"; }
        }
    }
};
struct ConsSlot : Slot {
    using Slot::Slot; Box<Consumer> p; bool run = false, resting = true;
    const char* kind() override { return "consumer"; }
    bool alive() { return (bool)p; }
    bool open() override { return (bool)p && !resting; }
    void destroy() override { book([&] { p.destroy(); }); run = false; resting = true; }
    std::string step(int op, int a) override {
        if (!p) { book([&] { p.make(name, "n", verb > 0, vl()); }); return "constructed"; }
        ProdSlot* v = live<ProdSlot>(w, name);
        switch (op % 7) {
            case 0: case 1: case 2: if (!run && !(v && v->run)) return ""; book([&] { p->run(); }); run = true; resting = false; return "run";
            case 3: book([&] { p->close(); }); run = false; resting = true; return "close";
            case 4: destroy(); return "destroyed";
            case 5: { bool t = false; book([&] { try { detail = std::to_string(p->ack()); } catch (std::exception&) { t = true; } }); return t ? "ack refused" : "ack"; }
            default: { bool t = false; book([&] { try { detail = std::to_string(p->wait(2 + a % 3)); } catch (std::exception&) { t = true; } }); return t ? "wait refused" : "wait"; }
        }
    }
};
struct CondSlot : Slot {
    using Slot::Slot; Box<ConditionVariable> p; bool srv = false, closed = false;
    const char* kind() override { return "condition variable"; }
    bool alive() { return (bool)p && srv && !closed; }
    bool open() override { return (bool)p; }
    void destroy() override { book([&] { p.destroy(); }); }
    std::string step(int op, int a) override {
        if (!p) {
            bool other = false; for (auto& s : w.slots) if (auto* x = dynamic_cast<CondSlot*>(s.get())) other |= x->name == name && x->alive();
            srv = a & 1; closed = false; bool t = false; bool force = srv && !other && a % 5 == 0; book([&] { try { p.make(srv, name, "n", verb > 0, vl(), force); } catch (std::exception&) { t = true; } });
            if (t) { p.leak(); return srv ? "creation refused" : "opening refused"; } return srv ? "created" : "opened";
        }
        switch (op % 6) {
            case 0: book([&] { p->close(); }); closed = true; return "close";
            case 1: case 2: destroy(); return "destroyed";
            case 3: book([&] { auto l = p->lock(); detail = std::to_string(p->timedwait(l, 1)); }); return "lock and timed wait";
            case 4: book([&] { p->notify_all(); }); return "notify";
            default: book([&] { auto l = p->lock(); ConditionVariable::unlock(l); }); return "lock, unlock";
        }
    }
};

