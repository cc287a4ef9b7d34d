// C10: objects with different full names never interact.
// Metamorphic: a history on one name gives the same observations alone and interleaved with a history on another name.
#include "common.hpp"
#include <EigenIPC/StringTensor.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/CondVar.hpp>
#include <set>
using namespace sim;
using namespace EigenIPC;

struct Op { int op; int a, b; uint64_t v; };
typedef std::vector<std::string> Trace;

struct System {
    std::string name, ns; Trace tr; int p1, p2;
    virtual ~System() {}
    void say(const char* fmt, ...) __attribute__((format(printf, 2, 3))) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); tr.push_back(b); }
    virtual void step(const Op& o) = 0;
    virtual void end() = 0;
    template <class F> bool attempt(const char* what, F&& f) { try { f(); return true; } catch (std::exception&) { say("%s: exception", what); return false; } }
};

template <class T> struct TensorSys : System {
    using S = typename T::S; static constexpr int L = T::L;
    Box<Srv<T>> s; Box<Cli<T>> cl[2]; int R = 2, C = 2; bool run = false, held = false; int cp[2];
    TensorSys() { }
    void make(const Op& o) { R = 1 + o.a % 4; C = 1 + o.b % 4; if (attempt("construct server", [&] { s.make(R, C, name, ns, false, VLevel::V0, false, true); })) say("server %dx%d constructed", R, C); }
    void dump(const char* w, bool ok, Tensor<S, L>& t) { std::string x; for (int i = 0; i < t.rows(); ++i) for (int j = 0; j < t.cols(); ++j) x += hex((S)t(i, j)) + " "; say("%s: %d %s", w, ok, x.c_str()); }
    void step(const Op& o) override {
        As as(p1); int k = o.a & 1; cp[0] = p2; cp[1] = p2 + 1; bool cm = (bool)cl[k], att = cm && cl[k]->isAttached();
        switch (o.op % 16) {
        case 0: case 1: if (!s) { make(o); if (s && attempt("run", [&] { s->run(); })) { run = true; say("running"); } } else if (!run) { s->run(); run = s->isRunning(); say("running %d", run); } else goto io; break;
        case 2: if (s && run && !held) { s->stop(); run = false; say("stopped"); } break;
        case 3: if (s && !held && o.v % 3 == 0) { for (auto& x : cl) if (x) { As a2(cp[&x - cl]); x->detach(); } if (o.b & 1) { s->close(); say("closed, clients %d", s->getNClients()); } s.destroy(); run = false; say("server gone"); } break;
        case 4: if (s && run) { As a2(p2 + 1); Box<Srv<T>> r; attempt("rival", [&] { r.make(1, 1, name, ns, false, VLevel::V0, false, true); r->run(); }); } break;
        case 5: case 6: case 7: if (s && run && !held) { As a2(cp[k]); if (!cm) cl[k].make(name, ns, false, VLevel::V0, true); attempt("attach", [&] { cl[k]->attach(); }); say("client %d attached=%d %dx%d", k, cl[k]->isAttached(), cl[k]->getNRows(), cl[k]->getNCols()); } break;
        case 8: if (att && !held) { As a2(cp[k]); if (o.b & 1) cl[k]->detach(); else cl[k]->close(); say("client %d left", k); } break;
        case 9: if (s && !held) say("clients: %d", s->getNClients()); break;
        case 10: if (s && run) { if (held) s->dataSemRelease(); else s->dataSemAcquire(); held = !held; say("lock %d", held); } break;
        case 11: if (s && run && !held) { Box<Client<S, L == RowMajor ? ColMajor : RowMajor>> m; As a2(cp[k]); attempt("mismatching client", [&] { m.make(name, ns, false, VLevel::V0, true); m->attach(); }); m.destroy(); } break;
        default: io: if (s && run) {
            Case::Stream st{o.v}; bool wr = o.b & 1; Tensor<S, L> t(R, C); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) t(i, j) = rnd_val<S>(st);
            if ((o.b & 2) && att) { As a2(cp[k]); bool ok = wr ? cl[k]->write(t) : cl[k]->read(t); dump(wr ? "client writes" : "client reads", ok, t); }
            else { bool ok = wr ? s->write(t) : s->read(t); dump(wr ? "server writes" : "server reads", ok, t); } }
        }
    }
    void end() override {
        if (held) { As as(p1); s->dataSemRelease(); held = false; }
        for (int k = 0; k < 2; ++k) if (cl[k]) { As as(cp[k]); say("client %d attached=%d", k, cl[k]->isAttached()); if (cl[k]->isAttached() && s && run) { Tensor<S, L> t(R, C); bool ok = cl[k]->read(t); dump("client reads finally", ok, t); } cl[k].destroy(); }
        As as(p1); if (s) { if (run) { Tensor<S, L> t(R, C); bool ok = s->read(t); dump("server reads finally", ok, t); } say("clients finally: %d, running %d", s->getNClients(), s->isRunning()); s.destroy(); }
    }
};
struct StrSys : System {
    Box<StringTensor<StrServer>> s; Box<StringTensor<StrClient>> c; int N = 1; bool cr = false;
    void show(const char* w, bool ok, const std::vector<std::string>& v) { std::string x; for (auto& y : v) x += "|" + y; say("%s: %d %s", w, ok, x.c_str()); }
    void step(const Op& o) override {
        As as(p1);
        switch (o.op % 8) {
        case 0: case 1: if (!s) { N = 1 + o.a % 4; if (attempt("construct", [&] { s.make(N, name, ns, false, VLevel::V0, false, true); s->run(); })) say("string server running, length %d", s->getLength()); } else say("running %d, clients %d", s->isRunning(), s->getNClients()); break;
        case 2: case 3: if (s && !cr) { As a2(p2); if (!c) c.make(name, ns, false, VLevel::V0, true); attempt("attach", [&] { c->run(); }); cr = c->isRunning(); say("string client running %d, length %d", cr, c->getLength()); } break;
        case 4: if (o.v % 3 == 0) { if (cr) { As a2(p2); c.destroy(); cr = false; say("client gone"); } if (s) { s.destroy(); say("server gone"); } } break;
        default: { int i = o.a % (N + 1); std::string x = "text" + std::to_string(o.v % 1000); if (!s) break; if (o.b & 1) { bool ok; if (cr && (o.b & 2)) { As a2(p2); ok = c->write(x, i); } else ok = s->write(x, i); say("write %d: %d", i, ok); } else { std::vector<std::string> v(N, "-"); bool ok; if (cr && (o.b & 2)) { As a2(p2); ok = c->read(v, 0); } else ok = s->read(v, 0); show("read", ok, v); } }
        }
    }
    void end() override { if (c) { As a2(p2); std::vector<std::string> v(N, "-"); if (cr && s) show("client reads finally", c->read(v, 0), v); c.destroy(); } As as(p1); if (s) { say("clients %d", s->getNClients()); s.destroy(); } }
};
struct TrigSys : System {
    Box<Producer> p; Box<Consumer> c; bool cr = false, pr = false, seen = true, owed = false;
    void step(const Op& o) override {
        As as(p1);
        switch (o.op % 8) {
        case 0: case 1: if (!pr) { if (attempt("producer", [&] { p.make(name, ns, false, VLevel::V0, false); p->run(); })) { pr = true; say("producer running"); } } break;
        case 2: case 3: if (pr && !cr && seen && !owed) { As a2(p2); if (!c) c.make(name, ns, false, VLevel::V0); if (attempt("consumer", [&] { c->run(); })) { cr = true; say("consumer running"); } } break;
        case 4: if (pr && o.v % 4 == 0) { if (c) { As a2(p2); c.destroy(); cr = false; } p.destroy(); pr = false; seen = true; owed = false; rounds = 0; say("all gone"); } break;
        case 5: if (pr && cr && seen && !owed) { p->trigger(); seen = false; ++rounds; say("trigger"); } break;
        case 6: if (pr && cr) { bool r = false; { As a2(p2); if (attempt("wait", [&] { r = c->wait(3); })) say("wait: %d", r); if (r) { seen = true; say("ack: %d", c->ack()); owed = true; } } } break;
        default: if (pr && cr) { bool r = false; if (attempt("wait for ack", [&] { r = p->wait_ack_from(1, 3); })) say("acks: %d", r); if (r) owed = false; }
        }
        if (rounds && !cr) { if (c) { As a2(p2); c.destroy(); } p.destroy(); pr = false; rounds = 0; seen = true; owed = false; } // consumers run before the first trigger
    }
    int rounds = 0;
    void end() override { { As a2(p2); c.destroy(); } As as(p1); p.destroy(); }
};
struct CondSys : System {
    Box<ConditionVariable> s, c; std::unique_ptr<ConditionVariable::ScopedLock> l; bool by_c = false;
    void step(const Op& o) override {
        As as(p1);
        switch (o.op % 8) {
        case 0: case 1: if (!s) { if (attempt("create", [&] { s.make(true, name, ns, false, VLevel::V0, false); })) say("created"); } else { Box<ConditionVariable> x; As a2(p2); attempt("create again", [&] { x.make(true, name, ns, false, VLevel::V0, false); say("created again"); }); } break;
        case 2: case 3: if (!c && !l) { As a2(p2); if (attempt("open", [&] { c.make(false, name, ns, false, VLevel::V0, false); })) say("opened"); } break;
        case 4: if (s && !l && o.v % 3 == 0) { { As a2(p2); c.destroy(); } s.destroy(); say("gone"); } break;
        case 5: if (s) { if (l) { ConditionVariable::unlock(*l); l.reset(); say("unlocked"); } else { l.reset(new ConditionVariable::ScopedLock(s->lock())); say("locked %d", l->owns()); } } break;
        case 6: if (s && !l && c) { As a2(p2); auto k = c->lock(); say("client locked"); bool r = c->timedwait(k, 2); say("timed wait: %d", r); } break;
        default: if (s) { s->notify_all(); say("notified"); }
        }
    }
    void end() override { { As as(p1); if (l) { ConditionVariable::unlock(*l); l.reset(); } } { As a2(p2); c.destroy(); } As as(p1); s.destroy(); }
};
static System* make(int k) { switch (k) { case 0: return new TensorSys<Ty<int, RowMajor>>; case 1: return new TensorSys<Ty<double, ColMajor>>; case 2: return new StrSys; case 3: return new TrigSys; case 4: return new CondSys; default: return new TensorSys<Ty<float, ColMajor>>; } }
static const char* kind(int k) { static const char* n[] = {"tensor int", "tensor double", "string tensor", "producer/consumer", "condition variable", "tensor float"}; return n[k]; }

typedef std::pair<std::string, std::string> Name;   // basename, namespace
static std::string word(Case& c) { static const std::vector<std::string> w = {"a", "b", "t", "mem", "A", "data", "state_1", "x-y", "9", "very.long.name", "a.b", "x_y", "p:q", "A B"}; std::string s = c.pick(w); if (c.chance(0.25)) s += std::to_string(c.draw(12)); if (c.chance(0.08)) { std::string l; while (l.size() < 60) l += s; s = l; } return s; }
static Name other(Case& c, const Name& a, std::string& rel) {
    Name b = a;
    switch (c.draw(11)) {
        case 0: b.second = word(c); rel = "equal basename"; break;
        case 1: b.first = word(c); rel = "equal namespace"; break;
        case 2: b.first = a.first + word(c); rel = "basename is a prefix"; break;
        case 3: b.second = word(c) + a.second; rel = "namespace is a suffix"; break;
        case 4: std::swap(b.first, b.second); rel = "swapped"; break;
        case 5: b.second = a.second.empty() ? word(c) : ""; rel = "no namespace"; break;
        case 6: { char& z = b.first[b.first.size() - 1]; z = z == '.' ? ',' : z ^ 1; rel = "last character of basename differs"; break; }
        case 7: case 8: case 9: {
            std::string& w = !a.second.empty() && c.draw(2) ? b.second : b.first; static const std::string set = "._-+:,;=~@#%!? aAbBzZ019"; size_t i = c.draw(w.size());
            if (c.chance(0.5)) { static const std::string sep = "._-:+ "; for (size_t k = 0; k < w.size(); ++k) { size_t j = (i + k) % w.size(); if (sep.find(w[j]) != std::string::npos) { i = j; break; } } }
            char o = w[i]; if (isalpha((unsigned char)o) && c.chance(0.4)) w[i] ^= 0x20; else w[i] = set[c.draw(set.size())];
            if (w[i] == o) w[i] = o == 'q' ? 'Q' : 'q';
            rel = "one character differs"; break; }
        default: b = {word(c), word(c)}; rel = "unrelated";
    }
    // names that concatenate to the same text are a known finding and excluded here
    if (b.first.empty()) b.first = "e";
    while (a.second + a.first == b.second + b.first) b.first += "z";
    return b;
}
static void play(Case& c, int ka, int kb, const Name& a, const Name& b, const std::vector<Op>& oa, const std::vector<Op>& ob, const std::vector<char>& who, bool doa, bool dob, bool same_proc, Trace& ta, Trace& tb) {
    reset(c); int q = new_process(); int base[4]; for (int i = 0; i < 4; ++i) base[i] = new_process(); int e1 = new_process(); (void)e1;
    (void)q;
    std::unique_ptr<System> A(make(ka)), B(make(kb)); A->name = a.first; A->ns = a.second; B->name = b.first; B->ns = b.second;
    A->p1 = base[0]; A->p2 = base[1]; B->p1 = same_proc ? base[0] : base[2]; B->p2 = same_proc ? base[1] : base[3];
    End e = solo("histories", base[0], [&] {
        size_t i = 0, j = 0;
        for (char w : who) { if (w == 0) { if (i < oa.size() && doa) A->step(oa[i]); ++i; } else { if (j < ob.size() && dob) B->step(ob[j]); ++j; } }
        if (who.size() && who[0]) { if (doa) A->end(); if (dob) B->end(); } else { if (dob) B->end(); if (doa) A->end(); }
    });
    must_finish(c, e, doa && dob ? "histories on two names" : "history on one name");
    ta = A->tr; tb = B->tr;
}
static void compare(Case& c, const Trace& alone, const Trace& both, const char* which) {
    for (size_t i = 0; i < std::max(alone.size(), both.size()); ++i) {
        std::string x = i < alone.size() ? alone[i] : "(nothing)", y = i < both.size() ? both[i] : "(nothing)";
        CHECK(x == y, "the history on the %s name observes \"%s\" alone, but \"%s\" when the other name is in use (observation %zu)", which, x.c_str(), y.c_str(), i);
    }
}
PROPERTY(isolation, 35000, 1000000, "pairs of different names of every relation (equal basename or namespace, prefix, swapped, one character apart) x kinds of object x interleaved histories; both histories' observations are compared with each history run alone; non-trivial: both histories made at least four observations") {
    int ka = c.weighted({4, 2, 2, 3, 2, 1}), kb = c.chance(0.6) ? ka : c.weighted({4, 2, 2, 3, 2, 1});
    Name a = {word(c), c.chance(0.2) ? "" : word(c)}; std::string rel; Name b = other(c, a, rel);
    if (c.draw(2)) { std::swap(a, b); }
    c.note("%s (\"%s\",\"%s\") and %s (\"%s\",\"%s\")", kind(ka), a.first.c_str(), a.second.c_str(), kind(kb), b.first.c_str(), b.second.c_str());
    int n = 6 + c.draw(c.tier_ ? 60 : 34); std::vector<Op> oa, ob; std::vector<char> who;
    oa.push_back({0, (int)c.draw(16), (int)c.draw(16), c.draw(100)}); ob.push_back({0, (int)c.draw(16), (int)c.draw(16), c.draw(100)}); who = {0, 1};
    if (c.chance(0.3)) who = {1, 0};
    for (int i = 0; i < n; ++i) { Op o{(int)c.draw(16), (int)c.draw(16), (int)c.draw(16), c.draw(1000)}; bool w = c.draw(2); (w ? ob : oa).push_back(o); who.push_back(w); }
    bool same_proc = c.chance(0.3);
    Trace a1, b1, a2, b2, x;
    play(c, ka, kb, a, b, oa, ob, who, true, false, same_proc, a1, x);
    play(c, ka, kb, a, b, oa, ob, who, false, true, same_proc, x, b1);
    play(c, ka, kb, a, b, oa, ob, who, true, true, same_proc, a2, b2);
    compare(c, a1, a2, "first"); compare(c, b1, b2, "second");
    for (auto& s : a1) c.note("first: %s", s.c_str()); for (auto& s : b1) c.note("second: %s", s.c_str());
    if (a1.size() >= 4 && b1.size() >= 4) c.nontrivial();
    static std::set<std::string> keep; c.label(keep.insert(rel).first->c_str());
}
PROPERTY(known_concatenation, 1, 1, "the pair (namespace \"a\", basename \"bc\") and (namespace \"ab\", basename \"c\"): reproduces the known finding; non-trivial: always") {
    reset(c); bool fails = false; c.note("servers on (\"bc\",\"a\") and (\"c\",\"ab\")");
    sequential(c, [&] { Box<Srv<Ty<int, RowMajor>>> x, y; x.make(1, 1, "bc", "a", false, VLevel::V0, false, true); x->run(); try { As as(new_process()); y.make(1, 1, "c", "ab", false, VLevel::V0, false, true); y->run(); y.destroy(); } catch (std::exception&) { fails = true; } x.destroy(); });
    c.nontrivial(); if (fails) c.kf("concatenation");
}
PROPERTY(known_suffix, 1, 1, "a tensor \"t\" and a tensor \"t_sharedTensorNRows\": reproduces the known finding; non-trivial: always") {
    reset(c); bool fails = false; c.note("servers on \"t\" and \"t_sharedTensorNRows\"");
    sequential(c, [&] {
        Box<Srv<Ty<int, RowMajor>>> x, y; x.make(3, 1, "t", "n", false, VLevel::V0, false, true); x->run();
        int yp = new_process(); try { As as(yp); y.make(1, 1, "t_sharedTensorNRows", "n", false, VLevel::V0, false, true); y->run(); } catch (std::exception&) { fails = true; }
        if (!fails) { As as(new_process()); Box<Cli<Ty<int, RowMajor>>> z; try { z.make("t", "n", false, VLevel::V0, true); z->attach(); fails = z->getNRows() != 3; } catch (std::exception&) { fails = true; } z.destroy(); }
        { As as(yp); y.destroy(); } x.destroy(); });
    c.nontrivial(); if (fails) c.kf("suffix");
}

// Programs on different names running at the same time, whose outcome does not depend on the schedule: whatever one
// does, or while one waits, the others proceed.
PROPERTY(parallel, 14000, 600000, "2-3 programs on different names running concurrently in the same or in different processes, each a producer with 1-4 consumers exchanging rounds, a tensor whose participants count in critical sections, or a pair waiting on a condition variable; each must reach the outcome it reaches alone; non-trivial: every program has at least two steps") {
    Options o; o.page_yield = c.chance(0.2); o.p_switch = c.pick(std::vector<double>{0.3, 0.1, 0.6}); reset(c, o);
    int n = 2 + c.draw(2); bool same_proc = c.chance(0.5);
    struct Sys { int kind, members, rounds; std::string name, ns; std::vector<int> pr; Box<Producer> p; std::vector<std::unique_ptr<Box<Consumer>>> c; Box<Srv<Ty<int, RowMajor>>> s; std::vector<std::unique_ptr<Box<Cli<Ty<int, RowMajor>>>>> cl; Box<ConditionVariable> v[2]; int turn = 0, holder = -1, total = 0, done = 0; };
    std::vector<std::unique_ptr<Sys>> sys; Name prev; int shared_p = new_process();
    for (int i = 0; i < n; ++i) {
        std::unique_ptr<Sys> s(new Sys); s->kind = c.weighted({4, 3, 2}); s->members = 1 + c.draw(4); s->rounds = 2 + c.draw(4); Name nm; std::string rel; bool clash = true;
        for (int k = 0; clash; ++k) { nm = i ? other(c, prev, rel) : Name{word(c), word(c)}; if (k > 8) nm.first += std::string(k, 'k'); clash = false; for (auto& x : sys) clash |= x->ns + x->name == nm.second + nm.first; }
        s->name = nm.first; s->ns = nm.second; prev = nm;
        for (int k = 0; k <= s->members; ++k) s->pr.push_back(same_proc ? shared_p : new_process());
        static const char* kn[] = {"producer with consumers", "tensor counter", "condition variable ping-pong"};
        c.note("%s on (\"%s\",\"%s\"), %d members, %d rounds", kn[s->kind], s->name.c_str(), s->ns.c_str(), s->members, s->rounds); sys.push_back(std::move(s));
    }
    for (auto& up : sys) { Sys* s = up.get(); must_finish(c, solo("setup", s->pr[0], [&] {
        if (s->kind == 0) { s->p.make(s->name, s->ns, false, VLevel::V0, false); s->p->run(); for (int k = 0; k < s->members; ++k) { As as(s->pr[k + 1]); s->c.emplace_back(new Box<Consumer>); s->c.back()->make(s->name, s->ns, false, VLevel::V0); (*s->c.back())->run(); } }
        if (s->kind == 1) { s->s.make(1, 1, s->name, s->ns, false, VLevel::V0, false, true); s->s->run(); for (int k = 0; k < s->members; ++k) { As as(s->pr[k + 1]); s->cl.emplace_back(new Box<Cli<Ty<int, RowMajor>>>); s->cl.back()->make(s->name, s->ns, false, VLevel::V0, true); (*s->cl.back())->attach(); } }
        if (s->kind == 2) { s->v[0].make(true, s->name, s->ns, false, VLevel::V0, false); As as(s->pr[1]); s->v[1].make(false, s->name, s->ns, false, VLevel::V0, false); }
    }), "setting up"); }
    for (auto& up : sys) { Sys* s = up.get(); std::string t = s->ns + "/" + s->name;
        if (s->kind == 0) {
            spawn("producer " + t, s->pr[0], [&, s] { for (int r = 0; r < s->rounds; ++r) { s->p->trigger(); CHECK(s->p->wait_ack_from(s->members, 30000), "(%s,%s): the producer waited in vain for %d acknowledgements in round %d, while another name was in use", s->ns.c_str(), s->name.c_str(), s->members, r); } ++s->done; });
            for (int k = 0; k < s->members; ++k) spawn("consumer " + t, s->pr[k + 1], [&, s, k] { for (int r = 0; r < s->rounds; ++r) { CHECK((*s->c[k])->wait(30000), "(%s,%s): consumer %d waited in vain in round %d, while another name was in use", s->ns.c_str(), s->name.c_str(), k, r); (*s->c[k])->ack(); } ++s->done; });
        } else if (s->kind == 1) {
            for (int k = 0; k <= s->members; ++k) spawn("member " + t, s->pr[k], [&, s, k] { Tensor<int> one(1, 1); for (int r = 0; r < s->rounds; ++r) {
                if (k) (*s->cl[k - 1])->dataSemAcquire(); else s->s->dataSemAcquire();
                CHECK(s->holder == -1, "(%s,%s): two hold the data lock", s->ns.c_str(), s->name.c_str()); s->holder = k; ++s->total; yield("in the critical section"); s->holder = -1;
                if (k) (*s->cl[k - 1])->dataSemRelease(); else s->s->dataSemRelease(); } ++s->done; });
        } else {
            for (int k = 0; k < 2; ++k) spawn("ping-pong " + t, s->pr[k], [&, s, k] { for (int r = 0; r < s->rounds; ++r) {
                auto l = s->v[k]->lock(); CHECK(s->holder == -1, "(%s,%s): two hold the lock", s->ns.c_str(), s->name.c_str()); s->holder = k;
                while (s->turn != k) { s->holder = -1; s->v[k]->wait(l); CHECK(s->holder == -1, "(%s,%s): woken without the lock", s->ns.c_str(), s->name.c_str()); s->holder = k; }
                yield("holding the lock"); s->turn = 1 - k; ++s->total; s->holder = -1; s->v[k]->notify_all(); } ++s->done; });
        }
    }
    must_finish(c, run(), "programs on different names");
    must_finish(c, solo("teardown", sys[0]->pr[0], [&] { for (auto& s : sys) {
        int want = s->kind == 0 ? s->members + 1 : s->kind == 1 ? s->members + 1 : 2; CHECK(s->done == want, "(%s,%s): %d of %d members finished", s->ns.c_str(), s->name.c_str(), s->done, want);
        if (s->kind == 1) { As as(s->pr[0]); CHECK(s->total == s->rounds * (s->members + 1), "(%s,%s): %d critical sections", s->ns.c_str(), s->name.c_str(), s->total); CHECK(s->s->getNClients() == s->members, "(%s,%s): the server counts %d clients, %d are attached", s->ns.c_str(), s->name.c_str(), s->s->getNClients(), s->members); }
        for (int k = (int)s->c.size(); k-- > 0;) { As as(s->pr[k + 1]); s->c[k]->destroy(); } for (int k = (int)s->cl.size(); k-- > 0;) { As as(s->pr[k + 1]); s->cl[k]->destroy(); }
        { As as(s->pr[1]); s->v[1].destroy(); } As as(s->pr[0]); s->v[0].destroy(); s->p.destroy(); s->s.destroy(); } }), "tearing down");
    c.nontrivial(); c.label(same_proc ? "all in one process" : "a process each");
}
