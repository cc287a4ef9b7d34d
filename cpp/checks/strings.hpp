// Participants of a string tensor and generators of texts.
#pragma once
#include "common.hpp"
#include <EigenIPC/StringTensor.hpp>

typedef EigenIPC::StringTensor<EigenIPC::StrServer> SS; typedef EigenIPC::StringTensor<EigenIPC::StrClient> SC;
struct StrPart {
    sim::Box<SS> s; sim::Box<SC> c; int proc = 0; bool server = false, safe = true, up = false;
    bool write(const std::string& x, int i) { return server ? s->write(x, i) : c->write(x, i); }
    bool write(const std::vector<std::string>& x, int i) { return server ? s->write(x, i) : c->write(x, i); }
    bool read(std::string& x, int i) { return server ? s->read(x, i) : c->read(x, i); }
    bool read(std::vector<std::string>& x, int i) { return server ? s->read(x, i) : c->read(x, i); }
    void run() { if (server) s->run(); else c->run(); up = true; }
    void close() { if (server) s->close(); else c->close(); up = false; }
    bool isRunning() { return server ? s->isRunning() : c->isRunning(); }
    int length() { return server ? s->getLength() : c->getLength(); }
    void acquire() { if (server) s->getSharedMem().dataSemAcquire(); else c->getSharedMem().dataSemAcquire(); }
    void release() { if (server) s->getSharedMem().dataSemRelease(); else c->getSharedMem().dataSemRelease(); }
    void destroy() { if (server) s.destroy(); else c.destroy(); up = false; }
};
inline std::string show(const std::string& s) { std::string o = std::to_string(s.size()) + " bytes \""; for (size_t i = 0; i < s.size() && i < 12; ++i) { char b[8]; unsigned char u = s[i]; if (u >= 32 && u < 127) o += (char)u; else { snprintf(b, 8, "\\x%02x", u); o += b; } } return o + (s.size() > 12 ? "...\"" : "\""); }
// a text of n bytes without NUL
inline std::string text_of(Case& c, int n) {
    Case::Stream st = c.stream(); std::string s; int kind = c.draw(4);
    static const char* u[] = {"a", "\xc3\xa8", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "~"};
    if (kind == 0) { for (int i = 0; i < n; ++i) s += (char)('a' + st.next() % 26); return s; }
    if (kind == 1) { while (true) { const char* x = u[st.next() % 5]; if ((int)(s.size() + strlen(x)) > n) break; s += x; } while ((int)s.size() < n) s += 'z'; return s; }
    if (kind == 2) { for (int i = 0; i < n; ++i) s += (char)(1 + st.next() % 255); return s; }
    for (int i = 0; i < n; ++i) { uint64_t r = st.next(); s += (char)(r % 3 == 0 ? 0xff : r % 3 == 1 ? 0x80 : 1); }
    return s;
}
inline int text_len(Case& c) { switch (c.weighted({6, 3, 3, 2})) { case 0: return c.draw(10); case 1: return c.draw(70); case 2: return c.pick(std::vector<int>{1024, 1023, 1022, 1021, 1020, 1019, 0, 4, 8, 1016, 512}); default: return c.draw(1025); } }
inline std::string gen_text(Case& c) { int n = text_len(c); return text_of(c, n); }
