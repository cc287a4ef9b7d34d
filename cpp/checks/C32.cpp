// C32: log messages arrive whole, and are thrown exactly when asked for.
#include "quiet.hpp"
#include <EigenIPC/Journal.hpp>
using namespace EigenIPC;

static std::string gen_word(Case& c, bool message) {
    static const std::vector<std::string> special = {"%", "%s", "%n%n%n%n", "%d %f %p", "%%", "%100000d", "\\", "\"", "\n", "\r\n", "\t", "]", "[", "][", "]: ", "a", "Zz", " ", "\xc3\xa9", "\xff", "\x01", "WARN", "EXCEP", "INFO", "STAT", "{}", "0"};
    std::string s; int n = message && c.chance(0.1) ? 200 + c.draw(40000) : c.draw(message ? 60 : 20);
    Case::Stream st = c.stream();
    if (c.chance(0.5)) { while ((int)s.size() < n) s += special[st.next() % special.size()]; } else for (int i = 0; i < n; ++i) s += (char)(32 + st.next() % 95);
    return s;
}
static std::string strip(const std::string& s) { // removes colours
    std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') { size_t j = i + 2; while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == ';')) ++j; if (j < s.size() && s[j] == 'm') { i = j; continue; } } o += s[i]; }
    return o;
}
static std::string brief(const std::string& s) { return s.size() > 120 ? s.substr(0, 120) + "... (" + std::to_string(s.size()) + " bytes)" : s; }
// the text consists of the parts in this order, the message last
static bool carries(std::string t, const std::string& cls, const std::string& method, const char* level, const std::string& msg) {
    t = strip(t); if (t.size() < msg.size() || t.compare(t.size() - msg.size(), msg.size(), msg)) return false; t.resize(t.size() - msg.size());
    size_t a = t.find(cls); if (a == std::string::npos) return false; a = t.find(method, a + cls.size()); if (a == std::string::npos) return false; return t.find(level, a + method.size()) != std::string::npos;
}
PROPERTY(messages, 60000, 3000000, "1-8 messages of every level through a journal object or the static function, class, method and message being any text without NUL (format directives, control characters, brackets, up to 40 KB), thrown or not; non-trivial: two messages of different levels, and one with a format directive or of more than 1000 bytes or thrown") {
    using J = Journal; static const char* names[] = {"WARN", "EXCEP", "INFO", "STAT"}; static const J::LogType types[] = {J::LogType::WARN, J::LogType::EXCEP, J::LogType::INFO, J::LogType::STAT};
    std::string cls = gen_word(c, false); J journal(cls); int n = 1 + c.draw(8), first = -1; bool differ = false, odd = false; Quiet q; size_t seen = 0;
    for (int k = 0; k < n; ++k) {
        int l = c.draw(4); bool thr = c.chance(0.5), stat = c.chance(0.5), omit = !thr && c.chance(0.5); std::string method = gen_word(c, false), msg = gen_word(c, true), own = stat ? gen_word(c, false) : cls;
        c.note("%s %s%s: [%s][%s] %s", stat ? "static" : "object", names[l], thr ? " (throw)" : "", own.c_str(), method.c_str(), brief(msg).c_str());
        if (first < 0) first = l; differ |= l != first; odd |= msg.find('%') != std::string::npos || msg.size() > 1000 || (thr && l == 1);
        bool threw = false; std::string what;
        try { if (stat) { if (omit) J::log(own, method, msg, types[l]); else J::log(own, method, msg, types[l], thr); } else if (omit) journal.log(method, msg, types[l]); else journal.log(method, msg, types[l], thr); }
        catch (const std::runtime_error& e) { threw = true; what = e.what(); }
        std::string out = q.text(); out.erase(0, std::min(seen, out.size())); seen += out.size();
        bool must = thr && l == 1;
        CHECK(threw == must, "a message of level %s, %s to be thrown, was%s thrown", names[l], thr ? "asked" : "not asked", threw ? "" : " not");
        if (must) { CHECK(out.empty(), "a thrown message was printed as well: %s", brief(out).c_str()); CHECK(carries(what, own, method, names[l], msg), "the exception says \"%s\" instead of class \"%s\", method \"%s\", level %s and message \"%s\"", brief(what).c_str(), own.c_str(), method.c_str(), names[l], brief(msg).c_str()); continue; }
        CHECK(!out.empty() && out.back() == '\n', "the printed message does not end with a line end: %s", brief(out).c_str()); out.pop_back();
        CHECK(carries(out, own, method, names[l], msg), "\"%s\" is printed instead of class \"%s\", method \"%s\", level %s and message \"%s\"", brief(out).c_str(), own.c_str(), method.c_str(), names[l], brief(msg).c_str());
        std::string t = strip(out); t.resize(t.size() - msg.size()); std::string rest = strip(t); CHECK(t.size() <= own.size() + method.size() + 40, "more than one message was printed: %s", brief(out).c_str());
        if (!(std::string(names[l]) == J::logTypeToString(types[l]))) CHECK(false, "level %s is called %s", names[l], J::logTypeToString(types[l]));
    }
    if (differ && odd) c.nontrivial();
}
