// C22: return codes combine and print as sets.
#include "common.hpp"
using namespace EigenIPC;

struct Base { const char* name; ReturnCode code; };
static const std::vector<Base> base = {
#define B(x) {#x, ReturnCode::x}
    B(MEMOPEN), B(MEMOPENFAIL), B(MEMCREAT), B(MEMCREATFAIL), B(MEMSET), B(MEMSETFAIL), B(MEMEXISTS), B(MEMCLEAN), B(MEMFDCLOSED), B(MEMUNLINK),
    B(MEMMAP), B(MEMMAPFAIL), B(INDXOUT), B(NOFIT), B(SEMACQTIMEOUT), B(SEMACQ), B(SEMACQFAIL), B(SEMACQTRY), B(SEMACQRETRY), B(SEMACQSIGINT),
    B(SEMOPEN), B(SEMOPENFAIL), B(SEMREL), B(SEMRELFAIL), B(SEMCLOSE), B(SEMUNLINK), B(WRITEFAIL), B(READFAIL), B(OTHER), B(UNKNOWN)
};
typedef std::set<int> Set;
static std::string text(const Set& s) { std::string t = "{"; for (int i : s) { t += t.size() > 1 ? "," : ""; t += base[i].name; } return t + "}"; }
static std::vector<std::string> words(const std::string& s) {
    std::vector<std::string> w; std::string cur;
    for (char ch : s) if (isalnum((unsigned char)ch) || ch == '_') cur += ch; else { if (!cur.empty()) w.push_back(cur); cur.clear(); }
    if (!cur.empty()) w.push_back(cur);
    return w;
}
static void check_code(Case& c, ReturnCode code, const Set& s) {
    for (size_t i = 0; i < base.size(); ++i) CHECK(isin(base[i].code, code) == (s.count((int)i) > 0), "isin(%s, %s) is %d", base[i].name, text(s).c_str(), isin(base[i].code, code));
    std::string d = getDescriptions(code); std::vector<std::string> got = words(d), want; for (int i : s) want.push_back(base[i].name);
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    CHECK(got == want, "description of %s is \"%s\"", text(s).c_str(), d.c_str());
    CHECK((code == ReturnCode::NONE) == s.empty(), "%s is%s NONE", text(s).c_str(), s.empty() ? " not" : "");
}
PROPERTY(algebra, 900000, 12000000, "programs over four registers of return codes (add, remove, reset, move) next to a model of sets; non-trivial: a removal of a present code and a register with three or more codes") {
    ReturnCode r[4]; Set m[4]; for (int i = 0; i < 4; ++i) r[i] = ReturnCode::NONE;
    int n = 1 + c.draw(c.tier_ ? 60 : 30); bool removed = false, big = false;
    for (int k = 0; k < n; ++k) {
        int a = c.draw(4), b = c.draw(4), i = c.draw((uint32_t)base.size());
        switch (c.weighted({14, 5, 5, 2, 1, 1, 2, 4})) {
            case 0: c.note("r%d += %s", a, base[i].name); r[a] = c.chance(0.5) ? r[a] + base[i].code : base[i].code + r[a]; m[a].insert(i); break;
            case 1: c.note("r%d -= %s", a, base[i].name); removed |= m[a].count(i) > 0; r[a] = r[a] - base[i].code; m[a].erase(i); break;
            case 2: c.note("r%d += r%d", a, b); r[a] = r[a] + r[b]; { Set t = m[b]; m[a].insert(t.begin(), t.end()); } break;
            case 3: c.note("r%d -= r%d", a, b); { Set t = m[b]; r[a] = r[a] - r[b]; for (int x : t) { removed |= m[a].count(x) > 0; m[a].erase(x); } } break;
            case 4: c.note("r%d += RESET", a); r[a] = r[a] + ReturnCode::RESET; m[a].clear(); break;
            case 5: c.note("r%d = RESET + r%d", a, a); r[a] = ReturnCode::RESET + r[a]; m[a].clear(); break;
            case 6: c.note("r%d -= RESET", a); r[a] = r[a] - ReturnCode::RESET; break;
            default: { c.note("isin(r%d, r%d)?", b, a); bool want = std::includes(m[a].begin(), m[a].end(), m[b].begin(), m[b].end()); CHECK(isin(r[b], r[a]) == want, "isin(%s, %s) is %d", text(m[b]).c_str(), text(m[a]).c_str(), !want); }
        }
        big |= m[a].size() >= 3;
        check_code(c, r[a], m[a]);
    }
    for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) {
        CHECK((r[a] == r[b]) == (m[a] == m[b]), "%s and %s compare %s", text(m[a]).c_str(), text(m[b]).c_str(), r[a] == r[b] ? "equal" : "different");
        CHECK(r[a] + r[b] == r[b] + r[a] && (r[a] + r[b]) - r[b] == r[a] - r[b], "algebra broken for %s and %s", text(m[a]).c_str(), text(m[b]).c_str());
        CHECK((toString(r[a]) == toString(r[b])) == (m[a] == m[b]), "numeric texts do not identify the code");
    }
    if (removed && big) c.nontrivial();
}
PROPERTY(every_pair, 1, 1, "all ordered pairs of base codes: added, removed, tested and described; non-trivial: always") {
    c.nontrivial();
    for (size_t i = 0; i < base.size(); ++i) {
        CHECK(getDescription(base[i].code) == base[i].name, "getDescription(%s) is %s", base[i].name, getDescription(base[i].code).c_str());
        check_code(c, base[i].code, {(int)i});
        for (size_t j = 0; j < base.size(); ++j) {
            ReturnCode s = base[i].code + base[j].code; check_code(c, s, {(int)i, (int)j});
            Set d{(int)i}; d.erase((int)j); check_code(c, s - base[j].code, d);
        }
    }
    Set all; ReturnCode r = ReturnCode::NONE; for (size_t i = 0; i < base.size(); ++i) { r = r + base[i].code; all.insert((int)i); check_code(c, r, all); }
    for (size_t i = 0; i < base.size(); ++i) { check_code(c, r - base[i].code, [&] { Set t = all; t.erase((int)i); return t; }()); }
    CHECK(getDescription(ReturnCode::RESET) == "RESET" && getDescription(ReturnCode::NONE) == "NONE", "descriptions of RESET and NONE");
    c.note("%zu base codes", base.size());
}
