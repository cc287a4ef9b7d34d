// Shared generators and oracles of the tensor checks.
#pragma once
#include "sim.hpp"
#include <EigenIPC/Server.hpp>
#include <EigenIPC/Client.hpp>
#include <EigenIPC/Helpers.hpp>
#include <EigenIPC/ReturnCodes.hpp>
#include <EigenIPC/Journal.hpp>
#include <algorithm>
#include <cmath>
#include <climits>

using pbt::Case;
using VLevel = EigenIPC::Journal::VLevel;

template <class S_, int L_> struct Ty { using S = S_; static constexpr int L = L_; };
template <class S> inline const char* tname();
template <> inline const char* tname<float>() { return "float"; }
template <> inline const char* tname<double>() { return "double"; }
template <> inline const char* tname<int>() { return "int"; }
template <> inline const char* tname<bool>() { return "bool"; }
template <class T> std::string tyname() { return std::string(tname<typename T::S>()) + (T::L == EigenIPC::RowMajor ? "/row-major" : "/col-major"); }

// 0..7 -> scalar type x layout
template <class F> void dispatch(int k, F&& f) {
    using namespace EigenIPC;
    switch (k) {
        case 0: f(Ty<int, RowMajor>()); break;   case 1: f(Ty<int, ColMajor>()); break;
        case 2: f(Ty<float, RowMajor>()); break; case 3: f(Ty<float, ColMajor>()); break;
        case 4: f(Ty<double, RowMajor>()); break; case 5: f(Ty<double, ColMajor>()); break;
        case 6: f(Ty<bool, RowMajor>()); break;  default: f(Ty<bool, ColMajor>()); break;
    }
}

template <class S> S bits_to(uint64_t b) { S s; std::memcpy(&s, &b, sizeof(S)); return s; }
template <> inline bool bits_to<bool>(uint64_t b) { return b & 1; }
template <class S> S rnd_val(Case::Stream& st) {
    uint64_t r = st.next();
    if constexpr (std::is_floating_point<S>::value) {
        if ((r & 7) == 1 && (r >> 8) % 3 == 0) return (S)-0.0;                                            // differs from zero in its sign only
        if ((r & 7) == 2 && (r >> 8) % 2 == 0) return (r >> 9) % 2 ? (S)INFINITY : -(S)INFINITY;
    }
    switch (r & 7) { case 0: return (S)(int)((r >> 8) % 5); case 1: return bits_to<S>(0); case 2: return bits_to<S>(~0ull << 20); default: return bits_to<S>(r >> 3); }
}
template <class S> bool same(const S& a, const S& b) { return std::memcmp(&a, &b, sizeof(S)) == 0; }
template <class S> std::string hex(const S& s) { uint64_t v = 0; std::memcpy(&v, &s, sizeof(S)); char b[24]; snprintf(b, 24, "0x%llx", (unsigned long long)v); return b; }

inline VLevel vlevel_of(int i) { return i == 0 ? VLevel::V0 : i == 1 ? VLevel::V1 : i == 2 ? VLevel::V2 : VLevel::V3; }

// The tensor as the specification sees it.
template <class S> struct Model {
    int R = 0, C = 0; std::vector<S> v;   // row by row; vector<bool> is not addressable, see at()
    void init(int r, int c) { R = r; C = c; raw.assign((size_t)r * c, 0); }
    std::vector<uint64_t> raw;
    S get(int i, int j) const { S s; std::memcpy(&s, &raw[(size_t)i * C + j], sizeof(S)); return s; }
    void set(int i, int j, const S& s) { uint64_t u = 0; std::memcpy(&u, &s, sizeof(S)); raw[(size_t)i * C + j] = u; }
    bool fits(long r, long c, long n, long m) const { return r >= 0 && c >= 0 && n >= 0 && m >= 0 && r + n <= R && c + m <= C; }
};

// A caller-side block of one of the supported kinds, surrounded by canary values.
template <class S, int L> struct Block {
    enum Kind { OWNED, SUB, VIEW, STRIDED, NKIND };
    Kind kind = OWNED; int n = 0, m = 0;
    EigenIPC::Tensor<S, L> parent; int r0 = 0, c0 = 0;   // OWNED, SUB, VIEW
    S* buf = nullptr; size_t len = 0; long base = 0, inner = 1, outer = 1;   // STRIDED
    std::vector<uint64_t> snap;
    ~Block() { delete[] buf; }
    Block() = default; Block(const Block&) = delete;
    void gen(Case& c, int n_, int m_) {
        n = n_; m = m_; kind = (Kind)c.draw(NKIND);
        if (kind == VIEW && (n == 0 || m == 0)) kind = SUB;
        Case::Stream st = c.stream();
        if (kind == STRIDED) {
            int in = L == EigenIPC::RowMajor ? m : n, out = L == EigenIPC::RowMajor ? n : m;
            inner = 1 + c.draw(3); outer = inner * std::max(in, 1) + c.draw(4); base = c.draw(4);
            len = base + (size_t)std::max(out, 1) * outer + inner * std::max(in, 1) + 4; buf = new S[len];
            for (size_t i = 0; i < len; ++i) buf[i] = rnd_val<S>(st);
        } else {
            int er = 0, ec = 0; r0 = c0 = 0;
            if (kind != OWNED) { r0 = c.draw(3); c0 = c.draw(3); er = r0 + c.draw(3); ec = c0 + c.draw(3); }
            parent.resize(n + er, m + ec);
            for (int i = 0; i < parent.rows(); ++i) for (int j = 0; j < parent.cols(); ++j) parent(i, j) = rnd_val<S>(st);
        }
        snapshot();
    }
    const char* kindname() const { static const char* k[] = {"owned matrix", "sub-block", "view", "strided map"}; return k[kind]; }
    S* data() { return kind == STRIDED ? buf : parent.data(); }
    size_t size() const { return kind == STRIDED ? len : (size_t)parent.size(); }
    size_t off(int i, int j) const {
        if (kind == STRIDED) return base + (L == EigenIPC::RowMajor ? i * outer + j * inner : j * outer + i * inner);
        return L == EigenIPC::RowMajor ? (size_t)(r0 + i) * parent.cols() + c0 + j : (size_t)(c0 + j) * parent.rows() + r0 + i;
    }
    S at(int i, int j) { return data()[off(i, j)]; }
    void set(int i, int j, const S& s) { data()[off(i, j)] = s; }
    void snapshot() { snap.assign(size(), 0); for (size_t i = 0; i < size(); ++i) std::memcpy(&snap[i], data() + i, sizeof(S)); }
    // every element other than the block is as in the snapshot; the block is as in the snapshot too if !block_may_change
    std::string untouched(bool block_may_change) {
        std::vector<char> in(size(), 0);
        if (block_may_change) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) in[off(i, j)] = 1;
        for (size_t k = 0; k < size(); ++k) if (!in[k]) { S s; std::memcpy(&s, &snap[k], sizeof(S)); if (!same(s, data()[k])) return "caller's buffer changed at linear index " + std::to_string(k) + " (" + hex(s) + " -> " + hex(data()[k]) + ")"; }
        return "";
    }
    template <class O> bool write_to(O& o, int r, int c, bool defaults = false) {
        switch (kind) {
            case OWNED: return defaults && r == 0 && c == 0 ? o.write(parent) : o.write(parent, r, c);
            case SUB: return o.write(parent.block(r0, c0, n, m), r, c);
            case VIEW: { auto v = EigenIPC::helpers::createViewFrom<S, L>(parent, r0, c0, n, m); return o.write(v, r, c); }
            default: { EigenIPC::TensorView<S, L> v(buf + base, n, m, EigenIPC::DStrides(outer, inner)); return o.write(v, r, c); }
        }
    }
    template <class O> bool read_from(O& o, int r, int c, bool defaults = false) {
        switch (kind) {
            case OWNED: return defaults && r == 0 && c == 0 ? o.read(parent) : o.read(parent, r, c);
            case SUB: return o.read(parent.block(r0, c0, n, m), r, c);
            case VIEW: { auto v = EigenIPC::helpers::createViewFrom<S, L>(parent, r0, c0, n, m); return o.read(v, r, c); }
            default: { EigenIPC::TensorView<S, L> v(buf + base, n, m, EigenIPC::DStrides(outer, inner)); return o.read(v, r, c); }
        }
    }
    std::string text() { char b[120]; snprintf(b, sizeof b, "%s %dx%d", kindname(), n, m); return b; }
};

template <class T> using Srv = EigenIPC::Server<typename T::S, T::L>;
template <class T> using Cli = EigenIPC::Client<typename T::S, T::L>;

// reads the whole tensor through a participant, retrying is the caller's business
template <class T, class O> bool read_all(O& o, EigenIPC::Tensor<typename T::S, T::L>& out, int R, int C) { out.resize(R, C); return o.read(out, 0, 0); }
template <class T, class O> std::string differs(O& o, const Model<typename T::S>& m) {
    EigenIPC::Tensor<typename T::S, T::L> t; 
    if (!read_all<T>(o, t, m.R, m.C)) return "reading the whole tensor was refused";
    for (int i = 0; i < m.R; ++i) for (int j = 0; j < m.C; ++j) if (!same((typename T::S)t(i, j), m.get(i, j))) return "element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + hex((typename T::S)t(i, j)) + ", expected " + hex(m.get(i, j));
    return "";
}
inline int gen_dim(Case& c) { switch (c.weighted({10, 4, 1})) { case 0: return 1 + c.draw(6); case 1: return 1 + c.draw(16); default: return 1 + c.draw(90); } }

// now and then a tensor of several hundred kilobytes
inline void huge(Case& c, int& R, int& C) { if (!c.chance(0.003)) return; R = 1 + c.draw(2); C = 30000 + c.draw(50000); if (c.chance(0.5)) std::swap(R, C); c.label("huge tensor"); }

// runs a single sequential task that must come to its end
template <class F> void sequential(Case& c, F&& fn) {
    sim::End e = sim::solo("main", sim::new_process(), std::forward<F>(fn));
    CHECK(e == sim::End::Done, "%s\n%s", e == sim::End::Deadlock ? "blocks forever" : "does not come to an end", sim::report().c_str());
}
inline void must_finish(Case& c, sim::End e, const char* what) {
    CHECK(e == sim::End::Done, "%s: %s\n%s", what, e == sim::End::Deadlock ? "blocks forever" : "does not come to an end", sim::report().c_str());
}
// how many participants: a few, sometimes a crowd
inline int crowd(Case& c, int few) { int n = 1 + (int)c.draw((uint32_t)few); if (c.chance(0.012)) { n = few + 1 + (int)c.draw(28); c.label("a crowd"); } return n; }
