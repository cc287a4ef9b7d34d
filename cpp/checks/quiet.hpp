// Captures what is printed.
#pragma once
#include "common.hpp"
#include <iostream>
#include <unistd.h>
#include <sys/mman.h>

// everything printed to the standard streams (stdio, iostream or the descriptors) goes to a memory file meanwhile
struct Quiet {
    int o, e, m;
    Quiet() { std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout); fflush(stderr); m = memfd_create("out", MFD_CLOEXEC); o = fcntl_dup(1); e = fcntl_dup(2); dup2(m, 1); if (!pbt::g_replay_verbose) dup2(m, 2); }
    static int fcntl_dup(int f) { return dup(f); }
    std::string text() { std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout); fflush(stderr); off_t n = lseek(m, 0, SEEK_END); std::string s(n, 0); if (n) { lseek(m, 0, SEEK_SET); n = ::read(m, &s[0], n); lseek(m, 0, SEEK_END); } return s; }
    ~Quiet() { dup2(o, 1); dup2(e, 2); wclose(o); wclose(e); wclose(m); }
    static void wclose(int f);
};
extern "C" int __real_close(int);
inline void Quiet::wclose(int f) { __real_close(f); }

