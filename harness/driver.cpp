// Native side: reads "name|in...|k...|buf" requests, runs the entry point in a forked child, prints the outcome.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <typeinfo>
#include <cxxabi.h>
#include <exception>
#include <new>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include "ctx.h"

#ifndef __has_feature
#define __has_feature(x) 0
#endif
static long long live_blocks = 0;
#if !__has_feature(address_sanitizer) && !defined(NO_COUNT)
// counted, so that a leak can be confirmed
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live_blocks++; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { live_blocks--; free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif

static const int CAP = 1 << 17;

static void run(const std::string& line, bool quiet = false) {
    std::istringstream is(line);
    std::string name, tok;
    is >> name;
    static Ctx c;
    memset(&c, 0, sizeof c);
    std::vector<std::vector<uint32_t>> lim(4);
    std::vector<uint8_t> buf;
    bool leak = name == "leak";
    if (leak) is >> name;
    while (is >> tok) {
        if (tok == "in") {
            int i; long long s; int n;
            is >> i >> s >> n;
            lim[i].resize(n);
            for (int j = 0; j < n; j++) { unsigned long long v; is >> v; lim[i][j] = (uint32_t) v; }
            c.in[i].sign = (int32_t) s; c.in[i].n = n;
        } else if (tok == "k") {
            int i; unsigned long long v;
            is >> i >> v;
            c.k[i] = (int64_t) v;
        } else if (tok == "buf") {
            size_t n; is >> n; buf.resize(n);
            for (size_t j = 0; j < n; j++) { unsigned v; is >> v; buf[j] = (uint8_t) v; }
        }
    }
    for (int i = 0; i < 4; i++) c.in[i].limb = lim[i].data();
    c.buf = buf.data();
    c.len = (int64_t) buf.size();
    std::vector<std::vector<uint32_t>> ol(8, std::vector<uint32_t>(CAP));
    for (int i = 0; i < 8; i++) { c.out[i].limb = ol[i].data(); c.out[i].n = -1; }
    std::vector<uint8_t> ob(CAP * 4);
    c.obuf = ob.data();
    c.olen = -1;
    void (*f)(Ctx*) = (void (*)(Ctx*)) dlsym(RTLD_DEFAULT, name.c_str());
    if (!f) { printf("nofunc\n"); return; }
    if (leak) {
        // twice: what the first call allocates for good (statics) does not count
        long long before[3];
        for (int i = 0; i < 3; i++) {
            before[i] = live_blocks;
            try { f(&c); } catch (...) {}
        }
        printf("leak %lld\n", live_blocks - before[2]);
        return;
    }
    try {
        f(&c);
    } catch (...) {
        const std::type_info* t = abi::__cxa_current_exception_type();
        if (!quiet) printf("throw %s\n", t ? t->name() : "?");
        return;
    }
    if (quiet) return;
    std::string out = "ok";
    char tmp[64];
    for (int i = 0; i < 8; i++) if (c.out[i].n >= 0) {
        snprintf(tmp, sizeof tmp, " out %d %d %d", i, c.out[i].sign, c.out[i].n); out += tmp;
        for (int j = 0; j < c.out[i].n; j++) { snprintf(tmp, sizeof tmp, " %u", ol[i][j]); out += tmp; }
    }
    for (int i = 0; i < 16; i++) { snprintf(tmp, sizeof tmp, " r %d %llu", i, (unsigned long long) c.r[i]); out += tmp; }
    if (c.olen >= 0) {
        snprintf(tmp, sizeof tmp, " obuf %lld", (long long) c.olen); out += tmp;
        long long nb = (name == "h_u32") ? 4 * c.olen : c.olen;
        for (long long j = 0; j < nb; j++) { snprintf(tmp, sizeof tmp, " %u", ob[j]); out += tmp; }
    }
    printf("%s\n", out.c_str());
}

int main(int argc, char** argv) {
    int secs = argc > 1 ? atoi(argv[1]) : 10;
    std::string line;
    while (std::getline(std::cin, line)) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            struct rlimit rl = {(rlim_t) secs, (rlim_t) secs};
            setrlimit(RLIMIT_CPU, &rl);
            rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            if (!getenv("ASAN_OPTIONS")) {
                struct rlimit as = {(rlim_t) 4 << 30, (rlim_t) 4 << 30};
                setrlimit(RLIMIT_AS, &as);
            }
            alarm(secs + 5);
            // "call ; call ; call": the outcome of the last one is printed
            for (size_t e; (e = line.find(" ; ")) != std::string::npos; line.erase(0, e + 3)) run(line.substr(0, e), true);
            run(line);
            fflush(stdout);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) printf("signal %d\n", WTERMSIG(st));
        else if (WEXITSTATUS(st)) printf("exit %d\n", WEXITSTATUS(st));
        printf(".\n");
        fflush(stdout);
    }
}
