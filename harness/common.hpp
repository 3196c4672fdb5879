// Shared monitor/workload plumbing for all harnesses.
#pragma once
#include <openssl/bio.h>
#include <openssl/bn.h>
#include <openssl/conf.h>
#include <openssl/crypto.h>
#include <openssl/ec.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/obj_mac.h>
#include <openssl/objects.h>
#include <openssl/rand.h>
#include <openssl/x509.h>

#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

using Bytes = std::vector<uint8_t>;

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s[4];
    static uint64_t sm(uint64_t &x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 0) { reseed(seed); }
    void reseed(uint64_t seed) { for (auto &v : s) v = sm(seed); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next() {
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    size_t range(size_t a, size_t b) { return a + (size_t)below(b - a + 1); }  // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    uint8_t byte() { return (uint8_t)(next() >> 32); }
    void fill(void *p, size_t n) { auto *c = (uint8_t *)p; for (size_t i = 0; i < n; i++) c[i] = byte(); }
    Bytes bytes(size_t n) { Bytes b(n); fill(b.data(), n); return b; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template <class T> const T &pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
};
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15u + (a << 6)); return Rng::sm(x); }
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto *c = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

inline std::string hex(const uint8_t *p, size_t n) {
    static const char *d = "0123456789abcdef"; std::string s;
    for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    return s;
}
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
inline Bytes unhex(const std::string &s) {
    Bytes b; auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)(v(s[i]) << 4 | v(s[i + 1])));
    return b;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}
inline std::string shorthex(const Bytes &b, size_t n = 48) {
    return b.size() <= n ? hex(b) : hex(b.data(), n / 2) + fmt("..(%zu bytes)..", b.size()) + hex(b.data() + b.size() - n / 4, n / 4);
}

// ---------------------------------------------------------------- run context / reporting
struct Run {
    uint64_t seed = 1; int worker = 0, workers = 1; long cases = 100; bool thorough = false;
    long only = -1;                       // replay a single case
    std::string mode = "main", engine, tmp = ".", repo = "/repo", sigfile;
    std::map<std::string, long> stats;
    std::unordered_set<uint64_t> sigs;
    int nsamples = 0, nviol = 0;
    std::string cur;                      // current case description
    long curcase = -1;
    char *mark = nullptr;                 // mmap'd crash marker
    std::mutex mu;
};
inline Run &run() { static Run r; return r; }

inline void out(const std::string &s0) {
    std::string s = s0;
    for (auto &c : s) if (c == '\n' || c == '\r') c = ' ';
    s += '\n';
    const char *p = s.data(); size_t n = s.size();
    while (n) { ssize_t k = write(1, p, n); if (k <= 0) break; p += k; n -= k; }
}
inline void stat(const std::string &k, long n = 1) { std::lock_guard<std::mutex> g(run().mu); run().stats[k] += n; }
inline void sig(uint64_t h) { std::lock_guard<std::mutex> g(run().mu); run().sigs.insert(h); }
inline void sig(const std::string &s) { sig(fnv(s)); }
inline void sample(const std::string &s) { auto &r = run(); if (r.nsamples < 4) { r.nsamples++; out("SAMPLE " + s); } }
inline void viol(const std::string &key, const std::string &detail) {
    auto &r = run();
    std::lock_guard<std::mutex> g(r.mu);
    if (r.nviol++ < 20)
        out(fmt("VIOL %s\t%ld\t", key.c_str(), r.curcase) + r.cur.substr(0, 1500) + "\t" + detail.substr(0, 1500));
}
#define CHECK(cond, key, ...) do { if (!(cond)) viol(key, fmt(__VA_ARGS__)); } while (0)
[[noreturn]] inline void harness_error(const std::string &m) { out("HARNESS-ERROR " + m); _exit(99); }
inline void desc(const std::string &s) {
    auto &r = run(); r.cur = s;
    if (r.mark) { size_t n = std::min(s.size(), (size_t)3500); memcpy(r.mark + 64, s.data(), n); r.mark[64 + n] = 0; }
}

inline void parse_args(int argc, char **argv) {
    auto &r = run();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() -> std::string { if (i + 1 >= argc) harness_error("arg"); return argv[++i]; };
        if (a == "--seed") r.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--worker") r.worker = atoi(nx().c_str());
        else if (a == "--workers") r.workers = atoi(nx().c_str());
        else if (a == "--cases") r.cases = atol(nx().c_str());
        else if (a == "--only") r.only = atol(nx().c_str());
        else if (a == "--tier") r.thorough = nx() == "thorough";
        else if (a == "--mode") r.mode = nx();
        else if (a == "--engine") r.engine = nx();
        else if (a == "--tmp") r.tmp = nx();
        else if (a == "--repo") r.repo = nx();
        else if (a == "--sigs") r.sigfile = nx();
        else if (a == "--mark") {
            int fd = open(nx().c_str(), O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ftruncate(fd, 4096) == 0) {
                r.mark = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (r.mark == MAP_FAILED) r.mark = nullptr;
            }
        } else harness_error("unknown arg " + a);
    }
}

inline uint64_t case_seed(long i) { return mix(mix(run().seed, fnv(run().mode)), (uint64_t)i + 1); }

// Runs this worker's share of the cases; each case gets its own PRNG so that it replays alone.
inline void for_cases(const std::function<void(long, Rng &)> &f) {
    auto &r = run();
    for (long i = 0; i < r.cases; i++) {
        if (r.only >= 0 ? i != r.only : (i % r.workers) != r.worker) continue;
        r.curcase = i; r.cur.clear();
        if (r.mark) { snprintf(r.mark, 64, "%ld", i); r.mark[64] = 0; }
        Rng g(case_seed(i));
        f(i, g);
        ERR_clear_error();
        stat("cases");
    }
    r.curcase = -1; r.cur = "teardown";
    if (r.mark) { snprintf(r.mark, 64, "-1"); strcpy(r.mark + 64, "teardown"); }
}

inline int finish_run() {
    auto &r = run();
    for (auto &kv : r.stats) out(fmt("STAT %s %ld", kv.first.c_str(), kv.second));
    if (!r.sigfile.empty()) {
        FILE *f = fopen(r.sigfile.c_str(), "wb");
        if (f) { for (uint64_t h : r.sigs) fwrite(&h, 8, 1, f); fclose(f); }
    }
    out("DONE");
    return 0;
}

// ---------------------------------------------------------------- deterministic random source (RAND_METHOD)
struct TestRand {
    Rng g{12345};
    long calls = 0; uint64_t bytes = 0;
    long fail_at = -1;                   // fail the k-th call (0-based) and, if sticky, all later ones
    bool sticky = true; long failed = 0;
    long budget = -1;                    // logical-step watchdog: fail requests after this many calls
    bool tripped = false;
    std::function<bool(unsigned char *, int)> feed;  // optional override
    Bytes *log = nullptr;
    std::mutex mu;
    void reset(uint64_t seed) { g.reseed(seed); calls = 0; bytes = 0; fail_at = -1; sticky = true; failed = 0; budget = -1; tripped = false; feed = nullptr; log = nullptr; }
};
inline TestRand &trand() { static TestRand t; return t; }
inline int trand_bytes(unsigned char *b, int n) {
    auto &t = trand();
    std::lock_guard<std::mutex> lk(t.mu);
    long c = t.calls++;
    if (t.fail_at >= 0 && (t.sticky ? c >= t.fail_at : c == t.fail_at)) { t.failed++; return 0; }
    if (t.budget >= 0 && c >= t.budget) { t.tripped = true; return 0; }
    if (n > 0) t.bytes += n;
    if (!(t.feed && t.feed(b, n))) for (int i = 0; i < n; i++) b[i] = t.g.byte();
    if (t.log) t.log->insert(t.log->end(), b, b + n);
    return 1;
}
inline int trand_status(void) { return 1; }
inline int trand_seed(const void *, int) { return 1; }
inline int trand_add(const void *, int, double) { return 1; }
inline void install_test_rand() {
    static RAND_METHOD m = {trand_seed, trand_bytes, nullptr, trand_add, trand_bytes, trand_status};
    RAND_set_rand_method(&m);
}

// ---------------------------------------------------------------- engine
inline ENGINE *load_engine_handle(const std::string &path) {
    ENGINE *e = ENGINE_by_id("dynamic");
    if (!e) harness_error("no dynamic engine");
    if (!ENGINE_ctrl_cmd_string(e, "SO_PATH", path.c_str(), 0) || !ENGINE_ctrl_cmd_string(e, "ID", "dstu", 0) ||
        !ENGINE_ctrl_cmd_string(e, "LOAD", nullptr, 0)) { ENGINE_free(e); return nullptr; }
    return e;
}
struct Eng { ENGINE *e = nullptr; const EVP_MD *md = nullptr; const EVP_CIPHER *cipher = nullptr; };
inline Eng &eng() { static Eng e; return e; }
inline int finish_run();
// The engine of a correct tree always loads; a tree whose engine does not is reported, not treated as a harness problem.
[[noreturn]] inline void engine_unusable(const char *what) {
    char buf[256]; ERR_error_string_n(ERR_peek_last_error(), buf, sizeof buf);
    viol("engine-unusable", std::string(what) + ": " + buf); finish_run(); _exit(0);
}
inline void init_engine(unsigned defaults = ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND, bool pin = true) {
    OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG | OPENSSL_INIT_ENGINE_DYNAMIC, nullptr);
    ENGINE_load_dynamic();
    // keep the module mapped so that reports after unloading can still be symbolised
    if (pin && !dlopen(run().engine.c_str(), RTLD_NOW | RTLD_NODELETE)) harness_error(std::string("dlopen: ") + dlerror());
    eng().e = load_engine_handle(run().engine);
    if (!eng().e) engine_unusable("engine load failed");
    if (!ENGINE_init(eng().e)) engine_unusable("ENGINE_init failed");
    if (defaults && !ENGINE_set_default(eng().e, defaults)) engine_unusable("ENGINE_set_default failed");
    eng().md = ENGINE_get_digest(eng().e, NID_dstu34311);
    eng().cipher = ENGINE_get_cipher(eng().e, NID_dstu28147_cfb);
    if (!eng().md || !eng().cipher) engine_unusable("engine without digest or cipher");
}
inline void done_engine() {
    if (eng().e) { ENGINE_finish(eng().e); ENGINE_free(eng().e); eng().e = nullptr; }
}

// control codes of the public control.h
#define H_SET_SBOX (EVP_MD_CTRL_ALG_CTRL + 1)
#define H_SET_CURVE (EVP_PKEY_ALG_CTRL + 2)

template <class T, void (*F)(T *)> struct Del { void operator()(T *p) const { F(p); } };
using PKey = std::unique_ptr<EVP_PKEY, Del<EVP_PKEY, EVP_PKEY_free>>;
using PCtx = std::unique_ptr<EVP_PKEY_CTX, Del<EVP_PKEY_CTX, EVP_PKEY_CTX_free>>;
using MCtx = std::unique_ptr<EVP_MD_CTX, Del<EVP_MD_CTX, EVP_MD_CTX_free>>;
using CCtx = std::unique_ptr<EVP_CIPHER_CTX, Del<EVP_CIPHER_CTX, EVP_CIPHER_CTX_free>>;
