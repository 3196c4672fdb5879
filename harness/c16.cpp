// C16: the engine's RAND method. The seed source (RAND_OpenSSL) and time() are interposed, so the reference generator predicts every delivered byte;
// concurrent requests are checked to be a partition of the predicted stream(s).
#include "refec.hpp"
#include <sched.h>
#include <sys/wait.h>
#include <thread>
static std::mutex mu; static std::vector<Bytes> seeds; static Bytes pend; static std::vector<uint64_t> times; static Rng sg(1); static std::atomic<int> fail_bytes{0}, fail_status{0}; static std::atomic<uint64_t> now_v{1}; static std::atomic<long> seed_calls{0}, add_calls{0}, failed{0}; static Bytes last_add; static std::vector<uint64_t> seed_time;
static int s_bytes(unsigned char *b, int n) { std::lock_guard<std::mutex> l(mu); if (fail_bytes > 0) { fail_bytes--; failed++; return 0; } if (fail_bytes < 0) { failed++; return 0; } sg.fill(b, n); pend.insert(pend.end(), b, b + n); while (pend.size() >= 40) { seeds.push_back(Bytes(pend.begin(), pend.begin() + 40)); seed_time.push_back(now_v); pend.erase(pend.begin(), pend.begin() + 40); } return 1; }
static int s_status(void) { if (fail_status > 0) { fail_status--; failed++; return 0; } return fail_status == 0; }
static int s_seed(const void *p, int n) { std::lock_guard<std::mutex> l(mu); seed_calls++; last_add.assign((const uint8_t *)p, (const uint8_t *)p + n); return 1; }
static int s_add(const void *p, int n, double) { std::lock_guard<std::mutex> l(mu); add_calls++; last_add.assign((const uint8_t *)p, (const uint8_t *)p + n); return 1; }
static RAND_METHOD src_meth = {s_seed, s_bytes, nullptr, s_add, s_bytes, s_status};
extern "C" RAND_METHOD *RAND_OpenSSL(void) { return &src_meth; }
extern "C" time_t time(time_t *t) { time_t v = (time_t)now_v.load(); if (t) *t = v; return v; }
static void le64(uint64_t v, uint8_t *o) { for (int i = 0; i < 8; i++) o[i] = (uint8_t)(v >> (8 * i)); }
static ref::Rbg model(size_t i) { uint8_t t[8]; le64(seed_time[i], t); return ref::Rbg(seeds[i].data(), t); }
static const RAND_METHOD *meth() { const RAND_METHOD *m = ENGINE_get_RAND(eng().e); if (!m || !m->bytes || !m->status || !m->cleanup || !m->seed || !m->add || !m->pseudorand) { viol("C16/method", "the engine offers no complete RAND method"); finish_run(); _exit(0); } return m; }
static void fresh(Rng &g) { meth()->cleanup(); std::lock_guard<std::mutex> l(mu); seeds.clear(); seed_time.clear(); pend.clear(); sg.reseed(g.next()); fail_bytes = 0; fail_status = 0; failed = 0; now_v = g.chance(1, 4) ? g.next() >> 1 : g.chance(1, 3) ? g.below(3) : 1700000000ull + g.below(1u << 30); }

// one thread, any history
static void one_seq(long ci, Rng &g) {
    fresh(g); std::unique_ptr<ref::Rbg> m; size_t epochs = 0, pos = 0; std::string h = fmt("time=%llx ", (unsigned long long)now_v.load()); const RAND_METHOD *r = meth(); uint64_t s = 5; size_t nops = g.range(4, 24);
    auto adopt = [&](const char *where) { if (seeds.size() != epochs + 1) { viol("C16/seeding", fmt("%s: %zu seedings happened, expected one of 40 bytes (%zu bytes pending)", where, seeds.size() - epochs, pend.size())); return false; } if (!pend.empty()) { viol("C16/seeding", fmt("%zu bytes beyond the 40 seed bytes taken", pend.size())); return false; } m.reset(new ref::Rbg(model(epochs))); epochs++; pos = 0; stat("seedings"); return true; };
    for (size_t i = 0; i < nops; i++) {
        unsigned op = (unsigned)g.below(100); desc(h);
        if (op < 66) {
            size_t n = g.chance(1, 10) ? 0 : g.chance(1, 12) ? g.range(300, 1500) : g.chance(1, 2) ? g.range(1, 9) : g.range(1, 80); int how = (int)g.below(3); int fb = 0;
            if (!m && g.chance(1, 4)) { fb = 1 + (int)g.below(2); if (fb == 1) fail_bytes = 1; else fail_status = 1; }
            uint8_t *p = (uint8_t *)malloc(n + 16); memset(p, 0xa5, n + 16); h += fmt("bytes(%zu,%d,f%d) ", n, how, fb); desc(h); int rc = how == 0 ? r->bytes(p + 8, (int)n) : how == 1 ? r->pseudorand(p + 8, (int)n) : RAND_bytes(p + 8, (int)n);
            for (int k = 0; k < 8; k++) if (p[k] != 0xa5 || p[8 + n + k] != 0xa5) { viol("C16/overflow", fmt("a request for %zu bytes wrote outside", n)); break; }
            if (fb && how == 2 && n == 0) { fail_bytes = 0; fail_status = 0; }
            if (fb && failed) { failed = 0; if (rc == 1) viol("C16/unseeded", fmt("request succeeded (returned %d) although seeding failed", rc)); stat("failed_seedings"); free(p); s = mix(s, 77 + fb); fail_bytes = fail_status = 0; if (seeds.size() != epochs) { if (!adopt("after failure")) return; } continue; }
            fail_bytes = fail_status = 0;
            if (rc != 1 && !(n == 0 && how == 2)) { viol("C16/failed", fmt("request for %zu bytes returned %d", n, rc)); free(p); return; }
            if (!m && (n || seeds.size() != epochs)) { if (!adopt("first request")) { free(p); return; } }
            if (m) { Bytes w = m->bytes(n); if (n && memcmp(w.data(), p + 8, n)) { viol("C16/stream", fmt("bytes %zu..%zu of the stream are %s, expected %s", pos, pos + n, shorthex(Bytes(p + 8, p + 8 + n)).c_str(), shorthex(w).c_str())); free(p); return; } pos += n; stat("bytes", (long)n); stat("requests"); }
            free(p); s = mix(s, n % 9 + 20 * how);
        } else if (op < 76) { h += "status "; desc(h); int st = r->status(); if (st != 1) viol("C16/status", fmt("status is %d with a working seed source", st)); if (!m && seeds.size() != epochs) { if (!adopt("status")) return; } else if (m && seeds.size() != epochs) { viol("C16/seeding", "status reseeded a live generator"); return; } s = mix(s, 200); }
        else if (op < 82) { h += "cleanup "; desc(h); r->cleanup(); m.reset(); s = mix(s, 201); if (g.chance(1, 2)) now_v = g.next() >> 2; stat("cleanups"); }
        else if (op < 90) { Bytes b = g.bytes(g.chance(1, 4) ? g.range(61, 5000) : g.range(1, 60)); bool add = g.chance(1, 2); h += add ? "add " : "seed "; desc(h); long c0 = add ? add_calls : seed_calls; if (add) r->add(b.data(), (int)b.size(), 3.0); else r->seed(b.data(), (int)b.size()); if ((add ? add_calls : seed_calls) != c0 + 1 || last_add != b) viol("C16/forward", "caller's entropy is not passed on to the seed source"); if (seeds.size() != epochs) { viol("C16/seeding", "add/seed reseeded the generator"); return; } s = mix(s, 202); }
        else if (op < 94) { now_v = g.next() >> 3; h += "clock "; s = mix(s, 203); }      // the clock moving on does not disturb a live generator
        else if (op < 97 && m) { fail_bytes = -1; fail_status = -1; h += "source-down "; desc(h); Bytes b(g.range(1, 40)); int rc = r->bytes(b.data(), (int)b.size()); fail_bytes = fail_status = 0; failed = 0; if (rc == 1) { Bytes w = m->bytes(b.size()); if (w != b) { viol("C16/stream", "the stream changed while the seed source was down"); return; } pos += b.size(); stat("bytes", (long)b.size()); } s = mix(s, 204); }
        else if (!m) { fail_bytes = -1; int k = 1 + (int)g.below(3); h += fmt("down(%d) ", k); desc(h); for (int q = 0; q < k; q++) { Bytes b(g.range(1, 30)); int rc = r->bytes(b.data(), (int)b.size()); if (rc == 1) viol("C16/unseeded", "request succeeded although every seeding fails"); stat("failed_seedings"); } if (r->status() == 1) viol("C16/unseeded-status", "status is 1 although seeding fails"); fail_bytes = 0; failed = 0; s = mix(s, 205); }
    }
    sig(s); if (ci < 2) sample(h);
}
// requests far larger than usual, and very many small ones
static void one_big(long ci, Rng &g) {
    fresh(g); const RAND_METHOD *r = meth(); static const size_t top[] = {70000, (1u << 20) + 1, (1u << 21) + 1, 300000, 3u << 20, (1u << 22) + 1, (1u << 24) + 1, 1u << 23}; size_t n = ci < 0 ? 70000 : top[ci % 8] + g.below(5000); int how = (int)g.below(3); bool small = ci % 8 == 3 || ci % 8 == 0; desc(fmt("%zu bytes in %s, through %d", n, small ? "small requests" : "one request", how)); if (ci < 4) sample(run().cur);
    auto get = [&](uint8_t *p, size_t k) { return how == 0 ? r->bytes(p, (int)k) : how == 1 ? r->pseudorand(p, (int)k) : RAND_bytes(p, (int)k); };
    Bytes b(n + 8, 0xa5); size_t at = 0; while (at < n) { size_t k = small ? std::min<size_t>(n - at, g.range(1, 40)) : n; if (get(&b[at], k) != 1) { viol("C16/failed", fmt("request for %zu bytes failed", k)); return; } at += k; stat("requests"); }
    if (seeds.size() != 1) { viol("C16/seeding", fmt("%zu seedings", seeds.size())); return; } for (int i = 0; i < 8; i++) if (b[n + i] != 0xa5) { viol("C16/overflow", "wrote outside"); return; }
    Bytes c(50); if (get(c.data(), 50) != 1) { viol("C16/failed", "request after a large one failed"); return; } b.resize(n); b.insert(b.end(), c.begin(), c.end());
    ref::Rbg m = model(0); size_t bad = 0, first = 0; for (size_t i = 0; i < b.size(); i++) if (m.byte() != b[i] && !bad++) first = i; if (bad) { viol("C16/stream", fmt("byte %zu of %zu (and %zu more) is not the stream's", first, b.size(), bad - 1)); return; } stat("bytes", (long)b.size()); stat("big_cases"); sig(mix(n, how));
}
// many threads; blocks of at least 12 bytes so that each has one possible place
static void one_mt(long ci, Rng &g) {
    fresh(g); const RAND_METHOD *r = meth(); int nt = (int)g.range(2, 8), per = run().mode == "mtsan" ? (int)g.range(3, 20) : (int)g.range(5, 60); bool cleanups = g.chance(1, 3), via_rand = g.chance(1, 3); int fb = g.chance(1, 4) ? (int)g.range(1, nt * 2) : 0; if (fb) fail_bytes = fb; if (g.chance(1, 3)) { r->status(); }
    desc(fmt("threads=%d requests=%d cleanups=%d fail=%d", nt, per, cleanups, fb)); struct Blk { Bytes b; int th, k; }; std::vector<std::vector<Blk>> got(nt); std::vector<long> fails(nt); std::atomic<int> ready{0}; std::atomic<long> ncl{0}; std::vector<std::thread> th; std::vector<uint64_t> ss; for (int i = 0; i < nt; i++) ss.push_back(g.next()); size_t maxn = g.pick<size_t>({16, 40, 120, 120, 3000, 20000}); if (maxn > 1000) { nt = std::min(nt, 4); per = (int)g.range(3, 6); }   // long requests: the lock has to be held for all of them
    if (run().mode == "mt" && g.chance(1, 16)) { maxn = 200000; nt = 2; per = 2; }
    if (maxn > 1000) { desc(fmt("threads=%d requests=%d cleanups=%d fail=%d, up to %zu bytes", nt, per, cleanups, fb, maxn)); stat("mt_long_cases"); }
    for (int i = 0; i < nt; i++) th.emplace_back([&, i] { Rng q(ss[i]); ready++; while (ready < nt) {} for (int k = 0; k < per; k++) { if (cleanups && q.chance(1, 40)) { r->cleanup(); ncl++; continue; } if (q.chance(1, 20)) { r->status(); continue; } Bytes b(maxn > 1000 ? (q.chance(1, 4) ? q.range(12, 100) : q.range(maxn / 4, maxn)) : q.range(12, maxn)); int rc = via_rand ? RAND_bytes(b.data(), (int)b.size()) : q.chance(1, 2) ? r->bytes(b.data(), (int)b.size()) : r->pseudorand(b.data(), (int)b.size()); if (rc == 1) got[i].push_back({b, i, k}); else fails[i]++; if (q.chance(1, 8)) sched_yield(); } });
    for (auto &t : th) t.join(); fail_bytes = 0;
    long nf = 0; size_t total = 0, blocks = 0; for (int i = 0; i < nt; i++) { nf += fails[i]; for (auto &b : got[i]) total += b.b.size(), blocks++; }
    if (nf > failed) viol("C16/failed", fmt("%ld requests failed, the seed source failed %ld times", nf, (long)failed)); failed = 0;
    if (!cleanups && seeds.size() > 1) viol("C16/reseeded", fmt("%zu seedings in one life", seeds.size())); if (cleanups && (long)seeds.size() > ncl + 1) viol("C16/reseeded", fmt("%zu seedings, %ld clean-ups", seeds.size(), (long)ncl));
    // predicted streams, all windows of 12 bytes
    std::vector<Bytes> st; std::unordered_map<uint64_t, std::pair<size_t, size_t>> idx; auto key8 = [](const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }; for (size_t e = 0; e < seeds.size(); e++) { st.push_back(model(e).bytes(total + 4096 / (1 + seeds.size()))); for (size_t p = 0; p + 12 <= st[e].size(); p++) idx[key8(&st[e][p])] = {e, p}; }
    std::vector<std::vector<std::pair<size_t, size_t>>> iv(st.size()); uint64_t order = 1; std::vector<std::pair<std::pair<size_t, size_t>, int>> seqs;
    for (int i = 0; i < nt; i++) { std::pair<size_t, size_t> last{0, 0}; for (auto &b : got[i]) { auto it = idx.find(key8(b.b.data())); if (it == idx.end() || it->second.second + b.b.size() > st[it->second.first].size() || memcmp(b.b.data(), st[it->second.first].data() + it->second.second, b.b.size())) { viol("C16/not-of-stream", fmt("thread %d received %s, which is no block of the stream", i, shorthex(b.b).c_str())); return; } if (it->second < last) viol("C16/order", "a thread received an earlier part of the stream after a later one"); last = it->second; iv[it->second.first].push_back({it->second.second, it->second.second + b.b.size()}); seqs.push_back({it->second, i}); } }
    for (size_t e = 0; e < iv.size(); e++) { std::sort(iv[e].begin(), iv[e].end()); size_t at = 0; for (auto &x : iv[e]) { if (x.first < at) { viol("C16/repeated", fmt("stream bytes %zu.. delivered twice", x.first)); return; } if (x.first > at) { viol("C16/skipped", fmt("stream bytes %zu..%zu delivered to nobody", at, x.first)); return; } at = x.second; } }
    std::sort(seqs.begin(), seqs.end()); for (auto &x : seqs) order = mix(order, x.second); sig(order); long sw = 0; for (size_t i = 1; i < seqs.size(); i++) sw += seqs[i].second != seqs[i - 1].second; stat("thread_switches", sw); stat("mt_blocks", (long)blocks); stat("mt_failed_requests", nf); stat("mt_epochs", (long)seeds.size()); if (ci < 2) sample(run().cur + fmt(" blocks=%zu switches=%ld", blocks, sw));
}
// the generator as libcrypto's default: everything that draws randomness keeps working and draws from the one stream
static void one_dflt(long ci, Rng &g) {
    fresh(g); desc("default generator"); ENGINE_set_default_RAND(eng().e); RAND_set_rand_method(nullptr); ENGINE_set_default_RAND(eng().e); if (RAND_get_rand_method() != meth()) { viol("C16/default", "the engine's generator does not become libcrypto's default"); return; }
    Bytes b(20); if (RAND_bytes(b.data(), 20) != 1) { viol("C16/failed", "RAND_bytes failed"); return; } if (seeds.size() != 1) { viol("C16/seeding", fmt("%zu seedings", seeds.size())); return; } Bytes str = model(0).bytes(40000); size_t at = 0;
    auto expect = [&](const char *w, bool exact) { auto it = std::search(str.begin() + at, str.end(), b.begin(), b.end()); if (it == str.end() || (exact && it != str.begin() + at)) { viol("C16/stream", fmt("%s: %s is not the next part of the stream", w, hex(b).c_str())); return false; } at = it - str.begin() + b.size(); return true; };
    if (!expect("first", true)) return;
    for (int i = 0; i < 6; i++) {
        std::string w; switch (g.below(4)) {
        case 0: { w = "keygen"; PCtx c(EVP_PKEY_CTX_new_id(NID_dstu4145le, eng().e)); EVP_PKEY *k = nullptr; if (!c || EVP_PKEY_keygen_init(c.get()) != 1 || EVP_PKEY_CTX_ctrl_str(c.get(), "curve", "uacurve0") != 1 || EVP_PKEY_keygen(c.get(), &k) != 1) { viol("C16/keygen", "key generation fails with the engine's generator"); return; } PKey kk(k); Bytes t = g.bytes(32), s = ref::pkey_sign(k, t); if (s.empty() || ref::pkey_verify(k, s, t) != 1) { viol("C16/sign", "signing fails with the engine's generator"); return; } break; }
        case 1: { w = "cipher"; CCtx c(EVP_CIPHER_CTX_new()); Bytes k = g.bytes(32), iv = g.bytes(8), o(64); int n; if (EVP_EncryptInit_ex(c.get(), eng().cipher, eng().e, k.data(), iv.data()) != 1 || EVP_EncryptUpdate(c.get(), o.data(), &n, k.data(), 32) != 1) { viol("C16/cipher", "encryption fails with the engine's generator"); return; } o.resize(n); if (o != ref::cfb(ref::default_sbox(), k, iv, k, true)) viol("C16/cipher", "wrong ciphertext"); break; }
        case 2: { w = "digest"; Bytes m = g.bytes(50), d(32); unsigned n; if (EVP_Digest(m.data(), 50, d.data(), &n, eng().md, eng().e) != 1 || d != ref::hash(m)) viol("C16/digest", "wrong digest"); break; }
        default: w = "plain"; }
        if (RAND_bytes(b.data(), 20) != 1) { viol("C16/failed", "RAND_bytes failed after " + w); return; } if (!expect(w.c_str(), w == "plain" || w == "digest")) return; stat("default_ops"); sig(fmt("d%d", i) + w); if (seeds.size() != 1) { viol("C16/seeding", "reseeded without reason"); return; }
    }
    (void)ci;
}
// forks: the child takes a seed of its own, the parent goes on undisturbed
static Bytes rd_all(int fd) { Bytes b; uint8_t t[4096]; ssize_t n; while ((n = read(fd, t, sizeof t)) > 0) b.insert(b.end(), t, t + n); return b; }
static void one_fork(long ci, Rng &g) {
    fresh(g); const RAND_METHOD *r = meth(); std::string h; Bytes a(g.range(0, 40)), c(g.range(16, 60)); bool live = g.chance(5, 6); int gens = 1 + (int)g.below(2), via = (int)g.below(3), first = (int)g.below(3), fail = (int)g.below(5); h = fmt("seeded=%d before=%zu block=%zu gens=%d via=%d first=%d fail=%d", live, a.size(), c.size(), gens, via, first, fail == 0); desc(h); if (ci < 2) sample(h);
    auto get = [&](Bytes &b) { return via == 0 ? r->bytes(b.data(), (int)b.size()) : via == 1 ? r->pseudorand(b.data(), (int)b.size()) : RAND_bytes(b.data(), (int)b.size()); };
    std::unique_ptr<ref::Rbg> m; if (live) { if (r->status() != 1) { viol("C16/status", "status is not 1"); return; } if (seeds.size() != 1) { viol("C16/seeding", "no seeding"); return; } m.reset(new ref::Rbg(model(0))); if (a.size()) { if (get(a) != 1) { viol("C16/failed", "request failed"); return; } if (m->bytes(a.size()) != a) { viol("C16/stream", "wrong stream before the fork"); return; } } }
    int pf[2]; if (pipe(pf)) exit(70); fflush(nullptr); pid_t pid = fork(); if (pid < 0) exit(70);
    if (!pid) {   // child, perhaps through an intermediate process
        close(pf[0]); if (gens == 2) { pid_t q = fork(); if (q) { int st; if (q > 0) waitpid(q, &st, 0); _exit(0); } }
        size_t n0 = seeds.size(); sg.reseed(0x77aa55 + ci); Bytes out; uint8_t ok = 1; if (fail == 0) { fail_bytes = -1; Bytes x(20); if (get(x) == 1) ok = 9; fail_bytes = 0; }
        if (first == 1 && r->status() != 1) ok = 2; if (first == 2) { Bytes z(1); (void)get(z); Bytes c2(c.size() - 1); if (get(c2) != 1) ok = 3; c = z; c.insert(c.end(), c2.begin(), c2.end()); } else if (get(c) != 1) ok = 3;
        if (ok == 1 && seeds.size() != n0 + 1) ok = 4; if (ok == 1) { Bytes w = model(seeds.size() - 1).bytes(c.size()); if (w != c) ok = 5; } { std::lock_guard<std::mutex> l(mu); } out.push_back(ok); out.insert(out.end(), c.begin(), c.end()); if (write(pf[1], out.data(), out.size()) != (ssize_t)out.size()) _exit(1); _exit(0);
    }
    close(pf[1]); bool early = g.chance(1, 2); Bytes p(c.size()); auto parent = [&] { if (get(p) != 1) { viol("C16/failed", "the parent's request failed after a fork"); return false; } if (!m) m.reset(new ref::Rbg(model(0))); if (seeds.size() != 1 || m->bytes(p.size()) != p) { viol("C16/stream", "the parent's stream changed after a fork"); return false; } return true; };
    bool okp = true; if (early) okp = parent(); Bytes o = rd_all(pf[0]); close(pf[0]); int st; waitpid(pid, &st, 0); if (!early) okp = parent(); if (!okp) return;
    if (o.size() != c.size() + 1) { viol("C16/fork", "the child died"); return; } Bytes q(o.begin() + 1, o.end());
    if (o[0] == 9) viol("C16/fork-unseeded", "a child that cannot seed reports success"); else if (o[0] == 4 || q == p) viol("C16/fork", fmt("a child goes on with its parent's stream: child %s, parent %s", shorthex(q).c_str(), shorthex(p).c_str())); else if (o[0] != 1) viol("C16/fork", fmt("code %d in the child", o[0]));
    stat("forks"); if (live) stat("forks_when_seeded"); sig(mix(mix(live * 8 + gens, via * 4 + first), fail == 0));
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(ENGINE_METHOD_ALL); RAND_set_rand_method(nullptr); ENGINE_set_default_RAND(eng().e);
    if (RAND_get_rand_method() != meth()) viol("C16/default", "the engine's generator does not become libcrypto's default");
    meth()->cleanup(); if (run().mode == "main") for_cases(one_seq); else if (run().mode == "default") for_cases(one_dflt); else if (run().mode == "big") for_cases(one_big); else if (run().mode == "fork") for_cases(one_fork); else for_cases(one_mt);
    meth()->cleanup(); RAND_set_rand_method(nullptr); done_engine(); return finish_run();
}
