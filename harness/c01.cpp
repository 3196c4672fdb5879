// C01: digest conformance. Oracle: refgost.hpp.
#include "refgost.hpp"
#include "refec.hpp"
#include <setjmp.h>
#include <signal.h>

static Bytes engine_digest(const Bytes &m, const Bytes *sbox, int route, bool &ok) {
    Bytes r(EVP_MAX_MD_SIZE, 0xee); unsigned n = 0;
    MCtx c(EVP_MD_CTX_new());
    ok = true;
    if (route == 1 && !sbox) { ok = EVP_Digest(m.data(), m.size(), r.data(), &n, eng().md, eng().e); }
    else {
        ok = EVP_DigestInit_ex(c.get(), eng().md, eng().e);
        if (ok && sbox) { Bytes t = *sbox; ok = EVP_MD_CTX_ctrl(c.get(), H_SET_SBOX, 64, t.data()) == 1; }
        ok = ok && EVP_DigestUpdate(c.get(), m.data(), m.size()) && EVP_DigestFinal_ex(c.get(), r.data(), &n);
    }
    // the digest must fill exactly 32 bytes
    if (ok && (n != 32 || r[32] != 0xee)) viol("C01/size", fmt("digest size %u", n));
    r.resize(32); return r;
}

static Bytes gen_msg(Rng &g, std::string &kind) {
    size_t len;
    switch (g.below(6)) {
    case 0: len = g.range(0, 70); break;
    case 1: len = 32 * g.range(0, 12) + g.pick<size_t>({0, 0, 1, 31}); break;
    case 2: len = g.range(0, 600); break;
    case 3: len = g.pick<size_t>({0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 8191, 8192, 8193}); break;
    default: len = g.range(0, 4096); break;
    }
    Bytes m = g.bytes(len);
    int k = (int)g.below(9); kind = "rand";
    if (k == 0) { std::fill(m.begin(), m.end(), 0xff); kind = "ff"; }        // maximal carries
    else if (k == 1) { std::fill(m.begin(), m.end(), 0); kind = "00"; }
    else if (k == 2) { for (size_t i = 0; i < m.size(); i++) m[i] = (i % 32) == 0 ? 1 : 0xff; kind = "carry"; }
    else if (k == 3) {  // sum block wraps: first block ff.., second 00..01 at a random limb, so the carry ripples to the top
        kind = "ripple"; std::fill(m.begin(), m.end(), 0);
        size_t p = g.below(32);
        for (size_t i = 0; i < m.size(); i++) { size_t b = i / 32, j = i % 32; m[i] = (b % 2 == 0) ? (j >= p ? 0xff : 0) : (j == p ? 1 : 0); }
    } else if (k == 4) { for (auto &b : m) b = g.chance(1, 2) ? 0x80 : 0x7f; kind = "sign"; }
    else if (k == 5) { Bytes blk = g.bytes(32); for (size_t i = 0; i < m.size(); i++) m[i] = blk[i % 32]; kind = "repeat"; }
    else if (k == 6 && len) { std::fill(m.begin(), m.end(), 0); m[g.below(len)] = 1 << g.below(8); kind = "onebit"; }
    return m;
}

// several tables one after the other on one or two contexts, many of them equal in all but a few bytes and handed over in the same buffer
static void table_sequence(Rng &g, const Bytes &m) {
    ref::TableFeed tf; MCtx c[2] = {MCtx(EVP_MD_CTX_new()), MCtx(EVP_MD_CTX_new())}; Bytes cur[2]; std::string h; uint64_t s = 3;
    for (int j = 0; j < 2; j++) { if (EVP_DigestInit_ex(c[j].get(), eng().md, eng().e) != 1) { viol("C01/refused", "init failed"); return; } cur[j] = ref::default_sbox(); }
    size_t n = g.range(2, 7);
    for (size_t k = 0; k < n; k++) {
        int j = (int)g.below(2);
        if (g.chance(1, 6)) { EVP_DigestInit_ex(c[j].get(), eng().md, eng().e); cur[j] = ref::default_sbox(); h += fmt("init(%d) ", j); s = mix(s, 9); continue; }
        Bytes t = tf.next(g); h += fmt("table(%d,%s) ", j, hex(t).c_str()); desc("tables in sequence: " + h);
        if (EVP_MD_CTX_ctrl(c[j].get(), H_SET_SBOX, 64, tf.pass(g, t)) != 1) { viol("C01/refused", "table refused"); return; }
        tf.scribble(); cur[j] = t; s = mix(s, j + 1); stat("tables_in_sequence");
    }
    for (int j = 0; j < 2; j++) {
        Bytes r(64); unsigned l = 0; EVP_DigestUpdate(c[j].get(), m.data(), m.size()); EVP_DigestFinal_ex(c[j].get(), r.data(), &l); r.resize(32);
        CHECK(r == ref::hash(m, cur[j]), "C01/table-sequence", "context %d: digest is not the one under the table set last", j);
    }
    sig(s); stat("route_tables");
}
static void one(long i, Rng &g) {
    std::string kind; Bytes m = gen_msg(g, kind);
    if (g.chance(1, 5)) { table_sequence(g, m); return; }
    int route = (int)g.below(4);            // 0 init/update/final, 1 EVP_Digest, 2 sbox ctrl, 3 key-carried sbox
    Bytes sb = ref::default_sbox(); bool custom = false;
    if (route >= 2) { sb = ref::random_sbox(g); custom = true; }
    desc(fmt("hash kind=%s len=%zu route=%d sbox=%s msg=", kind.c_str(), m.size(), route, custom ? hex(sb).c_str() : "default") + shorthex(m, 200));
    if (route <= 2) {
        bool ok; Bytes got = engine_digest(m, custom ? &sb : nullptr, route, ok);
        if (!ok) { viol("C01/refused", "digest operation failed"); return; }
        Bytes want = ref::hash(m, sb);
        CHECK(got == want, "C01/value", "got %s want %s", hex(got).c_str(), hex(want).c_str());
        stat(fmt("route%d", route));
    } else {
        // a key carrying a table: the digest inside DigestSign/DigestVerify must use it. The signature is checked
        // against the reference hash with that table by an independent verification equation.
        static std::vector<ref::Curve *> cs = {ref::named(0), ref::named(1), ref::named(4)};
        ref::Curve *c = cs[g.below(cs.size())];
        bool le = g.chance(1, 2), viacopy = g.chance(1, 3);
        ref::Bn d = ref::rand_scalar(g, c->n);
        PKey k(ref::decode_priv(*c, d, le, &sb));
        if (!k) { viol("C01/keyload", "key with table refused"); return; }
        MCtx ctx(EVP_MD_CTX_new()), ctx2(EVP_MD_CTX_new());
        size_t sl = 512; Bytes sg(512);
        bool ok = EVP_DigestSignInit(ctx.get(), nullptr, g.chance(1, 2) ? eng().md : nullptr, nullptr, k.get()) == 1;
        size_t cut = g.below(m.size() + 1);
        ok = ok && EVP_DigestSignUpdate(ctx.get(), m.data(), cut) == 1;
        EVP_MD_CTX *use = ctx.get();
        if (ok && viacopy) { ok = EVP_MD_CTX_copy_ex(ctx2.get(), ctx.get()) == 1; use = ctx2.get(); }
        ok = ok && EVP_DigestSignUpdate(use, m.data() + cut, m.size() - cut) == 1 && EVP_DigestSignFinal(use, sg.data(), &sl) == 1;
        if (!ok) { viol("C01/signfail", "DigestSign with table key failed"); return; }
        sg.resize(sl);
        ref::Sig s; Bytes want = ref::hash(m, sb);
        ref::Pt Q = ref::pub_of(*c, d);
        bool good = ref::parse_sig(*c, sg, le, s) && ref::verify(*c, Q, want, s);
        CHECK(good, "C01/keytable", "signature does not match the digest under the key's table");
        if (sb != ref::default_sbox()) {
            bool defgood = ref::verify(*c, Q, ref::hash(m), s);
            CHECK(!defgood, "C01/keytable-ignored", "signature is over the default-table digest");
        }
        MCtx v(EVP_MD_CTX_new());
        int vr = EVP_DigestVerifyInit(v.get(), nullptr, eng().md, nullptr, k.get()) == 1 ? EVP_DigestVerify(v.get(), sg.data(), sg.size(), m.data(), m.size()) : -9;
        CHECK(vr == 1, "C01/keytable-verify", "verify of own signature returned %d", vr);
        stat("route_key");
    }
    sig(fmt("%s/%zu/%d/", kind.c_str(), m.size() % 64 + (m.size() > 600 ? 64 : 0), route) + hex(custom ? Bytes(sb.begin(), sb.begin() + 4) : Bytes()));
    if (i < 3) sample(run().cur);
}

// one huge update through a guarded mapping: the digest has to walk past 2^31 and 2^32 byte offsets' worth of length;
// we only let it touch the first chunk and catch the fault that proves it did not stop early.
static sigjmp_buf jb; static volatile char *fault_addr;
static void on_segv(int, siginfo_t *si, void *) { fault_addr = (volatile char *)si->si_addr; siglongjmp(jb, 1); }
static void huge_progress() {
    // plain build only (ASan reports the fault itself)
    for (size_t len : {(size_t)1 << 31, ((size_t)1 << 31) + 40, ((size_t)1 << 32), ((size_t)1 << 32) + 33, ((size_t)1 << 32) + 8 * 1024 * 1024}) {
        for (int pre = 0; pre < 2; pre++) {
            const size_t open_bytes = 1 << 20;
            desc(fmt("single update of %zu bytes, pre-buffered=%d", len, pre));
            run().curcase = 900000;
            char *p = (char *)mmap(0, len + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) { stat("huge_mmap_failed"); continue; }
            if (mprotect(p, open_bytes, PROT_READ | PROT_WRITE)) { munmap(p, len + 4096); continue; }
            memset(p, 0x5a, open_bytes);
            struct sigaction sa, old, oldb; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
            sigaction(SIGSEGV, &sa, &old); sigaction(SIGBUS, &sa, &oldb);
            EVP_MD_CTX *c = EVP_MD_CTX_new();
            EVP_DigestInit_ex(c, eng().md, eng().e);
            if (pre) EVP_DigestUpdate(c, "abcde", 5);
            fault_addr = nullptr; bool returned = false; int rc = -1;
            if (sigsetjmp(jb, 1) == 0) { rc = EVP_DigestUpdate(c, p, len); returned = true; }
            sigaction(SIGSEGV, &old, nullptr); sigaction(SIGBUS, &oldb, nullptr);
            if (returned) CHECK(rc != 1, "C01/huge-update", "update of %zu bytes claimed success without reading beyond the first %zu bytes", len, open_bytes);
            else {
                CHECK((char *)fault_addr >= p + open_bytes && (char *)fault_addr < p + len, "C01/huge-update", "fault at unexpected offset %zd", (char *)fault_addr - p);
                stat("huge_progress_seen"); sig(fmt("huge%zu/%d", len, pre));
            }
            EVP_MD_CTX_free(c);
            munmap(p, len + 4096);
        }
    }
}
static void big_message(uint64_t total, size_t piece, const char *golden = nullptr) {
    desc(fmt("message of %llu bytes in pieces of %zu", (unsigned long long)total, piece)); run().curcase = 900001;
    Rng g(77 + total); Bytes b = g.bytes(piece);
    MCtx c(EVP_MD_CTX_new()); EVP_DigestInit_ex(c.get(), eng().md, eng().e);
    ref::Hash h(ref::default_sbox());
    for (uint64_t left = total; left;) {
        size_t n = (size_t)std::min<uint64_t>(left, piece);
        EVP_DigestUpdate(c.get(), b.data(), n); if (!golden) h.update(b.data(), n); left -= n; b[left % piece] ^= 0x11;
    }
    Bytes r(32); unsigned n; EVP_DigestFinal_ex(c.get(), r.data(), &n);
    Bytes w = golden ? unhex(golden) : h.fin();   // golden = the reference's value for this fixed message (recomputed in the thorough tier)
    if (getenv("PRINT_GOLDEN")) fprintf(stderr, "golden %s\n", hex(w).c_str());
    CHECK(r == w, "C01/long", "total %llu: got %s want %s", (unsigned long long)total, hex(r).c_str(), hex(w).c_str());
    stat("big_messages"); sig(fmt("big%llu", (unsigned long long)total));
}

#define GOLDEN_512M "610cbd5b8a70129b232a22ef01a43bea541c9ae6c4c1cf435b5b4033c30ab422"
int main(int argc, char **argv) {
    parse_args(argc, argv);
    ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    if (run().mode == "big") {
        huge_progress();
        // lengths whose bit count needs 1..5 length bytes
        if (run().worker == 0) { for (uint64_t t : {31ull, 32ull, 8191ull, 8192ull, 2097151ull, 2097152ull, (1ull << 24) + 5}) big_message(t, 65536 + 13); }
        if (run().worker == 1) big_message((1ull << 29) + 77, 1 << 20, run().thorough ? nullptr : GOLDEN_512M);                // more than 2^32 bits
        if (run().worker == 2 && run().thorough) big_message((1ull << 32) + 1025, 1 << 20);  // more than 2^32 bytes
        stat("cases");
    } else for_cases(one);
    ref::free_curves(); done_engine();
    return finish_run();
}
