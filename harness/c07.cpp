// C07: nonce freshness/range and RNG fault injection. The nonce of each signature is recovered from the known private key.
#include "refec.hpp"
#include <cmath>

static std::unordered_set<std::string> seen;    // "curve:nonce" over everything this worker signed on full-size curves

static Bytes sign_some(Rng &g, EVP_PKEY *k, const Bytes &tbs, EVP_PKEY_CTX *kept, const Bytes &sb, Bytes *tbs_used) {
    *tbs_used = tbs;
    switch (g.below(4)) {
    case 0: return ref::pkey_sign(k, tbs);
    case 1: { PCtx d(EVP_PKEY_CTX_dup(kept)); Bytes s(600); size_t n = s.size(); if (!d || EVP_PKEY_sign(d.get(), s.data(), &n, tbs.data(), tbs.size()) != 1) return {}; s.resize(n); return s; }
    case 2: { Bytes s(600); size_t n = s.size(); if (EVP_PKEY_sign(kept, s.data(), &n, tbs.data(), tbs.size()) != 1) return {}; s.resize(n); return s; }
    default: { MCtx m(EVP_MD_CTX_new()); Bytes s(600); size_t n = s.size(); *tbs_used = ref::hash(tbs, sb);
        if (EVP_DigestSignInit(m.get(), nullptr, eng().md, nullptr, k) != 1 || EVP_DigestSign(m.get(), s.data(), &n, tbs.data(), tbs.size()) != 1) return {}; s.resize(n); return s; }
    }
}
// full-size curves: uniqueness, range, bit statistics, no relation to key, message or the previous nonce
static void fresh(long ci, Rng &g) {
    std::vector<ref::Curve *> pool = {ref::named(0), ref::named(1), ref::named(2), ref::named(4), ref::named(6), ref::customs()[0], ref::customs()[1], ref::customs()[3], ref::named(9)};
    ref::Curve *c = pool[ci % pool.size()]; int N = run().thorough ? 2000 : 420; if (c->m > 300) N /= 4;
    trand().reset(g.next()); bool le = g.chance(1, 2), fixed_msg = g.chance(1, 2); ref::Bn d = ref::rand_scalar(g, c->n); Bytes sb = ref::default_sbox();
    desc(fmt("%d signatures on %s, %s message, d=%s", N, c->name.c_str(), fixed_msg ? "same" : "varying", d.str().c_str()));
    PKey k(ref::decode_priv(*c, d, le)); if (!k) { viol("C07/keyload", "key refused"); return; }
    PCtx kept(EVP_PKEY_CTX_new(k.get(), nullptr)); EVP_PKEY_sign_init(kept.get());
    int bits = c->n.bits(); size_t L = c->os(); std::vector<int> ones(bits), corr_prev(bits), corr_msg(bits), corr_d(bits); std::vector<std::vector<int>> eqb(L, std::vector<int>(L));
    auto len = [&] { return g.chance(1, 2) ? (size_t)32 : g.pick<size_t>({1, 8, 16, 20, 31, 33, 48, 54, 64, 65, 96, 128, 200, 513}); };   // signing the value itself takes any length
    Bytes tbs = g.bytes(len()), prev; int n = 0;
    for (int i = 0; i < N; i++) {
        if (!fixed_msg) tbs = g.bytes(len());
        if (i % 97 == 50) { k.reset(ref::decode_priv(*c, d, le)); kept.reset(EVP_PKEY_CTX_new(k.get(), nullptr)); EVP_PKEY_sign_init(kept.get()); }   // reload the key
        long before = trand().bytes; Bytes used; Bytes sg = sign_some(g, k.get(), tbs, kept.get(), sb, &used); ref::Sig s;
        if (sg.empty()) { viol("C07/fails", "signing failed"); return; }
        if (!ref::parse_sig(*c, sg, le, s)) { viol("C07/encoding", hex(sg)); return; }
        ref::Bn e = ref::nonce_of(*c, d, s);
        if ((long)trand().bytes - before < (long)(bits / 8)) viol("C07/no-fresh-randomness", fmt("signature %d drew only %ld random bytes for a %d bit order", i, (long)trand().bytes - before, bits));
        if (!seen.insert(c->name + e.str()).second) { viol("C07/repeat", "nonce used twice: " + e.str()); return; }
        { ref::Bn a = e, m1; BN_sub(m1, c->n, e); if (!seen.insert(c->name + m1.str()).second) { viol("C07/repeat", "nonce is the negation of an earlier one"); return; } }
        if (e.zero()) { viol("C07/range", "zero nonce"); return; }
        Bytes eb = e.bytes(L); ref::Bn h = ref::hash_elem(*c, used), pv = prev.empty() ? ref::Bn(0ul) : ref::Bn::be(prev);
        for (int b = 0; b < bits; b++) { int x = BN_is_bit_set((const BIGNUM *)e, b); ones[b] += x; corr_msg[b] += x == BN_is_bit_set((const BIGNUM *)h, b); corr_d[b] += x == BN_is_bit_set((const BIGNUM *)d, b); if (!prev.empty()) corr_prev[b] += x == BN_is_bit_set((const BIGNUM *)pv, b); }
        for (size_t a = 1; a < L; a++) for (size_t b = a + 1; b < L; b++) eqb[a][b] += eb[a] == eb[b];
        if (!prev.empty()) { ref::Bn df; BN_mod_sub(df, e, pv, c->n, ref::bnctx()); ref::Bn nd; BN_sub(nd, c->n, df); if (df.bits() < bits - 70 || nd.bits() < bits - 70) viol("C07/related", "consecutive nonces differ by a small value"); }
        { ref::Bn x, y; BN_mod_sub(x, e, d, c->n, ref::bnctx()); BN_mod_sub(y, e, h, c->n, ref::bnctx()); if (x.bits() < bits - 70 || y.bits() < bits - 70) viol("C07/related", "nonce close to the private key or the hash"); }
        prev = eb; n++; stat("signatures");
    }
    // probability of bit b for a uniform value below n: exact enough below the top 3 bits
    auto z = [&](int cnt, int tot) { return std::fabs(cnt - tot / 2.0) / std::sqrt(tot / 4.0); };
    for (int b = 0; b < bits - 2; b++) {
        double hi = bits - b > 40 ? 0 : 1; (void)hi;
        // bias of a uniform value < n at bit b is below 2^-(bits-1-b)+..., ignore the top bits whose expectation is not 1/2
        if (b >= bits - 8) continue;
        if (z(ones[b], n) > 7.5) viol("C07/bias", fmt("bit %d of the nonce is set in %d of %d signatures", b, ones[b], n));
        if (!fixed_msg && z(corr_msg[b], n) > 7.5) viol("C07/related", fmt("bit %d follows the message", b));
        if (z(corr_prev[b], n - 1) > 7.5) viol("C07/related", fmt("bit %d follows the previous nonce", b));
    }
    // top byte(s): compare with exact probabilities of the leading 8 bits
    { int sh = bits - 8; ref::Bn top; BN_rshift(top, c->n, sh); unsigned T = (unsigned)BN_get_word((const BIGNUM *)top); (void)T;
      for (int b = bits - 8; b < bits; b++) {
        // P(bit b set) over uniform [0,n): count = floor(n/2^(b+1))*2^b + max(0, n mod 2^(b+1) - 2^b); in doubles relative to n
        double nn = 0; for (int i = bits - 1; i >= 0 && i > bits - 50; i--) nn += BN_is_bit_set((const BIGNUM *)c->n, i) * std::ldexp(1.0, i - bits);
        double w = std::ldexp(1.0, b - bits), full = std::floor(nn / (2 * w)), rem = nn - full * 2 * w, p = (full * w + std::max(0.0, rem - w)) / nn;
        double ex = p * n, sd = std::sqrt(std::max(1e-9, n * p * (1 - p)));
        if (std::fabs(ones[b] - ex) > 7.5 * sd + 8) viol("C07/bias", fmt("leading bit %d of the nonce set in %d of %d signatures, expected %.1f", b, ones[b], n, ex)); } }
    for (size_t a = 1; a < L; a++) for (size_t b = a + 1; b < L; b++) { double ex = n / 256.0; if (eqb[a][b] > ex + 9 * std::sqrt(ex) + 12) viol("C07/related", fmt("nonce bytes %zu and %zu coincide in %d of %d signatures", a, b, eqb[a][b], n)); }
    sig(fmt("fresh%s%d%d", c->name.c_str(), le, fixed_msg) + d.str()); if (ci < 2) sample(run().cur);
}
// tiny groups: the nonce must be uniform over 1..n-1 (modulo bias, truncation, missing ends of the range)
static void uniform(long ci, Rng &g) {
    ref::Curve *c = ref::smalls()[ci % 4]; unsigned n = (unsigned)BN_get_word((const BIGNUM *)c->n); long N = (run().thorough ? 60L : 25L) * n;
    trand().reset(g.next()); ref::Bn d = ref::rand_scalar(g, c->n); PKey k(ref::decode_priv(*c, d, false)); if (!k) { viol("C07/keyload", "key refused"); return; }
    desc(fmt("%ld signatures on %s (n=%u)", N, c->name.c_str(), n));
    std::vector<long> cnt(n); PCtx pc(EVP_PKEY_CTX_new(k.get(), nullptr)); EVP_PKEY_sign_init(pc.get()); Bytes s(600); long got = 0;
    // for a fixed message some nonces never yield a signature (r=0 or s=0): vary the message and compare with per-nonce acceptance
    std::vector<double> expect(n); std::vector<Bytes> msgs; for (int i = 0; i < 16; i++) msgs.push_back(g.bytes(8));
    std::vector<std::vector<char>> okm(16, std::vector<char>(n));
    for (int i = 0; i < 16; i++) { long a = 0; for (unsigned e = 1; e < n; e++) { ref::Sig t; okm[i][e] = ref::sign_with(*c, d, msgs[i], ref::Bn(e), t); a += okm[i][e]; } for (unsigned e = 1; e < n; e++) if (okm[i][e]) expect[e] += (double)N / 16 / a; }
    for (int i = 0; i < 16; i++) for (long j = 0; j < N / 16; j++) {
        size_t l = s.size(); int tries = 0; while (EVP_PKEY_sign(pc.get(), s.data(), &l, msgs[i].data(), 8) != 1 && ++tries < 20) l = s.size();   // zero nonce: refused, try again
        if (tries >= 20) { viol("C07/fails", "signing keeps failing"); return; }
        ref::Sig t; if (!ref::parse_sig(*c, Bytes(s.begin(), s.begin() + l), false, t)) { viol("C07/encoding", "bad signature"); return; }
        cnt[BN_get_word((const BIGNUM *)ref::nonce_of(*c, d, t))]++; got++;
    }
    double chi = 0; int df = -1, missing = 0; for (unsigned e = 1; e < n; e++) if (expect[e] > 0) { double f = (double)got / (N / 16 * 16); chi += (cnt[e] - expect[e] * f) * (cnt[e] - expect[e] * f) / (expect[e] * f); df++; if (!cnt[e]) missing++; }
    if (cnt[0]) viol("C07/range", "zero nonce used");
    if (chi > df + 9 * std::sqrt(2.0 * df) + 40) viol("C07/not-uniform", fmt("chi2=%.1f for %d degrees of freedom, %d of %u nonces never used", chi, df, missing, n - 1));
    stat("signatures", got); stat("uniformity_tests"); stat("chi2_x100_over_df", (long)(100 * chi / df)); sig(fmt("uni%ld", ci));
}
// every position at which the random source can fail
static int failval = 0;
static int f_bytes(unsigned char *b, int n) { int r = trand_bytes(b, n); return r == 1 ? 1 : failval; }
static RAND_METHOD fm = {trand_seed, f_bytes, nullptr, trand_add, f_bytes, trand_status};
static void faults(long ci, Rng &g) {
    ref::Curve *c = ref::any_curve(g, !g.chance(1, 5)); bool le = g.chance(1, 2); ref::Bn d = ref::rand_scalar(g, c->n); trand().reset(g.next());
    failval = g.chance(1, 2) ? 0 : -1; RAND_set_rand_method(&fm);
    int what = (int)g.below(4);   // 0,1 raw sign, 2 digest sign, 3 keygen
    PKey k(ref::decode_priv(*c, d, le)); if (!k) { viol("C07/keyload", "key refused"); return; }
    Bytes tbs = g.bytes(g.chance(1, 2) ? 32 : g.range(1, 300)); uint64_t sd = g.next();
    auto op = [&](bool &delivered) -> int {
        delivered = false; ERR_clear_error();
        if (what <= 1) { PCtx p(EVP_PKEY_CTX_new(k.get(), nullptr)); Bytes s(600, 0x5c); size_t l = s.size(); if (!p || EVP_PKEY_sign_init(p.get()) != 1) return -5; return EVP_PKEY_sign(p.get(), s.data(), &l, tbs.data(), tbs.size()); }
        if (what == 2) { MCtx m(EVP_MD_CTX_new()); Bytes s(600); size_t l = s.size(); if (EVP_DigestSignInit(m.get(), nullptr, eng().md, nullptr, k.get()) != 1) return -5; return EVP_DigestSign(m.get(), s.data(), &l, tbs.data(), tbs.size()); }
        PCtx p(EVP_PKEY_CTX_new_id(le ? NID_dstu4145le : NID_dstu4145be, nullptr)); EVP_PKEY *kk = nullptr; if (!p || EVP_PKEY_keygen_init(p.get()) != 1 || EVP_PKEY_CTX_ctrl(p.get(), -1, -1, H_SET_CURVE, 0, c->grp) != 1) return -5;
        int r = EVP_PKEY_keygen(p.get(), &kk); delivered = kk != nullptr; EVP_PKEY_free(kk); return r;
    };
    bool dl; trand().reset(sd); trand().budget = 5000; int r0 = op(dl); long K = trand().calls;
    const char *nm[] = {"sign", "sign", "digestsign", "keygen"};
    if (r0 != 1) { if (c->m > 60) viol("C07/fails", fmt("%s without faults failed", nm[what])); RAND_set_rand_method(nullptr); install_test_rand(); return; }
    for (long f = 0; f < K; f++) for (int sticky = 1; sticky >= 0; sticky--) {
        if (!sticky && what == 2) continue;       // a momentary failure while hashing only costs the cipher its masking
        trand().reset(sd); trand().budget = 5000; trand().fail_at = f; trand().sticky = sticky;
        desc(fmt("%s on %s, random request %ld of %ld fails%s with %d", nm[what], c->name.c_str(), f, K, sticky ? " (and all later)" : "", failval));
        int r = op(dl);
        if (!trand().failed) { stat("fault_not_reached"); continue; }
        if (r == 1) viol(std::string("C07/success-without-randomness:") + nm[what], fmt("%s reported success although the random source failed", nm[what]));
        if (dl) viol("C07/key-delivered", "a key was delivered although the random source failed");
        stat("faults_injected"); sig(fmt("%s/%s/%ld/%d/%d", nm[what], c->name.c_str(), f, sticky, failval));
    }
    install_test_rand();
    // and the source works again afterwards
    trand().reset(sd + 1); int r2 = op(dl); if (r2 != 1 && c->m > 60) viol("C07/no-recovery", "operation fails after the random source recovered");
    if (ci < 2) sample(run().cur);
}
// which delivered random bytes decide the nonce: replay a signing call on its recorded random stream, then with one byte changed at a time
static void influence(long ci, Rng &g) {
    ref::Curve *c = ci % 3 ? ref::any_curve(g, true) : ref::named((int)g.below(10)); bool le = g.chance(1, 2); ref::Bn d = ref::rand_scalar(g, c->n); trand().reset(g.next());
    PKey k(ref::decode_priv(*c, d, le)); if (!k) { viol("C07/keyload", "key refused"); return; }
    Bytes tbs = g.bytes(g.chance(1, 3) ? g.range(65, 300) : g.range(1, 64)), log; int pre = (int)g.below(4);
    desc(fmt("random bytes that decide the nonce on %s after %d earlier signatures", c->name.c_str(), pre));
    for (int i = 0; i < pre; i++) ref::pkey_sign(k.get(), tbs);
    auto nonce = [&](const Bytes *stream, Bytes *lg, ref::Bn &e) {
        static const Bytes *st; static size_t pos; st = stream; pos = 0; trand().reset(99); trand().log = lg; trand().budget = 5000;
        if (stream) trand().feed = [](unsigned char *b, int n) { for (int i = 0; i < n; i++) b[i] = pos < st->size() ? (*st)[pos++] : trand().g.byte(); return true; };
        Bytes sg = ref::pkey_sign(k.get(), tbs); trand().log = nullptr; trand().feed = nullptr; ref::Sig s;
        if (sg.empty() || !ref::parse_sig(*c, sg, le, s)) return false; e = ref::nonce_of(*c, d, s); return true;
    };
    Bytes first = g.bytes(64); first[0] = 1; ref::Bn e0, e1;
    if (!nonce(&first, &log, e0) || !nonce(&log, nullptr, e1)) { if (c->m > 60) viol("C07/fails", "signing failed"); return; }
    if (e0 != e1) { viol("C07/not-from-rng", "the same random stream gave another nonce: the nonce does not come from the random source"); return; }
    int dep = 0; for (size_t i = 0; i < log.size() && i < 400; i++) { Bytes l2 = log; l2[i] ^= 1; ref::Bn e; if (nonce(&l2, nullptr, e) && e != e0) dep++; }
    int need = c->n.bits() / 8; if (c->m < 60) need = 0;   // tiny groups: retries hide single bytes
    if (dep < need) viol("C07/little-entropy", fmt("only %d of %zu delivered random bytes decide the nonce; the order has %d bits", dep, log.size(), c->n.bits()));
    stat("influence_streams"); stat("deciding_bytes", dep); sig("inf" + c->name + std::to_string(pre)); if (ci < 2) sample(run().cur + fmt(": %d of %zu bytes", dep, log.size()));
}
// the engine's own generator as the default, above a seed source that fails at chosen requests: nothing may be released before it was seeded
static int src_fail = 0; static long src_calls = 0, src_failed = 0; static bool src_hooked = false; static Rng srcg(1);
static int src_bytes(unsigned char *b, int n) { src_calls++; if (src_fail) { src_failed++; return 0; } srcg.fill(b, n); return 1; }
static int src_status(void) { return !(src_fail == 2); }
static RAND_METHOD src_m = {trand_seed, src_bytes, nullptr, trand_add, src_bytes, src_status};
extern "C" RAND_METHOD *RAND_OpenSSL(void) { src_hooked = true; return &src_m; }
static ref::Curve *pick_large(Rng &g) { for (;;) { ref::Curve *c = ref::any_curve(g, true); if (c->n.bits() > 100) return c; } }
static void engrand(long ci, Rng &g) {
    trand().reset(g.next()); ref::Curve *c = pick_large(g); bool le = g.chance(1, 2); ref::Bn d = ref::rand_scalar(g, c->n);
    PKey k(ref::decode_priv(*c, d, le)); if (!k) { viol("C07/keyload", "key refused"); return; }
    const RAND_METHOD *r = ENGINE_get_RAND(eng().e); src_fail = 0; r->cleanup(); RAND_set_rand_method(r); srcg.reseed(g.next());
    std::string h = "engine generator on " + c->name + ": "; size_t n = g.range(3, 14); bool seeded = false; uint64_t sg_ = 1;
    auto keygen = [&](bool &got) { PCtx p(EVP_PKEY_CTX_new_id(le ? NID_dstu4145le : NID_dstu4145be, nullptr)); EVP_PKEY *kk = nullptr; int q = p && EVP_PKEY_keygen_init(p.get()) == 1 && EVP_PKEY_CTX_ctrl(p.get(), -1, -1, H_SET_CURVE, 0, c->grp) == 1 ? EVP_PKEY_keygen(p.get(), &kk) : -5; got = kk != nullptr; EVP_PKEY_free(kk); return q; };
    for (size_t i = 0; i < n; i++) {
        unsigned op = (unsigned)g.below(5);
        if (op == 0) { src_fail = src_fail ? 0 : 1 + (int)g.below(2); h += fmt("source%d ", src_fail); sg_ = mix(sg_, 1 + src_fail); continue; }
        if (op == 1) { r->cleanup(); seeded = false; h += "cleanup "; sg_ = mix(sg_, 5); continue; }
        bool may = seeded || !src_fail, got = false; int q; h += op == 2 ? "keygen " : "sign "; desc(h); ref::Sig s; Bytes t = g.bytes(32), out;
        if (op == 2) { q = keygen(got); if (!may && got) viol("C07/key-delivered", "a key was delivered although the generator could not be seeded"); }
        else { out = ref::pkey_sign(k.get(), t); q = out.empty() ? 0 : 1; }
        if (!may && q == 1) viol("C07/success-without-randomness:engine-generator", "success although the generator could not be seeded");
        if (may && q != 1) viol("C07/no-recovery", "failure although the generator works");
        if (q == 1 && op != 2) { if (!ref::parse_sig(*c, out, le, s)) { viol("C07/encoding", hex(out)); break; } ref::Bn e = ref::nonce_of(*c, d, s); if (c->n.bits() > 100 && !seen.insert(c->name + e.str()).second) viol("C07/repeat", "nonce used twice with the engine's generator: " + e.str()); stat("signatures"); }
        if (may) seeded = true; stat(may ? "engine_generator_ops" : "unseeded_refusals"); sg_ = mix(sg_, 10 + op * 2 + may);
    }
    src_fail = 0; r->cleanup(); install_test_rand(); if (!src_hooked) viol("C07/seed-source", "the generator never asked its seed source"); sig(sg_); if (ci < 2) sample(h);
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    if (run().mode == "uniform") for_cases(uniform); else if (run().mode == "influence") for_cases(influence); else if (run().mode == "faults") for_cases(faults); else if (run().mode == "engrand") for_cases(engrand); else for_cases(fresh);
    ref::free_curves(); done_engine(); return finish_run();
}
