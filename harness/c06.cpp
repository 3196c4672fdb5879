// C06: verification accepts exactly what satisfies the equation. Oracle: independent parser + equation (refec.hpp).
#include "refec.hpp"

enum { REJ = 0, ACC = 1, UNK = 2 };
// DER header of an octet string covering the whole input, minimal length; UNK for BER forms the property does not speak about
static int strip(const Bytes &e, size_t L2, Bytes &body) {
    body = e; if (e.empty()) return 1;
    if (e[0] == 0x24) return UNK;
    if (e[0] == 4 && e.size() >= 2) {
        size_t n, h;
        if (e[1] < 0x80) { n = e[1]; h = 2; }
        else if (e[1] == 0x81 && e.size() >= 3) { n = e[2]; h = 3; if (n < 128 && n + h == e.size()) return UNK; }
        else if (e[1] == 0x82 && e.size() >= 4) { n = e[2] * 256u + e[3]; h = 4; if (n < 256 && n + h == e.size()) return UNK; }
        else if (e[1] > 0x82 || e[1] == 0x80) return e[1] == 0x80 || (e[1] >= 0x83 && e[1] <= 0x88) ? UNK : 1;
        else return 1;
        if (h + n == e.size() && n >= L2) {
            body.assign(e.begin() + h, e.end());
            // a longer raw string could carry values as well; the two readings are told apart only by the header
            return 1;
        }
    }
    return 1;
}
static int oracle(const ref::Curve &c, const ref::Pt &Q, bool le, const Bytes &e, const Bytes &tbs, std::map<std::string, bool> *memo = nullptr) {
    Bytes b; if (strip(e, 2 * c.os(), b) == UNK) return UNK;
    if (b.size() % 2 || b.size() < 2 * c.os()) return REJ;
    b = ref::ord(b, le); size_t h = b.size() / 2; ref::Sig s; s.s = ref::Bn::be(Bytes(b.begin(), b.begin() + h)); s.r = ref::Bn::be(Bytes(b.begin() + h, b.end()));
    return ref::verify(c, Q, tbs, s) ? ACC : REJ;
}
static void check(const ref::Curve &c, const ref::Pt &Q, bool le, EVP_PKEY *k, const Bytes &e, const Bytes &tbs, const char *what, PCtx *reuse = nullptr) {
    std::unique_ptr<uint8_t[]> eb(new uint8_t[e.size()]), tb(new uint8_t[tbs.size()]);   // exact blocks
    memcpy(eb.get(), e.data(), e.size()); memcpy(tb.get(), tbs.data(), tbs.size());
    PCtx own; EVP_PKEY_CTX *pc;
    if (reuse) pc = reuse->get(); else { own.reset(EVP_PKEY_CTX_new(k, nullptr)); pc = own.get(); if (!pc || EVP_PKEY_verify_init(pc) != 1) { viol("C06/init", "verify_init failed"); return; } }
    int got = EVP_PKEY_verify(pc, eb.get(), e.size(), tb.get(), tbs.size());
    int want = oracle(c, Q, le, e, tbs);
    if (want == UNK) { stat("unspecified_encoding"); return; }
    stat(want == ACC ? "accept_expected" : "reject_expected"); stat("verifications");
    if ((got == 1) != (want == ACC)) viol(want == ACC ? std::string("C06/valid-rejected:") + what : std::string("C06/invalid-accepted:") + what,
        fmt("%s: engine %d, expected %s; sig=%s tbs=%s", what, got, want == ACC ? "accept" : "reject", shorthex(e, 160).c_str(), shorthex(tbs).c_str()));
    sig(std::string(what) + c.name + (le ? "l" : "b") + std::to_string(want));
}
static void one(long ci, Rng &g) {
    ref::Curve *c = ref::any_curve(g); bool le = g.chance(1, 2), fc = g.chance(1, 4); Bytes sb = g.chance(1, 4) ? ref::random_sbox(g) : ref::default_sbox();
    trand().reset(g.next()); ref::Bn d = ref::rand_scalar(g, c->n); ref::Pt Q = ref::pub_of(*c, d); size_t L = c->os();
    std::string hd = fmt("curve=%s %s d=%s ", c->name.c_str(), le ? "le" : "be", d.str().c_str()); desc(hd);
    PKey k(g.chance(1, 2) ? ref::decode_pub(*c, Q, le, &sb, fc) : ref::decode_priv(*c, d, le, &sb, fc)); if (!k) { viol("C06/keyload", "key refused"); return; }
    Bytes tbs; switch (g.below(5)) { case 0: tbs = Bytes(g.range(1, 60), 0); break; case 1: tbs = Bytes(c->fs() + 3, 0); tbs[c->fs() + 1] = 7; break; case 2: tbs = g.bytes(g.range(1, 150)); break; default: tbs = g.bytes(32); }
    ref::Sig s; int tries = 0; ref::Bn e;
    do { e = ref::rand_scalar(g, c->n); } while (!ref::sign_with(*c, d, tbs, e, s) && ++tries < 50);
    if (tries >= 50) { stat("no_signature"); return; }
    // on full-size curves sometimes search for a signature with a short half
    if (g.chance(1, 6)) for (int i = 0; i < 300 && s.r.nbytes() == (int)L && s.s.nbytes() == (int)L; i++) { ref::Sig t; e = ref::Bn::be(g.bytes(L + 2)); BN_mod(e, e, c->n, ref::bnctx()); if (!e.zero() && ref::sign_with(*c, d, tbs, e, t)) s = t; }
    if (s.r.nbytes() < (int)L || s.s.nbytes() < (int)L) stat("short_halves");
    Bytes body = ref::sig_body(*c, s, le), dersig = ref::der(4, body);
    desc(hd + "sig=" + hex(dersig) + " tbs=" + shorthex(tbs));
    PCtx reuse(EVP_PKEY_CTX_new(k.get(), nullptr)); EVP_PKEY_verify_init(reuse.get());
    PCtx *ru = g.chance(1, 2) ? &reuse : nullptr;
    auto V = [&](const Bytes &x, const Bytes &t, const char *w) { check(*c, Q, le, k.get(), x, t, w, ru); };
    V(dersig, tbs, "der"); V(body, tbs, "raw");
    { size_t pad = g.range(1, 20); V(ref::der(4, ref::sig_body(*c, s, le, L + pad)), tbs, "der-padded"); Bytes rp = ref::sig_body(*c, s, le, L + pad); if (rp[0] != 4) V(rp, tbs, "raw-padded"); }
    // range
    for (int i = 0; i < 8; i++) {
        ref::Sig t = s; size_t h = L; const char *w = "";
        switch (i) {
        case 0: BN_add(t.r, t.r, c->n); h = L + 1; w = "r+n"; break; case 1: BN_add(t.s, t.s, c->n); h = L + 1; w = "s+n"; break;
        case 2: t.r = ref::Bn(0ul); w = "r=0"; break; case 3: t.s = ref::Bn(0ul); w = "s=0"; break;
        case 4: t.r = c->n; w = "r=n"; break; case 5: t.s = c->n; w = "s=n"; break;
        case 6: BN_sub(t.s, c->n, s.s); w = "n-s"; break; case 7: std::swap(t.r, t.s); w = "swapped"; break;
        }
        V(ref::der(4, ref::sig_body(*c, t, le, h)), tbs, w);
    }
    { ref::Sig t; t.r = ref::Bn(0ul); t.s = ref::Bn(0ul); V(ref::der(4, ref::sig_body(*c, t, le)), tbs, "zeros"); V(Bytes(2 * L, 0xff), tbs, "ones"); }
    // lengths
    V({}, tbs, "empty"); V({4, 0}, tbs, "empty-der"); { Bytes x = body; x.pop_back(); V(x, tbs, "odd"); V(ref::der(4, x), tbs, "odd-der"); x.pop_back(); V(x, tbs, "short"); V(ref::der(4, x), tbs, "short-der"); }
    for (int i = 0; i < 3; i++) { uint8_t o = i ? g.byte() : 0; Bytes x = body, y = body, z = body; x.push_back(o); y.insert(y.begin(), o); z.insert(z.begin() + L, o); for (auto *q : {&x, &y, &z}) { V(ref::der(4, *q), tbs, "long-odd-der"); if ((*q)[0] != 4) V(*q, tbs, "long-odd"); } }
    { ref::Sig t = s; if (s.r.nbytes() < (int)L && s.s.nbytes() < (int)L && L > 1) V(ref::der(4, ref::sig_body(*c, t, le, L - 1)), tbs, "short-fitting"); }
    { Bytes x = dersig; x.push_back(g.byte()); V(x, tbs, "trailing1"); x.push_back(g.byte()); V(x, tbs, "trailing2"); Bytes y = dersig; y.resize(g.below(y.size())); V(y, tbs, "truncated"); }
    // changed bits of signature, message, wrong order, wrong key, wrong curve
    for (int i = 0; i < 4; i++) { Bytes x = body; x[g.below(x.size())] ^= 1 << g.below(8); V(g.chance(1, 2) ? ref::der(4, x) : x, tbs, "sigbit"); }
    for (int i = 0; i < 4; i++) { Bytes t = tbs; t[g.below(t.size())] ^= 1 << g.below(8); V(dersig, t, "tbsbit"); }
    { Bytes t = tbs; t.push_back(g.byte()); V(dersig, t, "tbs+1"); t.resize(tbs.size() - 1); if (!t.empty()) V(dersig, t, "tbs-1"); std::reverse(t.begin(), t.end()); if (!t.empty()) V(dersig, t, "tbsrev"); }
    V(ref::der(4, ref::rev(body)), tbs, "otherorder"); V(g.bytes(2 * L), tbs, "random");
    V(ref::der(4, g.bytes(2 * L)), tbs, "random-der");
    { // the reading of a message under another key of the same and of another curve
        ref::Bn d2 = ref::rand_scalar(g, c->n); ref::Pt Q2 = ref::pub_of(*c, d2); PKey k2(ref::decode_pub(*c, Q2, le, &sb)); if (k2) check(*c, Q2, le, k2.get(), dersig, tbs, "otherkey"); else viol("C06/keyload", "key refused");
        ref::Pt Qn = ref::neg(Q); PKey k3(ref::decode_pub(*c, Qn, le, &sb)); if (k3) check(*c, Qn, le, k3.get(), dersig, tbs, "negkey");
        PKey k4(ref::decode_pub(*c, Q, !le, &sb)); if (k4) { check(*c, Q, !le, k4.get(), dersig, tbs, "othertype"); check(*c, Q, !le, k4.get(), ref::der(4, ref::rev(body)), tbs, "othertype-rev"); }
        ref::Curve *c2 = ref::any_curve(g, true); ref::Pt Q5 = ref::pub_of(*c2, d2); if (!Q5.inf) { PKey k5(ref::decode_pub(*c2, Q5, le, &sb)); if (k5) check(*c2, Q5, le, k5.get(), dersig, tbs, "othercurve"); }
    }
    // the whole message path, with the key's table
    { Bytes m = g.bytes(g.range(0, 200)), hs = ref::hash(m, sb); ref::Sig t; ref::Bn e2 = ref::rand_scalar(g, c->n);
      if (ref::sign_with(*c, d, hs, e2, t)) {
        Bytes sg = ref::der(4, ref::sig_body(*c, t, le)); bool flip = g.chance(1, 2); Bytes m2 = m; if (flip) { if (m2.empty()) m2.push_back(0); else m2[g.below(m2.size())] ^= 1 << g.below(8); }
        MCtx mc(EVP_MD_CTX_new()); size_t cut = g.below(m2.size() + 1); int r = -9;
        if (EVP_DigestVerifyInit(mc.get(), nullptr, eng().md, nullptr, k.get()) == 1) { EVP_DigestVerifyUpdate(mc.get(), m2.data(), cut); EVP_DigestVerifyUpdate(mc.get(), m2.data() + cut, m2.size() - cut); r = EVP_DigestVerifyFinal(mc.get(), sg.data(), sg.size()); }
        bool want = ref::verify(*c, Q, ref::hash(m2, sb), t);
        if ((r == 1) != want) viol(want ? "C06/valid-rejected:digest" : "C06/invalid-accepted:digest", fmt("DigestVerify %d", r)); stat("digest_verifications");
      } }
    if (ci < 3) sample(run().cur);
}
// every (r,s) of a tiny group, several halves lengths: the accepted set is exactly the reference's
static void exhaustive(long ci, Rng &g) {
    ref::Curve *c = ref::smalls()[ci % 2]; bool le = ci & 2; trand().reset(g.next());
    ref::Bn d = ref::rand_scalar(g, c->n); ref::Pt Q = ref::pub_of(*c, d); Bytes tbs = g.bytes(g.range(1, 32)); unsigned n = (unsigned)BN_get_word((const BIGNUM *)c->n), acc = 0, L = (unsigned)c->os();
    desc(fmt("all (r,s) on %s n=%u d=%s tbs=%s", c->name.c_str(), n, d.str().c_str(), hex(tbs).c_str()));
    PKey k(ref::decode_pub(*c, Q, le)); if (!k) { viol("C06/keyload", "key refused"); return; }
    // reference: table of all multiples
    std::vector<ref::Pt> mul(n); for (unsigned i = 1; i < n; i++) { ref::Bn b(i); mul[i] = ref::lincomb(*c, &b, nullptr, nullptr); }
    unsigned dd = (unsigned)BN_get_word((const BIGNUM *)d); PCtx pc(EVP_PKEY_CTX_new(k.get(), nullptr)); EVP_PKEY_verify_init(pc.get());
    unsigned lim = n + 3; bool thin = !run().thorough;
    for (unsigned r = 0; r < lim; r++) for (unsigned s = 0; s < lim; s++) {
        bool want = false;
        if (r && s && r < n && s < n) { unsigned e = (s + n - (unsigned)((uint64_t)dd * r % n)) % n; if (e) { ref::Bn rr; want = ref::r_from(*c, tbs, mul[e].x, rr) && BN_get_word((const BIGNUM *)rr) == r; } }
        if (thin && !want && r > 2 && s > 2 && r < n - 2 && s < n - 2 && g.below(4)) continue;
        ref::Sig x; x.r = ref::Bn(r); x.s = ref::Bn(s); unsigned h = std::max({L, (unsigned)x.r.nbytes(), (unsigned)x.s.nbytes()}); Bytes e = ref::der(4, ref::sig_body(*c, x, le, h));
        bool got = EVP_PKEY_verify(pc.get(), e.data(), e.size(), tbs.data(), tbs.size()) == 1;
        if (got != want) { viol(want ? "C06/valid-rejected:exhaustive" : "C06/invalid-accepted:exhaustive", fmt("r=%u s=%u", r, s)); return; }
        acc += got; stat("verifications");
    }
    stat("exhaustive_accepted", acc); sig(fmt("ex%ld", ci));
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    if (run().mode == "exhaustive") for_cases(exhaustive); else for_cases(one);
    ref::free_curves(); done_engine(); return finish_run();
}
