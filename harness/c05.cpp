// C05: signing. Oracle: independent DSTU 4145 verification equation and encoding (refec.hpp).
#include "refec.hpp"

static Bytes gen_tbs(Rng &g, const ref::Curve &c, std::string &kind) {
    size_t fs = c.fs(); Bytes b;
    switch (g.below(12)) {
    case 0: kind = "zero"; b = Bytes(g.range(1, 100), 0); break;
    case 1: kind = "ff"; b = Bytes(g.range(1, 100), 0xff); break;
    case 2: {  // value that becomes zero when cut to the field size
        kind = "cut0"; b = Bytes(fs, 0); if (c.m % 8) b[fs - 1] = 0x80 | (uint8_t)(g.byte() << (c.m % 8)); Bytes t = g.bytes(g.below(40)); b.insert(b.end(), t.begin(), t.end()); break; }
    case 3: kind = "one"; b = Bytes(g.range(1, 80), 0); b[g.below(b.size())] = 1 << g.below(8); break;
    case 4: kind = "short"; b = g.bytes(g.range(1, 4)); break;
    case 5: kind = "fs"; b = g.bytes(g.pick<size_t>({fs - 1 ? fs - 1 : 1, fs, fs + 1})); break;
    case 6: kind = "long"; b = g.bytes(g.range(100, 3000)); break;
    case 7: case 8: kind = "hash"; b = g.bytes(32); break;
    default: kind = "rand"; b = g.bytes(g.range(1, 120)); break;
    }
    return b;
}
static void rng_edges(Rng &g, const ref::Curve &c, int &k) {
    auto &t = trand(); t.reset(g.next()); t.budget = c.m < 60 ? 20000 : 600; k = (int)g.below(8);
    static int left; static size_t L; L = c.os(); left = (int)g.range(1, 6); static uint8_t fillb; fillb = 0xff;
    if (k == 0) t.feed = [](unsigned char *b, int n) { if ((size_t)n != L || left-- <= 0) return false; memset(b, 0xff, n); return true; };           // values at or above the order
    if (k == 1) t.feed = [](unsigned char *b, int n) { if ((size_t)n != L || left-- <= 0) return false; memset(b, 0, n); b[n - 1] = 1 + left; return true; };  // tiny nonces
    if (k == 2) { static Bytes nb; nb = c.n.bytes(L); static uint8_t dlt; dlt = g.byte() & 7; t.feed = [](unsigned char *b, int n) { if ((size_t)n != L || left-- <= 0) return false; memcpy(b, nb.data(), n); b[n - 1] -= dlt; return true; }; }  // around n
}
static void one(long ci, Rng &g) {
    ref::Curve *c = ref::any_curve(g); bool le = g.chance(1, 2), fc = g.chance(1, 4), small = c->m < 60;
    Bytes sb = g.chance(1, 3) ? ref::random_sbox(g) : ref::default_sbox();
    ref::Bn d = ref::rand_scalar(g, c->n); trand().reset(g.next());
    std::string hd = fmt("curve=%s %s d=%s sbox=%s%s ", c->name.c_str(), le ? "le" : "be", d.str().c_str(), hex(sb.data(), 4).c_str(), fc ? " explicit" : ""); desc(hd);
    PKey k(ref::decode_priv(*c, d, le, &sb, fc)); if (!k) { viol("C05/keyload", "private key refused"); return; }
    ref::Pt Q = ref::pub_of(*c, d);
    Bytes spki = ref::spki_der(*c, Q, le, &sb, fc); PKey pub(ref::decode_spki(spki)); if (!pub) { viol("C05/keyload", "public key refused"); return; }
    size_t want = ref::der(4, Bytes(2 * c->os())).size();
    CHECK(EVP_PKEY_size(k.get()) >= (int)want, "C05/size", "EVP_PKEY_size %d smaller than a signature %zu", EVP_PKEY_size(k.get()), want);
    PCtx kept;
    int rounds = 1 + (int)g.below(3);
    for (int r = 0; r < rounds; r++) {
        std::string kind; Bytes tbs = gen_tbs(g, *c, kind); bool viadigest = g.chance(1, 3); Bytes msg; int rk;
        if (viadigest) { msg = g.bytes(g.range(0, 300)); tbs = ref::hash(msg, sb); kind = "digest"; }
        rng_edges(g, *c, rk);
        desc(hd + fmt("rng=%d %s(%zu)=", rk, kind.c_str(), tbs.size()) + shorthex(tbs, 160));
        size_t n = 0; int ok; Bytes sg; std::unique_ptr<uint8_t[]> buf;
        if (viadigest) {
            MCtx m(EVP_MD_CTX_new());
            if (EVP_DigestSignInit(m.get(), nullptr, g.chance(1, 2) ? eng().md : nullptr, nullptr, k.get()) != 1) { viol("C05/fails", "DigestSignInit failed"); return; }
            bool oneshot = g.chance(1, 3);
            if (!oneshot) { EVP_DigestSignUpdate(m.get(), msg.data(), msg.size()); ok = EVP_DigestSignFinal(m.get(), nullptr, &n); }
            else ok = EVP_DigestSign(m.get(), nullptr, &n, msg.data(), msg.size());
            if (ok != 1 || n < want) { viol("C05/size", fmt("size query returned %d, %zu", ok, n)); return; }
            size_t q = n; buf.reset(new uint8_t[n]);
            ok = oneshot ? EVP_DigestSign(m.get(), buf.get(), &n, msg.data(), msg.size()) : EVP_DigestSignFinal(m.get(), buf.get(), &n);
            if (ok == 1) CHECK(n <= q, "C05/size", "signature of %zu bytes after promising %zu", n, q);
        } else {
            PCtx pc(kept && g.chance(1, 2) ? EVP_PKEY_CTX_dup(kept.get()) : EVP_PKEY_CTX_new(k.get(), nullptr));
            if (!kept) { kept.reset(EVP_PKEY_CTX_new(k.get(), nullptr)); EVP_PKEY_sign_init(kept.get()); }
            if (!pc || EVP_PKEY_sign_init(pc.get()) != 1) { viol("C05/fails", "sign_init failed"); return; }
            if (EVP_PKEY_sign(pc.get(), nullptr, &n, tbs.data(), tbs.size()) != 1 || n < want) { viol("C05/size", fmt("size query gives %zu", n)); return; }
            size_t q = n;
            if (g.chance(1, 4)) {                           // too small a buffer: refused, nothing written
                size_t sm = g.below(want); std::unique_ptr<uint8_t[]> sbuf(new uint8_t[sm]); memset(sbuf.get(), 0x5c, sm); size_t l = sm;
                int rr = EVP_PKEY_sign(pc.get(), sbuf.get(), &l, tbs.data(), tbs.size());
                CHECK(rr != 1, "C05/short-buffer", "signing into a %zu byte buffer succeeded", sm);
                stat("short_buffer");
            }
            size_t extra = g.chance(1, 3) ? g.below(50) : 0; buf.reset(new uint8_t[n + extra]); memset(buf.get(), 0x5c, n + extra); n += extra;
            ok = EVP_PKEY_sign(pc.get(), buf.get(), &n, tbs.data(), tbs.size());
            if (ok == 1) {
                CHECK(n <= q, "C05/size", "signature of %zu bytes after promising %zu", n, q);
                for (size_t i = n; i < q + extra; i++) if (buf[i] != 0x5c) { viol("C05/overwrite", "bytes beyond the signature were written"); break; }
            }
        }
        if (trand().tripped) { viol("C05/no-termination", "signing used up its budget of random requests without finishing"); return; }
        if (ok != 1) {
            // a zero nonce makes a signing attempt fail; with real group orders and a sound RNG this does not happen
            if (small || rk <= 2) { stat("sign_refused_allowed"); continue; }
            viol("C05/fails", "signing failed"); return;
        }
        sg.assign(buf.get(), buf.get() + n); ref::Sig s;
        if (!ref::parse_sig(*c, sg, le, s)) { viol("C05/encoding", "not a canonical DER octet string of two halves: " + hex(sg)); return; }
        bool good = ref::verify(*c, Q, tbs, s);
        CHECK(good, "C05/equation", "signature %s does not satisfy the verification equation", hex(sg).c_str());
        stat("signatures"); stat("kind_" + kind);
        int v1 = ref::pkey_verify(k.get(), sg, tbs), v2 = ref::pkey_verify(pub.get(), sg, tbs);
        CHECK(v1 == 1 && v2 == 1, "C05/self-verify", "engine verification of its own signature: private key object %d, public key object %d", v1, v2);
        if (viadigest) { MCtx m(EVP_MD_CTX_new()); int v = EVP_DigestVerifyInit(m.get(), nullptr, eng().md, nullptr, pub.get()) == 1 ? EVP_DigestVerify(m.get(), sg.data(), sg.size(), msg.data(), msg.size()) : -9; CHECK(v == 1, "C05/self-verify", "DigestVerify %d", v); }
        sig(c->name + kind + (le ? "l" : "b") + (fc ? "x" : "") + std::to_string(rk) + std::to_string(tbs.size() % 40));
    }
    if (ci < 3) sample(run().cur);
}
// generated keys sign as well
static void gen(long ci, Rng &g) {
    ref::Curve *c = ref::named((int)g.below(10)); bool le = g.chance(1, 2); trand().reset(g.next());
    desc(fmt("generated key on %s %s", c->name.c_str(), le ? "le" : "be"));
    PCtx p(EVP_PKEY_CTX_new_id(le ? NID_dstu4145le : NID_dstu4145be, nullptr)); EVP_PKEY *kk = nullptr;
    if (!p || EVP_PKEY_keygen_init(p.get()) != 1 || EVP_PKEY_CTX_ctrl(p.get(), -1, -1, H_SET_CURVE, 0, c->grp) != 1 || EVP_PKEY_keygen(p.get(), &kk) != 1) { viol("C05/keygen", "key generation failed"); return; }
    PKey k(kk); ref::Pt Q; Bytes e = ref::enc_spki(k.get());
    // point = last fs bytes of the SPKI
    Bytes pt(e.end() - std::min(e.size(), c->fs()), e.end()); if (!ref::expand(*c, ref::ord(pt, le), Q)) { viol("C05/keygen", "public key of a generated key is no point"); return; }
    Bytes tbs = g.bytes(32), sg = ref::pkey_sign(k.get(), tbs); ref::Sig s;
    CHECK(!sg.empty() && ref::parse_sig(*c, sg, le, s) && ref::verify(*c, Q, tbs, s), "C05/equation", "signature of a generated key: %s", hex(sg).c_str());
    CHECK(ref::pkey_verify(k.get(), sg, tbs) == 1, "C05/self-verify", "generated key");
    stat("generated"); sig("gen" + c->name + (le ? "l" : "b"));
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    if (run().mode == "gen") for_cases(gen); else for_cases(one);
    ref::free_curves(); done_engine(); return finish_run();
}
