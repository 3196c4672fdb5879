// C08: key generation. The generated key is read back through its encodings and compared with the reference.
#include "keyview.hpp"

static std::set<std::string> seen_d;
struct Sel { ref::Curve *c; Bytes sb; };
static void one(long ci, Rng &g) {
    bool le = g.chance(1, 2); trand().reset(g.next()); std::string h = le ? "le: " : "be: "; uint64_t hs = le; static int left;
    if (g.chance(1, 4)) { left = 1 + (int)g.below(3); trand().feed = [](unsigned char *b, int n) { if (left-- <= 0) return false; memset(b, 0, n); return true; }; h += "zero-rng "; }   // zero candidates first
    std::vector<PCtx> cx; std::vector<Sel> st; 
    // libcrypto copies no context that is set up for key generation: copies are taken while it is set up for signing
    bool copies = g.chance(1, 2); static PKey some[2]; if (!some[le]) some[le].reset(ref::decode_priv(*ref::named(1), ref::Bn(12345ul), le));
    cx.emplace_back(copies ? EVP_PKEY_CTX_new(some[le].get(), nullptr) : EVP_PKEY_CTX_new_id(le ? NID_dstu4145le : NID_dstu4145be, g.chance(1, 2) ? eng().e : nullptr)); st.push_back({ref::named(6), ref::default_sbox()});
    if (!cx[0] || (copies && g.chance(1, 2) ? EVP_PKEY_sign_init(cx[0].get()) : EVP_PKEY_keygen_init(cx[0].get())) != 1) { viol("C08/init", "keygen_init failed"); return; }
    int ops = (int)g.below(8), gens = 1 + (int)g.below(2);
    for (int o = 0; o < ops + gens; o++) {
        size_t i = g.below(cx.size()); EVP_PKEY_CTX *p = cx[i].get(); int op = o >= ops ? 99 : (int)g.below(13); hs = mix(hs, op * 4 + i);
        switch (op) {
        case 0: case 1: { int n = (int)g.below(10); h += fmt("str-curve(%zu,uacurve%d) ", i, n); desc(h); if (EVP_PKEY_CTX_ctrl_str(p, "curve", fmt("uacurve%d", n).c_str()) != 1) viol("C08/curve-refused", "named curve refused"); st[i].c = ref::named(n); break; }
        case 2: case 3: { ref::Curve *c = ref::any_curve(g); h += fmt("group(%zu,%s) ", i, c->name.c_str()); desc(h); EC_GROUP *q = EC_GROUP_dup(c->grp); int r = EVP_PKEY_CTX_ctrl(p, -1, -1, H_SET_CURVE, 0, q); EC_GROUP_free(q); if (r != 1) viol("C08/curve-refused", "group refused"); st[i].c = c; break; }
        case 4: { Bytes s = ref::random_sbox(g), t = s; h += fmt("sbox(%zu,%s) ", i, hex(s.data(), 3).c_str()); desc(h); if (EVP_PKEY_CTX_ctrl(p, -1, -1, H_SET_SBOX, 64, t.data()) != 1) viol("C08/sbox-refused", "table refused"); std::fill(t.begin(), t.end(), 0); st[i].sb = s; break; }
        case 5: { Bytes s = ref::random_sbox(g); if (g.chance(1, 3)) { s[0] = 0; if (g.chance(1, 2)) s[1] = 0; } std::string x = hex(s); if (g.chance(1, 2)) for (auto &ch : x) ch = (char)toupper(ch); h += fmt("str-sbox(%zu,%s) ", i, hex(s.data(), 3).c_str()); desc(h); if (EVP_PKEY_CTX_ctrl_str(p, "sbox", x.c_str()) != 1) viol("C08/sbox-refused", "table string refused"); st[i].sb = s; break; }
        case 6: { Bytes s = ref::default_sbox(); h += fmt("sbox(%zu,default) ", i); desc(h); if (EVP_PKEY_CTX_ctrl(p, -1, -1, H_SET_SBOX, 64, s.data()) != 1) viol("C08/sbox-refused", "default table refused"); st[i].sb = s; break; }
        case 7: { const char *bad[] = {"nosuchcurve", "prime256v1", "sect163k1", "", "uacurve10", "SHA256", "dstu4145le"}; const char *b = bad[g.below(7)]; h += fmt("bad-curve(%zu,%s) ", i, b); desc(h); if (EVP_PKEY_CTX_ctrl_str(p, "curve", b) == 1) viol("C08/bad-accepted", std::string("curve ") + b); break; }
        case 8: { std::string x = hex(ref::random_sbox(g)); switch (g.below(9)) { case 5: x[0] = '-'; break; case 6: x.back() = g.pick({' ', 'g', '\n', '-'}); break; case 7: x[1] = 'x'; x[0] = '0'; break; case 8: x.resize(127); break; case 0: x.resize(126); break; case 1: x += "00"; break; case 2: x = "-" + x; break; case 3: x[40] = 'g'; break; default: x = ""; } h += fmt("bad-str-sbox(%zu,%zu) ", i, x.size()); desc(h); if (EVP_PKEY_CTX_ctrl_str(p, "sbox", x.c_str()) == 1) viol("C08/bad-accepted", "table string " + x); break; }
        case 9: { uint8_t j[70]; g.fill(j, 70); h += fmt("bad-ctrl(%zu) ", i); desc(h); int r; switch (g.below(4)) { case 0: { static const int L[] = {63, 65, 0, 1, 128, 32, -1, 70}; std::unique_ptr<uint8_t[]> q(new uint8_t[128]); memset(q.get(), 0x5a, 128); r = EVP_PKEY_CTX_ctrl(p, -1, -1, H_SET_SBOX, L[g.below(8)], q.get()); break; } case 1: r = EVP_PKEY_CTX_ctrl(p, -1, -1, H_SET_SBOX, 64, nullptr); break; case 2: r = EVP_PKEY_CTX_ctrl(p, -1, -1, H_SET_CURVE, 0, nullptr); break; default: r = EVP_PKEY_CTX_ctrl_str(p, "table", "1"); } if (r == 1) viol("C08/bad-accepted", "bad control value"); break; }
        case 10: case 11: { if (!copies) break; EVP_PKEY_sign_init(p); h += fmt("dup(%zu) ", i); desc(h); EVP_PKEY_CTX *d = EVP_PKEY_CTX_dup(p); if (!d) { viol("C08/dup", "context copy failed"); return; } cx.emplace_back(d); st.push_back(st[i]); stat("ctx_copies");
            if (g.chance(1, 4) && cx.size() > 1) { size_t k = g.below(cx.size() - 1); cx.erase(cx.begin() + k); st.erase(st.begin() + k); h += fmt("free(%zu) ", k); } break; }
        default: {
            if (op == 12 && g.chance(2, 3)) break;
            h += fmt("gen(%zu) ", i); desc(h); if (copies && EVP_PKEY_keygen_init(p) != 1) { viol("C08/init", "keygen_init failed"); return; } EVP_PKEY *kk = nullptr; int r = EVP_PKEY_keygen(p, &kk); PKey k(kk); ref::Curve *c = st[i].c;
            if (r != 1 || !k) { viol("C08/fails", "key generation failed"); return; }
            stat("keys"); stat("curve_" + c->name); ref::Bn d; ref::Pt Q, W;
            if (EVP_PKEY_id(k.get()) != (le ? NID_dstu4145le : NID_dstu4145be)) viol("C08/type", "key of another type");
            if (!private_value(k.get(), d)) { viol("C08/private", "private value not readable"); return; }
            if (d.zero() || !(d < c->n)) { viol("C08/private", "private value out of range: " + d.str()); return; }
            W = ref::pub_of(*c, d);
            bool quirk = !W.inf && BN_is_one((const BIGNUM *)W.x) && ref::Bn::be(ref::compress(*c, W)).zero();   // x=1 with trace 0 has no encoding
            Bytes e8 = ref::enc_pkcs8(k.get()), w8 = ref::pkcs8_der(*c, d, le, &st[i].sb), es = ref::enc_spki(k.get()), ep = key_params(k.get()), wp = ref::params_der(*c, le, &st[i].sb);
            CHECK(ep == wp, "C08/params", "curve/table carried by the key: %s expected %s", shorthex(ep, 400).c_str(), shorthex(wp, 400).c_str());
            CHECK(e8 == w8, "C08/encoding", "private key encoding %s expected %s", shorthex(e8, 400).c_str(), shorthex(w8, 400).c_str());
            if (!quirk) { Bytes ws = ref::spki_der(*c, W, le, &st[i].sb); CHECK(es == ws, "C08/public", "public key is not -dG: %s expected %s", shorthex(es, 300).c_str(), shorthex(ws, 300).c_str()); }
            if (!printed_point(k.get(), *c, Q) || !(Q == W)) viol("C08/public", "public point is not -dG");
            CHECK(EVP_PKEY_bits(k.get()) == c->m, "C08/bits", "EVP_PKEY_bits %d", EVP_PKEY_bits(k.get()));
            if (c->m > 100 && !seen_d.insert(c->name + d.str()).second) viol("C08/repeat", "the same private key twice");
            if (g.chance(1, 4) && c->m > 100) { Bytes t = g.bytes(32); Bytes s = ref::pkey_sign(k.get(), t); ref::Sig sg; CHECK(ref::parse_sig(*c, s, le, sg) && ref::verify(*c, W, t, sg), "C08/unusable", "signature of the new key does not verify"); }
            sig(c->name + (le ? "l" : "b") + (st[i].sb == ref::default_sbox() ? "" : "t") + std::to_string(hs % 64)); break; }
        }
    }
    sig(hs); if (ci < 3) sample(h);
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    for_cases(one); ref::free_curves(); done_engine(); return finish_run();
}
