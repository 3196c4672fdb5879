// C20: HMAC, PBKDF2 and PBES2 through OpenSSL with the engine's digest and cipher, judged by the reference constructions.
#include "containers.hpp"
#include "dernav.hpp"
#include <openssl/kdf.h>
#include <openssl/pem.h>
#include <openssl/core_names.h>
#include <openssl/params.h>
using namespace cont;
static size_t edge_len(Rng &g, size_t mx) { return g.chance(1, 2) ? std::min(mx, g.pick<size_t>({0, 1, 31, 32, 33, 63, 64, 65, 20, 8, 96, 255, 256})) : (size_t)g.below(mx + 1); }
static bool feed(HMAC_CTX *h, const Bytes &m, Rng &g) { for (size_t p = 0; p < m.size();) { size_t k = g.chance(1, 12) ? 0 : std::min(m.size() - p, (size_t)g.range(1, g.chance(1, 2) ? 40 : 400)); if (HMAC_Update(h, m.data() + p, k) != 1) return false; p += k; } return true; }

static void hmac_case(long ci, Rng &g) {
    struct H { HMAC_CTX *h = nullptr; Bytes key, m; bool live = false; }; std::vector<H> hs(g.range(1, 3)); for (auto &x : hs) x.h = HMAC_CTX_new(); std::string hist;
    int n = (int)g.range(4, 16);
    for (int i = 0; i < n; i++) {
        H &x = hs[g.below(hs.size())]; int op = (int)g.below(6);
        if (!x.live || op == 0) { bool again = x.live && g.chance(1, 2), nomd = !x.key.empty() && again && g.chance(1, 2); if (!again) { x.key = g.bytes(edge_len(g, 200)); if (g.chance(1, 8)) std::fill(x.key.begin(), x.key.end(), 0xff); } hist += again ? "R " : fmt("I%zu ", x.key.size()); desc(hist); Bytes k = x.key; if (k.empty()) k = {0}; int r = again ? HMAC_Init_ex(x.h, nullptr, 0, nomd ? nullptr : nullptr, nullptr) : HMAC_Init_ex(x.h, k.data(), (int)x.key.size(), eng().md, eng().e); if (r != 1) { viol("C20/hmac", "init failed"); break; } x.m.clear(); x.live = true; }
        else if (op < 3) { Bytes m = g.bytes(edge_len(g, 300)); hist += fmt("U%zu ", m.size()); desc(hist); if (!feed(x.h, m, g)) { viol("C20/hmac", "update failed"); break; } x.m.insert(x.m.end(), m.begin(), m.end()); }
        else if (op == 3 && hs.size() > 1) { H &y = hs[g.below(hs.size())]; if (&y == &x) continue; hist += "C "; desc(hist); if (HMAC_CTX_copy(y.h, x.h) != 1) { viol("C20/hmac", "copy failed"); break; } y.key = x.key; y.m = x.m; y.live = true; stat("hmac_copies"); }
        else { hist += "F "; desc(hist); Bytes o(64, 0xa5); unsigned l = 0; if (HMAC_Final(x.h, o.data(), &l) != 1 || l != 32) { viol("C20/hmac", fmt("final failed or %u bytes", l)); break; } o.resize(32); Bytes w = ref::hmac(x.key, x.m); if (o != w) viol("C20/hmac", "HMAC " + hex(o) + " instead of " + hex(w) + " key " + shorthex(x.key) + " message " + shorthex(x.m)); x.live = false; stat("hmacs"); }
    }
    for (auto &x : hs) HMAC_CTX_free(x.h);
    // the same function through the MAC and key interfaces
    Bytes key = g.bytes(std::max<size_t>(1, edge_len(g, 100))), m = g.bytes(edge_len(g, 300)), w = ref::hmac(key, m), o(64); size_t ol = 0;
    if (g.chance(1, 2)) { desc(fmt("EVP_MAC key %zu message %zu", key.size(), m.size())); EVP_MAC *mac = EVP_MAC_fetch(nullptr, "HMAC", nullptr); EVP_MAC_CTX *c = EVP_MAC_CTX_new(mac); OSSL_PARAM p[2] = {OSSL_PARAM_construct_utf8_string(OSSL_MAC_PARAM_DIGEST, (char *)SN_dstu34311, 0), OSSL_PARAM_construct_end()}; bool ok = EVP_MAC_init(c, key.data(), key.size(), p) == 1 && EVP_MAC_update(c, m.data(), m.size()) == 1 && EVP_MAC_final(c, o.data(), &ol, o.size()) == 1; o.resize(ok ? ol : 0); EVP_MAC_CTX_free(c); EVP_MAC_free(mac); if (o != w) viol("C20/hmac-mac", ok ? "HMAC " + hex(o) + " instead of " + hex(w) : "EVP_MAC failed"); stat("hmacs"); }
    else { desc(fmt("HMAC key object, key %zu message %zu", key.size(), m.size())); PKey k(EVP_PKEY_new_raw_private_key(EVP_PKEY_HMAC, nullptr, key.data(), key.size())); MCtx c(EVP_MD_CTX_new()); ol = o.size(); bool ok = k && EVP_DigestSignInit(c.get(), nullptr, eng().md, nullptr, k.get()) == 1 && EVP_DigestSign(c.get(), o.data(), &ol, m.data(), m.size()) == 1; o.resize(ok ? ol : 0); if (o != w) viol("C20/hmac-key", ok ? "HMAC " + hex(o) + " instead of " + hex(w) : "HMAC through a key object failed"); stat("hmacs"); }
    sig(hist + fmt("%zu/%zu", key.size(), m.size())); if (ci < 2) sample(hist);
}
static void pbkdf2_case(long ci, Rng &g) {
    Bytes pw = g.bytes(edge_len(g, 100)), salt = g.bytes(edge_len(g, 80)); int iter = g.chance(1, 40) ? (int)g.range(500, 1500) : (int)g.range(1, 12); size_t n = g.pick<size_t>({1, 8, 31, 32, 33, 64, 65, 100, 7 + g.below(150)}); if (iter > 100) n = 32; if (salt.empty()) salt = {1};
    desc(fmt("PBKDF2 password %s salt %s iterations %d length %zu", hex(pw).c_str(), hex(salt).c_str(), iter, n)); if (ci < 2) sample(run().cur); Bytes o(n + 16, 0xa5); static const char e = 0;
    if (PKCS5_PBKDF2_HMAC(pw.empty() ? &e : (const char *)pw.data(), (int)pw.size(), salt.data(), (int)salt.size(), iter, eng().md, (int)n, o.data()) != 1) { viol("C20/pbkdf2", "PBKDF2 failed"); return; }
    CHECK(o[n] == 0xa5, "C20/pbkdf2", "more than the requested bytes written"); o.resize(n); Bytes w = ref::pbkdf2(pw, salt, iter, n); CHECK(o == w, "C20/pbkdf2", "derived %s instead of %s", hex(o).c_str(), hex(w).c_str());
    stat("pbkdf2"); sig(fmt("pbkdf2 %zu %zu %d %zu", pw.size(), salt.size(), iter, n));
}
static std::string rand_pw(Rng &g) { for (;;) { std::string s = utf8(rand_password(g, 40)); if (s.size() < 1000) return s; } }   // PEM routines of OpenSSL take at most 1024 bytes
static std::string near_miss(const std::string &p, Rng &g) {   // never only a matter of trailing zero bytes (HMAC pads keys with them)
    std::string q = p; switch (g.below(5)) { case 0: q += (char)g.range(1, 255); break; case 1: q.pop_back(); break; case 2: { size_t i = g.below(q.size()); q[i] ^= (char)(1 << g.below(8)); if (!q[i]) q[i] = 1; if (q == p) q += 'x'; break; } case 3: q = ""; break; default: for (auto &c : q) c = isalpha((unsigned char)c) ? c ^ 32 : c; if (q == p) q = "x" + q; } return q;
}
struct Pb { Bytes salt, iv, sbox; int iter = 0; bool prf = false; };
// independent reader of a PBES2 AlgorithmIdentifier
static bool read_pbes2(const Bytes &alg, Pb &o) {
    auto a = kids(val(alg)); if (a.size() != 2 || a[0] != oid("1.2.840.113549.1.5.13")) return false; auto b = kids(val(a[1])); if (b.size() != 2) return false; auto k = kids(val(b[0])), c = kids(val(b[1])); if (k.size() != 2 || c.size() != 2 || k[0] != oid("1.2.840.113549.1.5.12") || c[0] != oid("1.2.804.2.1.1.1.1.1.1.3")) return false;
    auto kp = kids(val(k[1])), cp = kids(val(c[1])); if (kp.size() < 3 || cp.size() != 2) return false; o.salt = val(kp[0]); o.iter = 0; for (uint8_t x : val(kp[1])) o.iter = o.iter << 8 | x; auto pr = kids(val(kp.back())); o.prf = !pr.empty() && pr[0] == oid("1.2.804.2.1.1.1.1.1.2"); o.iv = val(cp[0]); o.sbox = val(cp[1]); return o.iv.size() == 8 && o.sbox.size() == 64;
}
static Bytes alg_der(const X509_ALGOR *a) { uint8_t *p = nullptr; int n = i2d_X509_ALGOR(a, &p); Bytes r; if (n > 0) r.assign(p, p + n); OPENSSL_free(p); return r; }
static std::string kin(EVP_PKEY *k) { return k ? hex(ref::enc_pkcs8(k)) : ""; }

static void pbes2_case(long ci, Rng &g) {
    std::string pw = rand_pw(g); int iter = (int)g.range(1, 20); Bytes salt = g.bytes(g.range(1, 40)), iv = g.bytes(8), sb = g.chance(1, 3) ? ref::default_sbox() : ref::random_sbox(g);
    int what = (int)g.below(5); desc(fmt("pbes2 kind %d password %s salt %zu iterations %d", what, hex((const uint8_t *)pw.data(), pw.size()).c_str(), salt.size(), iter)); if (ci < 2) sample(run().cur); sig(fmt("pbes2 %d %zu %zu %d", what, pw.size(), salt.size(), iter));
    KeyRec k = rand_key(g, false, true); Bytes p8 = key_pkcs8(k), canon; { PKey t(ref::decode_pkcs8(p8)); canon = ref::enc_pkcs8(t.get()); if (canon.empty()) { viol("C20/key", "key refused"); return; } }
    trand().reset(g.next());
    if (what == 0) {   // data, reference-encrypted, any table
        Bytes pt = g.bytes(g.range(1, 300)), al, ct = dstu_pbes2(pw, salt, iter, iv, sb, pt, al); const uint8_t *p = al.data(); X509_ALGOR *a = d2i_X509_ALGOR(nullptr, &p, (long)al.size()); if (!a) harness_error("algor");
        for (int t = 0; t < 4; t++) { std::string q = t ? near_miss(pw, g) : pw; uint8_t *o = nullptr; int n = 0; bool ok = PKCS12_pbe_crypt(a, q.data(), (int)q.size(), ct.data(), (int)ct.size(), &o, &n, 0) != nullptr; Bytes d; if (ok) d.assign(o, o + n); OPENSSL_free(o); if (!t) CHECK(ok && d == pt, "C20/pbes2-decrypt", ok ? "wrong plaintext" : "refused"); else if (pt.size() >= 8) CHECK(d != pt, "C20/wrong-password", "password %s opens data of %s", hex((const uint8_t *)q.data(), q.size()).c_str(), hex((const uint8_t *)pw.data(), pw.size()).c_str()); ERR_clear_error(); }
        uint8_t *o = nullptr; int n = 0; bool ok = PKCS12_pbe_crypt(a, pw.data(), (int)pw.size(), pt.data(), (int)pt.size(), &o, &n, 1) != nullptr; Bytes e; if (ok) e.assign(o, o + n); OPENSSL_free(o); CHECK(ok && e == ct, "C20/pbes2-encrypt", ok ? "wrong ciphertext" : "refused"); X509_ALGOR_free(a); stat("pbes2_data", 2); return;
    }
    if (what == 1) {   // private key, reference-encrypted, any table, every reading interface
        Bytes al, ct = dstu_pbes2(pw, salt, iter, iv, sb, p8, al), ed = seq({al, octet(ct)}); int api = (int)g.below(3);
        for (int t = 0; t < 3; t++) {
            std::string q = t ? near_miss(pw, g) : pw; EVP_PKEY *r = nullptr;
            if (api == 0) { const uint8_t *p = ed.data(); X509_SIG *s = d2i_X509_SIG(nullptr, &p, (long)ed.size()); PKCS8_PRIV_KEY_INFO *i = s ? PKCS8_decrypt(s, q.data(), (int)q.size()) : nullptr; r = i ? EVP_PKCS82PKEY(i) : nullptr; PKCS8_PRIV_KEY_INFO_free(i); X509_SIG_free(s); }
            else if (q.empty()) continue;
            else { BIO *b = BIO_new(BIO_s_mem()); if (api == 1) { BIO_write(b, ed.data(), (int)ed.size()); r = d2i_PKCS8PrivateKey_bio(b, nullptr, nullptr, (void *)q.c_str()); } else { const uint8_t *p = ed.data(); X509_SIG *s = d2i_X509_SIG(nullptr, &p, (long)ed.size()); PEM_write_bio_PKCS8(b, s); X509_SIG_free(s); r = PEM_read_bio_PrivateKey(b, nullptr, nullptr, (void *)q.c_str()); } BIO_free(b); }
            PKey rr(r); if (!t) CHECK(r && ref::enc_pkcs8(r) == canon, "C20/key-decrypt", r ? "another key (api %d)" : "refused (api %d)", api); else CHECK(!r || ref::enc_pkcs8(r) != canon, "C20/wrong-password", "password %s opens the key of %s", q.c_str(), pw.c_str()); ERR_clear_error();
        }
        stat("pbes2_read_keys"); return;
    }
    // private key encrypted by OpenSSL with the engine, judged by the reference
    PKey key(ref::decode_pkcs8(p8)); Bytes ed; bool given = what == 2; Bytes used_salt = salt;
    if (given) { X509_ALGOR *a = PKCS5_pbe2_set_iv(eng().cipher, iter, salt.data(), (int)salt.size(), iv.data(), g.chance(1, 2) ? NID_hmacWithDstu34311 : -1); if (!a) { viol("C20/pbes2-make", "algorithm refused"); return; } PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(key.get()); X509_SIG *s = i ? PKCS8_set0_pbe(pw.data(), (int)pw.size(), i, a) : nullptr; if (!s) { viol("C20/pbes2-make", "encryption failed"); X509_ALGOR_free(a); PKCS8_PRIV_KEY_INFO_free(i); return; } uint8_t *p = nullptr; int n = i2d_X509_SIG(s, &p); ed.assign(p, p + n); OPENSSL_free(p); X509_SIG_free(s); PKCS8_PRIV_KEY_INFO_free(i); }
    else { BIO *b = BIO_new(BIO_s_mem()); int r; if (what == 3) r = i2d_PKCS8PrivateKey_bio(b, key.get(), eng().cipher, (char *)pw.data(), (int)pw.size(), nullptr, nullptr); else r = g.chance(1, 2) ? PEM_write_bio_PKCS8PrivateKey(b, key.get(), eng().cipher, (char *)pw.data(), (int)pw.size(), nullptr, nullptr) : PEM_write_bio_PrivateKey(b, key.get(), eng().cipher, (unsigned char *)pw.data(), (int)pw.size(), nullptr, nullptr); if (r != 1) { viol("C20/pbes2-make", fmt("writing an encrypted key failed (%d)", what)); BIO_free(b); return; } if (what == 3) ed = from_bio(b); else { char *nm = nullptr, *hd = nullptr; uint8_t *d = nullptr; long n = 0; Bytes all = from_bio(b); if (PEM_read_bio(b, &nm, &hd, &d, &n) != 1 || strcmp(nm, "ENCRYPTED PRIVATE KEY")) { viol("C20/pbes2-make", std::string("PEM type ") + (nm ? nm : "none")); } else ed.assign(d, d + n); OPENSSL_free(nm); OPENSSL_free(hd); OPENSSL_free(d); } BIO_free(b); }
    if (ed.empty()) return; auto parts = kids(val(ed)); Pb pb; if (parts.size() != 2 || !read_pbes2(parts[0], pb)) { viol("C20/pbes2-structure", "not PBES2 with the DSTU cipher: " + shorthex(ed, 400)); return; }
    CHECK(pb.prf, "C20/pbes2-structure", "the pseudo-random function is not HMAC with GOST 34.311"); if (given) CHECK(pb.salt == salt && pb.iv == iv && pb.iter == iter, "C20/pbes2-structure", "salt, IV or iteration count differ from the requested ones"); CHECK(pb.sbox == ref::default_sbox(), "C20/pbes2-structure", "table in the parameters is %s", hex(pb.sbox).c_str());
    if (pb.iter > 0 && pb.iter < 5000) { Bytes kk = ref::pbkdf2(str(pw), pb.salt, pb.iter, 32), pt = ref::cfb(pb.sbox, kk, pb.iv, val(parts[1]), false); CHECK(pt == canon, "C20/pbes2-encrypt", "the reference decrypts it to %s instead of %s", shorthex(pt).c_str(), shorthex(canon).c_str()); } else stat("unusual_iterations");
    BIO *b = BIO_new_mem_buf(ed.data(), (int)ed.size()); PKey back(d2i_PKCS8PrivateKey_bio(b, nullptr, nullptr, (void *)pw.c_str())); BIO_free(b); CHECK(back && ref::enc_pkcs8(back.get()) == canon, "C20/key-decrypt", "the written key is not read back"); stat("pbes2_written_keys");
}
static void fixtures(long ci, Rng &) {
    if (ci >= 2) return; std::string f = run().repo + fmt("/tests/private%ld.pem", ci + 1); desc(f); for (const char *pw : {"123456", "123457", "12345", "1234567"}) { BIO *b = BIO_new_file(f.c_str(), "r"); if (!b) { stat("fixture_missing"); return; } PKey k(PEM_read_bio_PrivateKey(b, nullptr, nullptr, (void *)pw)); BIO_free(b); bool good = !strcmp(pw, "123456"); CHECK((bool)k == good, "C20/fixture", "%s with password %s: %s", f.c_str(), pw, k ? "opened" : "refused"); ERR_clear_error(); }
    stat("fixtures");
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    if (run().mode == "hmac") for_cases(hmac_case); else if (run().mode == "pbkdf2") for_cases(pbkdf2_case); else if (run().mode == "fixtures") for_cases(fixtures); else for_cases(pbes2_case);
    ref::free_curves(); done_engine(); return finish_run();
}
