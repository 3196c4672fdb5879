// C24: allocation failure. Every allocation an operation makes is made to fail, one at a time (and, from some point on, all of them): the operation must report failure or
// give the right result, must not crash, must leave nothing behind, and must work again when memory is back. A case runs in a child; the parent reads off which allocation it died in.
#include "containers.hpp"
#include "dernav.hpp"
#include <execinfo.h>
#include <openssl/hmac.h>
#include <openssl/pem.h>
#include <openssl/cms.h>
#include <openssl/pkcs12.h>
#include <openssl/pkcs7.h>
#include <sys/wait.h>
using namespace cont;
// ---- allocator: counts and fails while a fault window is open, and knows which blocks of the current trial are live
struct Hdr { size_t n; uint32_t epoch; uint32_t slot; };
static bool window = false, capture = false, was_hit = false; static long seen = 0, fail_from = -1; static bool sticky = false; static uint32_t epoch = 0; static long live = 0; static thread_local bool inhook = false;
static std::map<void *, std::vector<void *>> traces; static std::vector<void *> hit_trace; static std::vector<uint64_t> *sites = nullptr; // call stack of every allocation that can be refused
static const char *base(const char *s) { const char *p = strrchr(s ? s : "?", '/'); return p ? p + 1 : s ? s : "?"; }
// what a return address belongs to: 0 libcrypto, 1 machinery of libcrypto that is not judged (error queue, decoders, algorithm fetching), 2 engine or keylib, 3 anything else
static int kind_of(void *a) {
    static std::map<void *, int> cache; auto it = cache.find(a); if (it != cache.end()) return it->second; Dl_info d; int k = 3;
    if (dladdr(a, &d) && d.dli_fname) { const char *m = base(d.dli_fname), *s = d.dli_sname ? d.dli_sname : ""; if (strstr(m, "dstu.so") || strstr(m, "libkeylib")) k = 2; else if (strstr(m, "libcrypto")) { k = 0; for (const char *x : {"ERR_", "OSSL_DECODER", "OSSL_ENCODER", "OSSL_STORE", "CONF_", "CRYPTO_THREAD_run_once", "CMS_set_detached", "CMS_SignerInfo_sign", "PKCS7_dataFinal", "PKCS7_SIGNER_INFO_sign"}) if (!strncmp(s, x, strlen(x))) k = 1; if (strstr(s, "_fetch")) k = 1; } else if (strstr(m, "libc.so") || strstr(m, "legacy.so")) k = 0; }
    return cache[a] = k;
}
static std::vector<void *> bt() { void *f[40]; int n = backtrace(f, 40), i = 0; while (i < n && i < 8 && kind_of(f[i]) == 3) i++; return std::vector<void *>(f + i, f + n); }
static int judge_frames(const std::vector<void *> &f) { for (void *a : f) { int k = kind_of(a); if (k) return k; } return 3; }
static bool refuse(int k) { if (!window || k == 1) return false; long i = seen++; if (fail_from < 0 || (sticky ? i < fail_from : i != fail_from)) return false; was_hit = true; return true; }
static void *get(size_t n) {
    int k = 3; std::vector<void *> t; if (epoch && !inhook) { inhook = true; t = bt(); k = judge_frames(t); inhook = false; }
    if (sites && window && k != 1) { inhook = true; uint64_t h = 14695981039346656037ull; for (void *a : t) h = (h ^ (uint64_t)a) * 1099511628211ull; sites->push_back(h); inhook = false; }
    if (refuse(k)) { if (capture) hit_trace = t; return nullptr; }
    uint8_t *p = (uint8_t *)malloc(n + 16); if (!p) return nullptr; auto *h = (Hdr *)p; h->n = n; h->epoch = k == 2 ? epoch : 0; if (h->epoch) { live++; if (capture) traces[p + 16] = t; } memset(p + 16, 0x5a, n); return p + 16;
}
static void release(void *q) { auto *h = (Hdr *)((uint8_t *)q - 16); if (h->epoch && h->epoch == epoch) { live--; if (capture) traces.erase(q); } free(h); }
__attribute__((noinline)) static void *h_malloc(size_t n, const char *, int) { return n ? get(n) : nullptr; }
__attribute__((noinline)) static void h_free(void *q, const char *, int) { if (q) release(q); }
__attribute__((noinline)) static void *h_realloc(void *q, size_t n, const char *, int) { if (!q) return n ? get(n) : nullptr; if (!n) { release(q); return nullptr; } void *r = get(n); if (r) { memcpy(r, q, std::min(n, ((Hdr *)((uint8_t *)q - 16))->n)); release(q); } return r; }
static std::string where(const std::vector<void *> &f) { std::string s; int k = 0; for (void *a : f) { Dl_info d; if (!dladdr(a, &d) || !d.dli_fname) continue; s += std::string(s.empty() ? "" : "<") + (d.dli_sname ? d.dli_sname : fmt("%s+%lx", base(d.dli_fname), (long)((char *)a - (char *)d.dli_fbase)).c_str()); if (++k > 11) break; } return s; }
// ---- operations: body(t) opens the window itself; returns "" when the outcome is acceptable
struct Fault { void on() { window = true; } void off() { window = false; } };
struct Op { uint64_t phase = 0; std::string name, what; std::function<std::string(Fault &, bool faulted)> body; };
struct Win { Win() { window = true; } ~Win() { window = false; } };
static Bytes sb_or(const Bytes &s) { return s.empty() ? ref::default_sbox() : s; }
#define OFF (window = false)
static std::string need(bool faulted, const std::string &w) { return faulted ? "" : "failed with memory available: " + w; }
static KeyRec good_key(Rng &g, bool second = false) { for (;;) { KeyRec k = rand_key(g, second, true); if (k.c->n.nbytes() > 8 && (!second || k.c2->n.nbytes() > 8)) return k; } }
static Bytes canon(const KeyRec &k) { PKey p(ref::decode_pkcs8(key_pkcs8(k))); return p ? ref::enc_pkcs8(p.get()) : Bytes(); }
static Bytes spki(const KeyRec &k) { return ref::spki_der(*k.c, ref::pub_of(*k.c, k.d), k.le, k.sbox.empty() ? nullptr : &k.sbox, k.custom); }
// what an opened store must hold: every primary key and every certificate in order; the additional key an entry may carry in its attributes (opt) is taken along when it can be read
static std::string store_lack(KeyStore *ks, const std::vector<Bytes> &keys, const std::vector<bool> &opt, const std::vector<Bytes> &certs) {
    std::vector<Bytes> have; for (size_t i = 0; i < KeyStoreKeyNum(ks); i++) have.push_back(ref::enc_pkcs8((EVP_PKEY *)KeyStoreGetKey(ks, i)));
    size_t a = 0; for (size_t i = 0; i < keys.size(); i++) { if (a < have.size() && have[a] == keys[i]) a++; else if (!opt[i]) return fmt("key %zu is missing", i); } if (a != have.size()) return "a key that is not in the container";
    if (KeyStoreCertNum(ks) != certs.size()) return fmt("%zu certificates instead of %zu", (size_t)KeyStoreCertNum(ks), certs.size()); for (size_t i = 0; i < certs.size(); i++) if (x509_der((X509 *)KeyStoreGetCert(ks, i)) != certs[i]) return fmt("certificate %zu is another", i); return "";
}
static const int plan[] = {9, 0, 4, 16, 7, 8, 5, 15, 6, 1, 13, 16, 12, 18, 19, 20, 21, 22, 4, 9, 5, 3, 6, 7, 10, 2, 5, 8, 16, 11, 0, 15, 14, 6, 1, 12, 13, 15, 18, 20}; // operation of case i
static Op make(int id, Rng &g) {
    Op o; auto G = [&] { return std::make_shared<Rng>(g.next()); };
    switch (id) {
    case 0: { Bytes m = g.bytes(g.below(300)), sb = g.chance(1, 2) ? ref::random_sbox(g) : Bytes(), w = ref::hash(m, sb_or(sb)); o.name = "digest"; o.what = fmt("message of %zu", m.size());
        o.body = [=](Fault &, bool f) -> std::string { Bytes d(32), d2(32); unsigned n = 0; bool ok, ok2 = true; MCtx c2; window = true; MCtx c(EVP_MD_CTX_new()); ok = c && EVP_DigestInit_ex(c.get(), eng().md, nullptr) == 1 && (sb.empty() || EVP_MD_CTX_ctrl(c.get(), H_SET_SBOX, 64, (void *)sb.data()) > 0) && EVP_DigestUpdate(c.get(), m.data(), m.size()) == 1; if (ok) { c2.reset(EVP_MD_CTX_new()); ok2 = c2 && EVP_MD_CTX_copy_ex(c2.get(), c.get()) == 1 && EVP_DigestFinal_ex(c2.get(), d2.data(), &n) == 1; } ok = ok && EVP_DigestFinal_ex(c.get(), d.data(), &n) == 1; OFF;
            if (ok && d != w) return "wrong digest"; if (ok && ok2 && c2 && d2 != w) return "wrong digest of a copy"; if (!ok || !ok2) { if (!f) return "failed"; if (c) { Bytes e(32); EVP_MD_CTX_reset(c.get()); if (EVP_DigestInit_ex(c.get(), eng().md, nullptr) != 1 || EVP_DigestUpdate(c.get(), "abc", 3) != 1 || EVP_DigestFinal_ex(c.get(), e.data(), &n) != 1 || e != ref::hash(Bytes{'a', 'b', 'c'})) return "the context does not work again"; } } return ""; }; break; }
    case 1: { Bytes k = g.bytes(32), iv = g.bytes(8), m = g.bytes(g.range(1, 300)), sb = g.chance(1, 2) ? ref::random_sbox(g) : Bytes(); bool enc = g.chance(1, 2); Bytes w = ref::cfb(sb_or(sb), k, iv, m, enc); o.name = "cipher"; o.what = fmt("%zu bytes", m.size());
        o.body = [=](Fault &, bool f) -> std::string { Bytes d(m.size() + 32), d2(m.size() + 32); int n = 0, n2 = 0; window = true; CCtx c(EVP_CIPHER_CTX_new()), c2; bool ok = c && EVP_CipherInit_ex(c.get(), eng().cipher, nullptr, k.data(), iv.data(), enc) == 1 && (sb.empty() || EVP_CIPHER_CTX_ctrl(c.get(), H_SET_SBOX, 64, (void *)sb.data()) > 0), ok2 = ok; if (ok) { c2.reset(EVP_CIPHER_CTX_new()); ok2 = c2 && EVP_CIPHER_CTX_copy(c2.get(), c.get()) == 1; } ok = ok && EVP_CipherUpdate(c.get(), d.data(), &n, m.data(), (int)m.size()) == 1; if (ok2 && c2) ok2 = EVP_CipherUpdate(c2.get(), d2.data(), &n2, m.data(), (int)m.size()) == 1; OFF; d.resize(n); d2.resize(n2);
            if (ok && d != w) return "wrong output"; if (ok2 && c2 && d2 != w) return "wrong output of a copy"; if ((!ok || !ok2)) { if (!f) return "failed"; if (c) { Bytes e(m.size() + 32); EVP_CIPHER_CTX_reset(c.get()); if (EVP_CipherInit_ex(c.get(), eng().cipher, nullptr, k.data(), iv.data(), enc) != 1 || (!sb.empty() && EVP_CIPHER_CTX_ctrl(c.get(), H_SET_SBOX, 64, (void *)sb.data()) <= 0) || EVP_CipherUpdate(c.get(), e.data(), &n, m.data(), (int)m.size()) != 1) return "the context does not work again"; e.resize(n); if (e != w) return "wrong output after the failure"; } } return ""; }; break; }
    case 2: { Bytes k = g.bytes(32), iv = g.bytes(8), sb = ref::random_sbox(g), m = g.bytes(40), w = ref::cfb(sb, k, iv, m, true), der1 = seq({octet(iv), octet(sb)}); o.name = "cipher-params"; 
        o.body = [=](Fault &, bool f) -> std::string { CCtx c(EVP_CIPHER_CTX_new()); if (EVP_EncryptInit_ex(c.get(), eng().cipher, nullptr, k.data(), iv.data()) != 1) return "init"; ASN1_TYPE *t = nullptr; 
            if (EVP_CIPHER_CTX_ctrl(c.get(), H_SET_SBOX, 64, (void *)sb.data()) <= 0) return "ctrl"; t = ASN1_TYPE_new(); window = true; int r = EVP_CIPHER_param_to_asn1(c.get(), t); OFF; Bytes e; if (r > 0) { uint8_t *p = nullptr; int n = i2d_ASN1_TYPE(t, &p); if (n > 0) e.assign(p, p + n); OPENSSL_free(p); } ASN1_TYPE_free(t); if (r <= 0) return need(f, "param_to_asn1"); return e == der1 ? "" : "wrong parameters written: " + hex(e); }; break; }
    case 3: { Bytes k = g.bytes(g.range(1, 80)), m = g.bytes(g.below(200)), w = ref::hmac(k, m); o.name = "hmac"; o.body = [=](Fault &, bool f) -> std::string { Bytes d(64); unsigned n = 0; window = true; HMAC_CTX *h = HMAC_CTX_new(); bool ok = h && HMAC_Init_ex(h, k.data(), (int)k.size(), eng().md, nullptr) == 1 && HMAC_Update(h, m.data(), m.size()) == 1 && HMAC_Final(h, d.data(), &n) == 1; OFF; HMAC_CTX_free(h); if (!ok) return need(f, "hmac"); d.resize(n); return d == w ? "" : "wrong MAC"; }; break; }
    case 4: case 5: { KeyRec k = good_key(g); Bytes p8 = key_pkcs8(k), cn = canon(k), sp = spki(k); bool pub = id == 5; o.name = pub ? "decode-public" : "decode-private"; o.what = k.c->name + (k.le ? " le" : " be") + (k.custom ? " spelled out" : "");
        o.body = [=](Fault &, bool f) -> std::string { window = true; EVP_PKEY *p = pub ? ref::decode_spki(sp) : ref::decode_pkcs8(p8); OFF; PKey q(p); if (!p) return need(f, "decode"); Bytes s2 = ref::enc_spki(p); if (s2 != sp && !(s2 == ref::spki_der(*k.c, ref::pub_of(*k.c, k.d), k.le, k.sbox.empty() ? nullptr : &k.sbox))) return "decoded to another public key: " + hex(s2); if (!pub && ref::enc_pkcs8(p) != cn) return "decoded to another private key"; return ""; }; break; }
    case 6: { KeyRec k = good_key(g); Bytes cn = canon(k), sp; std::shared_ptr<EVP_PKEY> p(ref::decode_pkcs8(key_pkcs8(k)), EVP_PKEY_free); sp = ref::enc_spki(p.get()); bool pub = g.chance(1, 2); o.name = pub ? "encode-public" : "encode-private"; o.what = k.c->name;
        o.body = [=](Fault &, bool f) -> std::string { Bytes e; if (pub) { uint8_t *b = nullptr; window = true; int n = i2d_PUBKEY(p.get(), &b); OFF; if (n > 0) e.assign(b, b + n); OPENSSL_free(b); } else { uint8_t *b = nullptr; window = true; PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(p.get()); int n = i ? i2d_PKCS8_PRIV_KEY_INFO(i, &b) : 0; OFF; if (n > 0) e.assign(b, b + n); OPENSSL_free(b); PKCS8_PRIV_KEY_INFO_free(i); } if (!e.empty() && e != (pub ? sp : cn)) { PKey back(pub ? ref::decode_spki(e) : ref::decode_pkcs8(e)); if (!back || (pub ? ref::enc_spki(back.get()) != sp : ref::enc_pkcs8(back.get()) != cn)) return "encoded to something else: " + hex(e); } if (e.empty() && !f) return "failed"; if (e.empty() && (ref::enc_spki(p.get()) != sp || ref::enc_pkcs8(p.get()) != cn)) return "the key changed"; return ""; }; break; }
    case 7: { KeyRec k = good_key(g); std::shared_ptr<EVP_PKEY> p(ref::decode_pkcs8(key_pkcs8(k)), EVP_PKEY_free); Bytes t = g.bytes(32); ref::Pt Q = ref::pub_of(*k.c, k.d); uint64_t rs = g.next(); o.name = "sign"; o.what = k.c->name;
        o.body = [=](Fault &, bool f) -> std::string { trand().reset(rs); Bytes s(4 * k.c->os() + 40); size_t n = s.size(); window = true; PCtx c(EVP_PKEY_CTX_new(p.get(), nullptr)); bool ok = c && EVP_PKEY_sign_init(c.get()) == 1; if (ok && rs % 3 == 0) { PCtx c2(EVP_PKEY_CTX_dup(c.get())); ok = !!c2; c.swap(c2); } ok = ok && EVP_PKEY_sign(c.get(), s.data(), &n, t.data(), t.size()) == 1; OFF; ref::Sig x; if (!ok) { if (!f) return "failed"; Bytes s2 = ref::pkey_sign(p.get(), t); return ref::parse_sig(*k.c, s2, k.le, x) && ref::verify(*k.c, Q, t, x) ? "" : "the key does not sign any more"; } s.resize(n); return ref::parse_sig(*k.c, s, k.le, x) && ref::verify(*k.c, Q, t, x) ? "" : "invalid signature " + hex(s); }; break; }
    case 8: { KeyRec k = good_key(g); std::shared_ptr<EVP_PKEY> p(ref::decode_spki(spki(k)), EVP_PKEY_free); Bytes t = g.bytes(32); trand().reset(g.next()); PKey pr(ref::decode_pkcs8(key_pkcs8(k))); Bytes s = ref::pkey_sign(pr.get(), t), t2 = t; t2[g.below(20)] ^= 1; if (g.chance(1, 2) && s.size() > 2 && s[1] + 2u == s.size()) s.erase(s.begin(), s.begin() + 2); o.name = "verify"; o.what = k.c->name;
        o.body = [=](Fault &, bool f) -> std::string { window = true; int r = ref::pkey_verify(p.get(), s, t); int q = ref::pkey_verify(p.get(), s, t2); OFF; if (q == 1) return "a signature of something else is accepted"; if (r != 1 && !f) return "failed"; if (r != 1 && ref::pkey_verify(p.get(), s, t) != 1) return "the key does not verify any more"; return ""; }; break; }
    case 9: { ref::Curve *c = ref::named((int)g.below(5)); bool byname = g.chance(1, 2); int idx = (int)(std::find(ref::nameds().begin(), ref::nameds().end(), c) - ref::nameds().begin()); Bytes sb = g.chance(1, 2) ? ref::random_sbox(g) : Bytes(); bool le = g.chance(1, 2); uint64_t rs = g.next(); o.name = "keygen"; o.what = c->name + (byname ? " by name" : " by group");
        o.body = [=](Fault &, bool f) -> std::string { trand().reset(rs); EVP_PKEY *k = nullptr; window = true; PCtx p(EVP_PKEY_CTX_new_id(le ? NID_dstu4145le : NID_dstu4145be, nullptr)); bool ok = p && EVP_PKEY_keygen_init(p.get()) == 1 && (byname ? EVP_PKEY_CTX_ctrl_str(p.get(), "curve", fmt("uacurve%d", idx).c_str()) > 0 : EVP_PKEY_CTX_ctrl(p.get(), -1, -1, H_SET_CURVE, 0, c->grp) == 1) && (sb.empty() || EVP_PKEY_CTX_ctrl_str(p.get(), "sbox", hex(sb).c_str()) > 0); ok = ok && EVP_PKEY_keygen(p.get(), &k) == 1; OFF; PKey kk(k); if (!ok) { if (k) return "a key comes with a failure"; return need(f, "keygen"); }
            Bytes e = ref::enc_pkcs8(k), s = ref::enc_spki(k); auto i = kids(val(e)); if (i.size() < 3) return "the generated key has no private part"; Bn d = Bn::le(val(i[2])); if (d.zero()) return "zero key"; if (s != ref::spki_der(*c, ref::pub_of(*c, d), le, sb.empty() ? nullptr : &sb)) return "the generated key is not a key pair on the curve and table asked for: " + hex(s); return ""; }; break; }
    case 10: { KeyRec a = good_key(g), b = a; if (g.chance(1, 2)) b.d = ref::rand_scalar(g, b.c->n); else { b.sbox = ref::random_sbox(g); } std::shared_ptr<EVP_PKEY> x(ref::decode_spki(spki(a)), EVP_PKEY_free), y(ref::decode_spki(spki(a)), EVP_PKEY_free), z(ref::decode_spki(spki(b)), EVP_PKEY_free); bool same = a.d == b.d; o.name = "compare";
        o.body = [=](Fault &, bool f) -> std::string { window = true; int r = EVP_PKEY_eq(x.get(), y.get()), q = EVP_PKEY_eq(x.get(), z.get()); OFF; if (!same && q == 1) return "different keys compare equal"; if (r != 1 && !f) return "equal keys differ"; return ""; }; break; }
    case 11: { KeyRec k = good_key(g); std::shared_ptr<EVP_PKEY> p(ref::decode_pkcs8(key_pkcs8(k)), EVP_PKEY_free); auto text = [p](int w) { BIO *b = BIO_new(BIO_s_mem()); int r = w == 0 ? EVP_PKEY_print_private(b, p.get(), 2, nullptr) : w == 1 ? EVP_PKEY_print_public(b, p.get(), 2, nullptr) : EVP_PKEY_print_params(b, p.get(), 2, nullptr); char *q; long n = BIO_get_mem_data(b, &q); std::string s(q, n); BIO_free(b); return r == 1 ? s : std::string(); }; int w = (int)g.below(3); std::string full = text(w); o.name = "print"; o.what = fmt("kind %d", w);
        o.body = [=](Fault &, bool f) -> std::string { BIO *b = BIO_new(BIO_s_mem()); window = true; int r = w == 0 ? EVP_PKEY_print_private(b, p.get(), 2, nullptr) : w == 1 ? EVP_PKEY_print_public(b, p.get(), 2, nullptr) : EVP_PKEY_print_params(b, p.get(), 2, nullptr); OFF; char *q; long n = BIO_get_mem_data(b, &q); std::string s(q ? q : "", q ? n : 0); BIO_free(b); if (s != full.substr(0, s.size()) && !f) return "other text"; if (r != 1 && !f) return "failed"; return ""; }; break; }
    case 12: { KeyRec k = good_key(g); std::string pw = utf8(rand_password(g)); Bytes al, ct, cn = canon(k); if (!pbe_encrypt(PBE_DSTU, g, pw, 1, key_pkcs8(k), al, ct)) harness_error("pbe"); Bytes d = seq({al, octet(ct)}); const uint8_t *q = d.data(); std::shared_ptr<X509_SIG> xs(d2i_X509_SIG(nullptr, &q, (long)d.size()), X509_SIG_free); o.name = "pkcs8-decrypt";
        o.body = [=](Fault &, bool f) -> std::string { window = true; PKCS8_PRIV_KEY_INFO *i = PKCS8_decrypt(xs.get(), pw.c_str(), (int)pw.size()); EVP_PKEY *p = i ? EVP_PKCS82PKEY(i) : nullptr; OFF; PKCS8_PRIV_KEY_INFO_free(i); PKey kk(p); if (!p) return need(f, "decrypt"); return ref::enc_pkcs8(p) == cn ? "" : "decrypted to another key"; }; break; }
    case 13: { KeyRec k = good_key(g); std::shared_ptr<EVP_PKEY> p(ref::decode_pkcs8(key_pkcs8(k)), EVP_PKEY_free); Bytes m = g.bytes(100), h = k.sbox.empty() ? ref::hash(m) : ref::hash(m, k.sbox); ref::Pt Q = ref::pub_of(*k.c, k.d); uint64_t rs = g.next(); o.name = "digest-sign"; o.what = k.c->name;
        o.body = [=](Fault &, bool f) -> std::string { trand().reset(rs); Bytes s(4 * k.c->os() + 40); size_t n = s.size(); window = true; MCtx c(EVP_MD_CTX_new()); bool ok = c && EVP_DigestSignInit(c.get(), nullptr, eng().md, nullptr, p.get()) == 1 && EVP_DigestSignUpdate(c.get(), m.data(), m.size()) == 1 && EVP_DigestSignFinal(c.get(), s.data(), &n) == 1; OFF; if (!ok) return need(f, "sign"); s.resize(n); ref::Sig x; if (!ref::parse_sig(*k.c, s, k.le, x) || !ref::verify(*k.c, Q, h, x)) return "invalid signature";
            Bytes m2 = m; m2[3] ^= 1; for (int w = 0; w < 2; w++) { window = true; MCtx v(EVP_MD_CTX_new()); const Bytes &mm = w ? m2 : m; int r = v && EVP_DigestVerifyInit(v.get(), nullptr, eng().md, nullptr, p.get()) == 1 && EVP_DigestVerifyUpdate(v.get(), mm.data(), mm.size()) == 1 ? EVP_DigestVerifyFinal(v.get(), s.data(), s.size()) : -7; OFF; if (w && r == 1) return "a changed message verifies"; if (!w && r != 1 && !f) return "own signature refused"; } return ""; }; break; }
    case 14: case 15: case 16: case 17: { Fmt f0 = id == 14 ? KEY6 : id == 15 ? P12 : JKS; bool two = f0 != P12 && g.chance(1, 2); KeyRec k = good_key(g, two); Pw pw; Bytes b; std::vector<Bytes> prim{canon(k)}; auto pc = rand_password(g); pw.store = pw.key = utf8(pc); Bytes p8 = key_pkcs8(k);
        if (f0 == KEY6) { pw.store = pw.key = "tect4"; b = key6_wrap(p8, key6_key("tect4"), g.bytes(3), g.below(8), true, g.bytes(4)); } else if (f0 == JKS) { std::vector<JksEntry> es; for (int i = (int)g.range(1, 2); i--;) { JksEntry e; if (i) { KeyRec k2 = good_key(g, g.chance(1, 2)); prim.push_back(canon(k2)); e.pkcs8 = key_pkcs8(k2); } else e.pkcs8 = p8; e.salt = g.bytes(20); if (g.chance(2, 3)) e.certs.push_back({rand_cert(g, true)}); es.push_back(e); } if (g.chance(1, 2)) { JksEntry e; e.tag = 2; e.certs.push_back({rand_cert(g, true)}); es.push_back(e); } Bytes p16 = utf16be(pc); b = jks_seal(jks_body(es, p16, false), p16); }
        else { Bytes al, ct; Pbe pk = g.pick({PBE_DSTU, PBE_AES}); if (!pbe_encrypt(pk, g, pw.store, 1, p8, al, ct)) harness_error("pbe"); Bytes bags = cat({bag(2, seq({al, octet(ct)})), bag(3, cert_bag_value(rand_cert(g, true)))}); if (g.chance(1, 2)) { KeyRec k2 = good_key(g); prim.push_back(canon(k2)); bags = cat({bags, bag(1, key_pkcs8(k2))}); } if (g.chance(1, 3)) bags = bag(6, der(0x30, bags)); Bytes safe = der(0x30, bags), safes = p7_data(safe); if (g.chance(1, 2)) { if (!pbe_encrypt(g.pick({PBE_DSTU, PBE_AES}), g, pw.store, 1, safe, al, ct)) harness_error("pbe"); safes = p7_enc(al, ct); if (g.chance(1, 2)) safes = cat({p7_data(der(0x30, bag(3, cert_bag_value(rand_cert(g, true))))), safes}); } b = p12_seal(der(0x30, safes), pw.store, g.bytes(8), 1, g.chance(1, 3) ? eng().md : EVP_sha1()); }
        Via v = g.pick({MEM, BIOM, FILEP}); uint64_t rs = g.next(); trand().reset(rs); KeyStore *ks = nullptr; bool opened = false; std::vector<Bytes> keys, certs; std::vector<bool> opt; if (open_via(v, f0, b, pw, &ks) == 1) { opened = true; for (size_t i = 0; i < KeyStoreKeyNum(ks); i++) { keys.push_back(ref::enc_pkcs8((EVP_PKEY *)KeyStoreGetKey(ks, i))); opt.push_back(std::find(prim.begin(), prim.end(), keys.back()) == prim.end()); } for (size_t i = 0; i < KeyStoreCertNum(ks); i++) certs.push_back(x509_der((X509 *)KeyStoreGetCert(ks, i))); KeyStoreFree(ks); } o.name = std::string("open-") + (f0 == KEY6 ? "key6" : f0 == JKS ? "jks" : "p12"); o.what = fmt("%zu bytes via %d", b.size(), v) + (two ? " second key" : "");
        o.body = [=](Fault &, bool f) -> std::string { if (!opened) return "refused"; if (std::count(opt.begin(), opt.end(), false) != (long)prim.size()) return "keys missing"; trand().reset(rs); KeyStore *ks = nullptr; BIO *m = nullptr; FILE *fp = nullptr; if (v == BIOM) m = BIO_new_mem_buf(b.data(), (int)b.size()); if (v == FILEP) fp = as_file(b); window = true; int r = v == MEM ? parse(f0, b.data(), b.size(), pw, &ks) : v == BIOM ? read_bio(f0, m, pw, &ks) : read_file(f0, fp, pw, &ks); OFF; BIO_free(m); if (fp) fclose(fp);
            if (r != 1) { if (ks) return "a failed open leaves a store"; return need(f, "open"); } if (!ks) return "success without a store"; std::string s = store_lack(ks, keys, opt, certs); KeyStoreFree(ks); return s.empty() ? s : "opened incompletely: " + s; }; break; }
    case 18: { // a second choice of curve and table on a context that has one already: when it is reported to succeed it is in force, otherwise the first one is
        ref::Curve *c1 = ref::named((int)g.below(5)), *c2 = ref::named((int)g.below(5)); while (c2 == c1) c2 = ref::named((int)g.below(5)); bool byname = g.chance(1, 2), first = g.chance(3, 4); int idx = (int)(std::find(ref::nameds().begin(), ref::nameds().end(), c2) - ref::nameds().begin()); Bytes s1 = g.chance(1, 2) ? ref::random_sbox(g) : Bytes(), s2 = ref::random_sbox(g); bool tbl = g.chance(2, 3), hexs = g.chance(1, 2); uint64_t rs = g.next(); o.name = "reselect"; o.what = c2->name + (byname ? " by name" : " by group");
        o.body = [=](Fault &, bool f) -> std::string { trand().reset(rs); EVP_PKEY *k = nullptr; PCtx p(EVP_PKEY_CTX_new_id(NID_dstu4145le, nullptr)); if (EVP_PKEY_keygen_init(p.get()) != 1 || (first && EVP_PKEY_CTX_ctrl(p.get(), -1, -1, H_SET_CURVE, 0, c1->grp) != 1) || (!s1.empty() && EVP_PKEY_CTX_ctrl(p.get(), -1, -1, H_SET_SBOX, 64, (void *)s1.data()) <= 0)) return "first choice";
            window = true; int a = byname ? EVP_PKEY_CTX_ctrl_str(p.get(), "curve", fmt("uacurve%d", idx).c_str()) : EVP_PKEY_CTX_ctrl(p.get(), -1, -1, H_SET_CURVE, 0, c2->grp), b = !tbl ? 0 : hexs ? EVP_PKEY_CTX_ctrl_str(p.get(), "sbox", hex(s2).c_str()) : EVP_PKEY_CTX_ctrl(p.get(), -1, -1, H_SET_SBOX, 64, (void *)s2.data()); OFF; if ((a <= 0 || (tbl && b <= 0)) && !f) return "choice refused";
            ref::Curve *c = a > 0 ? c2 : first ? c1 : ref::named(6); Bytes sb = b > 0 ? s2 : s1; int r = EVP_PKEY_keygen(p.get(), &k); PKey kk(k); if (r != 1) return "keygen fails with memory available";
            Bytes e = ref::enc_pkcs8(k), s = ref::enc_spki(k); auto i = kids(val(e)); if (i.size() < 3) return "the generated key has no private part"; Bn d = Bn::le(val(i[2])); if (d.zero()) return "zero key"; return s == ref::spki_der(*c, ref::pub_of(*c, d), true, sb.empty() ? nullptr : &sb) ? "" : fmt("choice reported %d/%d, key is: ", a, b) + hex(s); }; break; }
    case 19: case 20: { KeyRec k = good_key(g); std::shared_ptr<EVP_PKEY> p(ref::decode_pkcs8(key_pkcs8(k)), EVP_PKEY_free); Bytes cd = cert_der(tbs_cert(spki(k), Bytes{7, 7}, "signer", k.le), octet(Bytes(64, 1)), k.le); const uint8_t *q = cd.data(); std::shared_ptr<X509> x(d2i_X509(nullptr, &q, (long)cd.size()), X509_free); Bytes m = g.bytes(g.range(1, 200)); bool noattr = g.chance(1, 3); unsigned fl = CMS_BINARY | CMS_NOSMIMECAP | (noattr ? CMS_NOATTR : 0); uint64_t rs = g.next(); bool sign = id == 19, p7 = sign && g.chance(1, 3); o.name = p7 ? "pkcs7-sign" : sign ? "cms-sign" : "cms-verify"; o.what = k.c->name + (noattr ? " noattr" : "");
        auto make_cms = [=] { BIO *in = BIO_new_mem_buf(m.data(), (int)m.size()); CMS_ContentInfo *c = CMS_sign(x.get(), p.get(), nullptr, in, fl); BIO_free(in); return c; };
        auto check_cms = [=](const Bytes &d, Bytes &out) { const uint8_t *z = d.data(); CMS_ContentInfo *c = d2i_CMS_ContentInfo(nullptr, &z, (long)d.size()); if (!c) return -1; BIO *o2 = BIO_new(BIO_s_mem()); int r = o2 ? CMS_verify(c, nullptr, nullptr, nullptr, o2, CMS_NO_SIGNER_CERT_VERIFY | CMS_BINARY) : 0; char *t; long n = o2 ? BIO_get_mem_data(o2, &t) : 0; if (n > 0) out.assign(t, t + n); CMS_ContentInfo_free(c); BIO_free(o2); return r; };
        auto der_of = [](CMS_ContentInfo *c) { uint8_t *z = nullptr; int n = i2d_CMS_ContentInfo(c, &z); Bytes r; if (n > 0) r.assign(z, z + n); OPENSSL_free(z); return r; };
        if (p7) o.body = [=](Fault &, bool f) -> std::string { trand().reset(rs); BIO *in = BIO_new_mem_buf(m.data(), (int)m.size()); window = true; PKCS7 *c = PKCS7_sign(x.get(), p.get(), nullptr, in, PKCS7_BINARY | PKCS7_NOSMIMECAP | (noattr ? PKCS7_NOATTR : 0)); OFF; BIO_free(in); if (!c) return need(f, "sign"); uint8_t *z = nullptr; int n = i2d_PKCS7(c, &z); Bytes d(z, z + (n > 0 ? n : 0)), out; OPENSSL_free(z); PKCS7_free(c); if (check_cms(d, out) != 1) return "the message does not verify"; return out == m ? "" : "other content"; };
        else if (sign) o.body = [=](Fault &, bool f) -> std::string { trand().reset(rs); window = true; CMS_ContentInfo *c = make_cms(); OFF; if (!c) return need(f, "sign"); Bytes d = der_of(c), out; CMS_ContentInfo_free(c); if (check_cms(d, out) != 1) return "the message does not verify"; return out == m ? "" : "other content"; };
        else { trand().reset(rs); CMS_ContentInfo *c = make_cms(); Bytes d = c ? der_of(c) : Bytes(), bad = d; CMS_ContentInfo_free(c); size_t at = 0; for (size_t i = 0; i + m.size() <= bad.size(); i++) if (!memcmp(bad.data() + i, m.data(), m.size())) { at = i; break; } if (g.chance(1, 3) && !bad.empty()) at = bad.size() - 1; if (!bad.empty()) bad[at] ^= 4;
            o.body = [=](Fault &, bool f) -> std::string { Bytes out, o2; window = true; int r = check_cms(d, out), q = check_cms(bad, o2); OFF; if (q == 1) return "a changed message is accepted"; if (r != 1 && !f) return "own message refused"; if (r == 1 && out != m) return "other content"; Bytes o3; if (f && check_cms(d, o3) != 1) return "the message does not verify any more"; return ""; }; }
        break; }
    case 21: { Bytes key = g.bytes(32), m = g.bytes(g.range(1, 200)); uint64_t rs = g.next(); o.name = "cms-encrypt"; o.what = fmt("%zu bytes", m.size());
        auto dec = [=](const Bytes &d, Bytes &out) { const uint8_t *z = d.data(); CMS_ContentInfo *c = d2i_CMS_ContentInfo(nullptr, &z, (long)d.size()); if (!c) return 0; BIO *o2 = BIO_new(BIO_s_mem()); int r = o2 ? CMS_EncryptedData_decrypt(c, key.data(), key.size(), nullptr, o2, CMS_BINARY) : 0; char *t; long n = o2 ? BIO_get_mem_data(o2, &t) : 0; if (n > 0) out.assign(t, t + n); CMS_ContentInfo_free(c); BIO_free(o2); return r; };
        o.body = [=](Fault &, bool f) -> std::string { trand().reset(rs); BIO *in = BIO_new_mem_buf(m.data(), (int)m.size()); window = true; CMS_ContentInfo *c = CMS_EncryptedData_encrypt(in, eng().cipher, key.data(), 32, CMS_BINARY); Bytes d; uint8_t *z = nullptr; int n = c ? i2d_CMS_ContentInfo(c, &z) : 0; OFF; BIO_free(in); if (n > 0) d.assign(z, z + n); OPENSSL_free(z); CMS_ContentInfo_free(c); if (d.empty()) return need(f, "encrypt"); Bytes out; if (dec(d, out) != 1 || out != m) return "the message does not decrypt to the content"; Bytes o2; window = true; int r = dec(d, o2); OFF; if (r != 1 && !f) return "decryption refused"; return r == 1 && o2 != m ? "other content" : ""; }; break; }
    case 22: { KeyRec k = good_key(g); std::string pw = utf8(rand_password(g)); if (pw.empty()) pw = "x"; std::shared_ptr<EVP_PKEY> p(ref::decode_pkcs8(key_pkcs8(k)), EVP_PKEY_free); Bytes cn = canon(k), salt = g.bytes(16); uint64_t rs = g.next(); o.name = "pkcs8-encrypt";
        o.body = [=](Fault &, bool f) -> std::string { trand().reset(rs); Bytes sl = salt; window = true; PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(p.get()); X509_SIG *x = i ? PKCS8_encrypt(-1, eng().cipher, pw.c_str(), (int)pw.size(), sl.data(), (int)sl.size(), 2, i) : nullptr; OFF; PKCS8_PRIV_KEY_INFO_free(i); if (!x) return need(f, "encrypt"); i = PKCS8_decrypt(x, pw.c_str(), (int)pw.size()); X509_SIG_free(x); PKey q(i ? EVP_PKCS82PKEY(i) : nullptr); PKCS8_PRIV_KEY_INFO_free(i); return q && ref::enc_pkcs8(q.get()) == cn ? "" : "what was encrypted does not decrypt to the key"; }; break; }
    }
    return o;
}
struct Shared { long i, sites, k; int st; int mode; long n; long trials, hits, failed, ok; char viols[60000]; size_t vl; };
static Shared *sh;
static void report(const std::string &key, const std::string &d) { std::string s = key + "\t" + d + "\n"; if (sh->vl + s.size() + 1 < sizeof sh->viols) { memcpy(sh->viols + sh->vl, s.c_str(), s.size() + 1); sh->vl += s.size(); } }
static uint32_t epochs = 0;
static std::string trial(Op &op, long k, bool stick, bool cap, long &leaked) { Fault f; ERR_clear_error(); seen = 0; fail_from = k; sticky = stick; was_hit = false; capture = cap; traces.clear(); epoch = ++epochs; live = 0; std::string r = op.body(f, k >= 0); window = false; ERR_clear_error(); leaked = live; epoch = 0; capture = false; return r; }
// Which allocations fail: the first and the last made from every distinct call stack, and evenly spread others. Deterministic, so that a child can go on where another died.
static std::vector<std::pair<long, int>> schedule(Op &op, const std::vector<uint64_t> &at, long most) {
    long n = (long)at.size(), step = n > 2 * most ? n / most : 1; std::set<long> one, all; std::map<uint64_t, std::pair<long, long>> site; for (long i = 0; i < n; i++) { auto it = site.emplace(at[i], std::make_pair(i, i)).first; it->second.second = i; }
    std::vector<std::pair<long, long>> ss; for (auto &x : site) ss.push_back(x.second); std::sort(ss.begin(), ss.end()); Rng g(op.phase); while ((long)ss.size() > most) ss.erase(ss.begin() + (long)g.below(ss.size()));
    for (auto &x : ss) { one.insert(x.first); if (x.second != x.first) one.insert(x.second); } for (long i = (long)(op.phase % (uint64_t)step); i < n; i += step) one.insert(i);
    long st2 = std::max(step, n / 40 + 1); for (long i = (long)(op.phase % (uint64_t)st2); i < n; i += st2) all.insert(i); for (size_t i = 0; i < ss.size(); i += std::max<size_t>(1, ss.size() / 40)) all.insert(ss[i].first);
    sh->sites = (long)site.size(); std::vector<std::pair<long, int>> r; for (long i : one) r.push_back({i, 0}); for (long i : all) r.push_back({i, 1}); return r;
}
static void child(Op &op, long from) {
    long leak = 0; trial(op, -1, false, false, leak); std::vector<uint64_t> at; at.reserve(200000); sites = &at; std::string r = trial(op, -1, false, false, leak); sites = nullptr; if (!r.empty()) { report("broken:" + op.name, r); return; } long n = sh->n = seen, most = run().thorough ? 1500 : op.name == "open-key6" ? 60 : 140;
    auto plan = schedule(op, at, most);
    for (long i = from; i < (long)plan.size(); i++) {
        long k = plan[i].first; int mode = plan[i].second; sh->i = i; sh->k = k; sh->mode = mode; sh->st = 1; sh->trials++; std::string r = trial(op, k, mode, false, leak); if (was_hit) sh->hits++;
        if (!r.empty()) { long l; trial(op, k, mode, true, l); report("outcome:" + op.name, fmt("allocation %ld of %ld%s: ", k, n, mode ? " and all later" : "") + r + " [" + where(hit_trace) + "]"); }
        else if (leak > 0) { long l2, l3; trial(op, k, mode, false, l2); if (l2 > 0) { trial(op, k, mode, true, l3); if (l3 > 0) { std::string w; for (auto &t : traces) { w = where(t.second); break; } report("leak:" + op.name, fmt("allocation %ld of %ld%s: %ld blocks stay allocated, one from ", k, n, mode ? " and all later" : "", l3) + w + " [failed: " + where(hit_trace) + "]"); } } }
    }
    sh->st = 2;
}
static void one(long ci, Rng &g) {
    trand().reset(g.next()); Op op = make(plan[ci % (sizeof plan / sizeof *plan)], g); op.phase = g.next(); desc(op.name + " " + op.what); memset(sh, 0, sizeof *sh); long from = 0; std::string ef = run().tmp + "/child";
    for (int crashes = 0; crashes < 400; crashes++) {
        sh->st = 0; pid_t p = fork(); if (p < 0) harness_error("fork"); if (!p) { int fd = open(ef.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); child(op, from); _exit(0); }
        int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break; if (sh->st == 0) { viol("C24/crash:" + op.name, "the operation crashes with memory available"); break; }
        std::string e; { FILE *f = fopen(ef.c_str(), "r"); char b[20000]; size_t n = f ? fread(b, 1, sizeof b, f) : 0; if (f) fclose(f); e.assign(b, n); } size_t q = e.find("ERROR: "); if (q == std::string::npos) q = e.find("runtime error"); if (q != std::string::npos && q > 100) e = e.substr(q - 100);
        report("crash:" + op.name, fmt("allocation %ld of %ld%s: status %x ", sh->k, sh->n, sh->mode ? " and all later" : "", st) + e.substr(0, 1500)); from = sh->i + 1; stat("crashes");
    }
    std::string all(sh->viols, sh->vl); size_t a = 0; while (a < all.size()) { size_t e = all.find('\n', a); 
        // multi-line crash reports: a new record starts with a known tag
        size_t t = all.find('\t', a); std::string key = all.substr(a, t - a); size_t nx = t; for (;;) { nx = all.find('\n', nx + 1); if (nx == std::string::npos) { nx = all.size(); break; } std::string rest = all.substr(nx + 1, 8); if (rest.substr(0, 6) == "crash:" || rest.substr(0, 8) == "outcome:" || rest.substr(0, 5) == "leak:" || rest.substr(0, 7) == "broken:" || rest.empty()) break; } viol("C24/" + key, all.substr(t + 1, nx - t - 1)); a = nx + 1; (void)e; }
    stat("trials", sh->trials); stat("faults_hit", sh->hits); stat("call_stacks", sh->sites); stat("op_" + op.name, sh->trials); if (ci < 4) sample(run().cur + fmt(" %ld allocations", sh->n)); sig(op.name + op.what); 
}
int main(int argc, char **argv) {
    if (CRYPTO_set_mem_functions(h_malloc, h_realloc, h_free) != 1) harness_error("mem functions"); { void *f[4]; backtrace(f, 4); }
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    for_cases(one); ref::free_curves(); done_engine(); return finish_run();
}
