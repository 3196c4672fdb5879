// C17: threads that share only the engine and read-only keys. Monitors: TSan (data races), expected results computed beforehand by the references,
// produced signatures and keys judged after the threads have joined. Every case loads the engine afresh, so the first uses are concurrent too.
#include "containers.hpp"
#include <sched.h>
#include <thread>
using namespace cont;
// libcrypto takes its own locks (engine table, object table...) in nearly every call, and each of them would order two threads for the race detector, so that only
// accesses overlapping within microseconds were seen as racing. Unless raw locks are off, locks libcrypto takes for itself order nothing; those the engine or the key
// library take (through CRYPTO_THREAD_* or directly) do.
#if defined(__clang__)
#if __has_feature(thread_sanitizer)
#define C17_RAW 1
#endif
#endif
#ifdef C17_RAW
#include <pthread.h>
static uintptr_t lc_lo, lc_hi; static bool raw_locks = false; static thread_local int own_lock = 0; static std::atomic<long> unordered{0}, ordered{0};
template <class F> static F next_sym(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
typedef int (*rwf)(pthread_rwlock_t *); static rwf r_rd, r_wr, r_un;
extern "C" { int __interceptor_pthread_rwlock_rdlock(pthread_rwlock_t *); int __interceptor_pthread_rwlock_wrlock(pthread_rwlock_t *); int __interceptor_pthread_rwlock_unlock(pthread_rwlock_t *);
#define RAWLOCK(name, real) __attribute__((no_sanitize("thread"), noinline)) int name(pthread_rwlock_t *l) { uintptr_t a = (uintptr_t)__builtin_return_address(0); if (raw_locks && !own_lock && a >= lc_lo && a < lc_hi) { unordered.fetch_add(1, std::memory_order_relaxed); return real(l); } if (own_lock) ordered.fetch_add(1, std::memory_order_relaxed); return __interceptor_##name(l); }
RAWLOCK(pthread_rwlock_rdlock, r_rd) RAWLOCK(pthread_rwlock_wrlock, r_wr) RAWLOCK(pthread_rwlock_unlock, r_un)
#define OWNLOCK(name) int name(CRYPTO_RWLOCK *l) { static auto f = next_sym<int (*)(CRYPTO_RWLOCK *)>(#name); own_lock++; int r = f(l); own_lock--; return r; }
OWNLOCK(CRYPTO_THREAD_read_lock) OWNLOCK(CRYPTO_THREAD_write_lock) OWNLOCK(CRYPTO_THREAD_unlock) }
#include <link.h>
static void find_libcrypto() { void *h = dlopen("libc.so.6", RTLD_NOW | RTLD_NOLOAD); r_rd = (rwf)dlsym(h, "pthread_rwlock_rdlock"); r_wr = (rwf)dlsym(h, "pthread_rwlock_wrlock"); r_un = (rwf)dlsym(h, "pthread_rwlock_unlock"); if (!r_rd || !r_wr || !r_un) harness_error("rwlock");
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) { if (strstr(i->dlpi_name, "libcrypto")) for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_flags & PF_X) { lc_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; lc_hi = lc_lo + i->dlpi_phdr[k].p_memsz; } return 0; }, nullptr); if (!lc_lo) harness_error("libcrypto"); }
static int tl_bytes(unsigned char *b, int n) { static std::atomic<uint64_t> ids{1}; static thread_local Rng g(mix(run().seed, ids.fetch_add(1, std::memory_order_relaxed) + 4242)); for (int i = 0; i < n; i++) b[i] = g.byte(); return 1; }   // a random source that orders no threads either
static void set_raw_rand() { static RAND_METHOD m = {trand_seed, tl_bytes, nullptr, trand_add, tl_bytes, trand_status}; RAND_set_rand_method(&m); }
static void set_raw(bool on) { if (on && !lc_lo) find_libcrypto(); raw_locks = on; }
static void lock_stats() { stat("unordered_locks", unordered); stat("ordered_locks", ordered); }
#else
static void set_raw_rand() {} static void set_raw(bool) {} static void lock_stats() {}
#endif
struct Job { int kind = 0; Bytes a, b, c, d, want; const ref::Curve *cv = nullptr; bool le = true; size_t shared = 0; Pw pw; std::vector<Bytes> keys; Fmt f = JKS; uint64_t seed = 0; bool flag = false; };
struct Shared { const ref::Curve *c; ref::Bn d; bool le; Bytes sbox; ref::Pt Q; Bytes p8, spki, print; Bytes tbs, good; EVP_PKEY *priv = nullptr, *pub = nullptr, *same = nullptr; };
struct Made { int kind; size_t shared; Bytes tbs, sig; const ref::Curve *cv; bool le; Bytes sbox, p8; };
static const char *kn[] = {"digest", "cipher", "decode-private", "decode-public", "sign-shared", "shared-readonly", "keygen", "random", "container", "digest-sign", "failing", "cipher-params", "engine-lookup", "hmac", "verify-shared", "key6"};
static Bytes encrypt(const Bytes &key, const Bytes &iv, const Bytes &sb, const Bytes &m, bool enc, Rng &q) {
    CCtx c(EVP_CIPHER_CTX_new()); Bytes o(m.size() + 16); int n = 0, t = 0; if (EVP_CipherInit_ex(c.get(), eng().cipher, eng().e, nullptr, nullptr, enc) != 1) return {}; if (!sb.empty() && EVP_CIPHER_CTX_ctrl(c.get(), H_SET_SBOX, 64, (void *)sb.data()) <= 0) return {}; if (EVP_CipherInit_ex(c.get(), nullptr, nullptr, key.data(), iv.data(), enc) != 1) return {};
    for (size_t p = 0; p < m.size();) { size_t k = std::min(m.size() - p, (size_t)q.range(1, 40)); if (EVP_CipherUpdate(c.get(), o.data() + n, &t, m.data() + p, (int)k) != 1) return {}; n += t; p += k; } o.resize(n); return o;
}
static Bytes print_key(EVP_PKEY *k) { BIO *b = BIO_new(BIO_s_mem()); EVP_PKEY_print_private(b, k, 0, nullptr); char *p; long n = BIO_get_mem_data(b, &p); Bytes r(p, p + n); BIO_free(b); return r; }
static Bytes digest_with(const Bytes &m, const Bytes &sb, Rng &q) {
    MCtx c(EVP_MD_CTX_new()); Bytes d(32); unsigned n = 0; if (EVP_DigestInit_ex(c.get(), eng().md, eng().e) != 1) return {}; if (!sb.empty() && EVP_MD_CTX_ctrl(c.get(), H_SET_SBOX, 64, (void *)sb.data()) <= 0) return {};
    for (size_t p = 0; p < m.size();) { size_t k = std::min(m.size() - p, (size_t)q.range(1, 70)); if (EVP_DigestUpdate(c.get(), m.data() + p, k) != 1) return {}; p += k; } if (EVP_DigestFinal_ex(c.get(), d.data(), &n) != 1) return {}; return d;
}
static Bytes dsign(EVP_PKEY *k, const Bytes &m) { MCtx c(EVP_MD_CTX_new()); size_t n = 0; if (EVP_DigestSignInit(c.get(), nullptr, eng().md, nullptr, k) != 1 || EVP_DigestSignUpdate(c.get(), m.data(), m.size()) != 1 || EVP_DigestSignFinal(c.get(), nullptr, &n) != 1) return {}; Bytes s(n); if (EVP_DigestSignFinal(c.get(), s.data(), &n) != 1) return {}; s.resize(n); return s; }
static int dverify(EVP_PKEY *k, const Bytes &s, const Bytes &m) { MCtx c(EVP_MD_CTX_new()); if (EVP_DigestVerifyInit(c.get(), nullptr, eng().md, nullptr, k) != 1 || EVP_DigestVerifyUpdate(c.get(), m.data(), m.size()) != 1) return -9; return EVP_DigestVerifyFinal(c.get(), s.data(), s.size()); }
static std::vector<Bytes> store_keys(KeyStore *ks) { std::vector<Bytes> v; for (size_t i = 0; i < KeyStoreKeyNum(ks); i++) v.push_back(ref::enc_pkcs8((EVP_PKEY *)KeyStoreGetKey(ks, i))); for (size_t i = 0; i < KeyStoreCertNum(ks); i++) v.push_back(x509_der(KeyStoreGetCert(ks, i))); return v; }

static bool verify_sig(const ref::Curve &c, const ref::Pt &Q, const Bytes &tbs, const Bytes &s, bool le) { ref::Sig x; return ref::parse_sig(c, s, le, x) && ref::verify(c, Q, tbs, x); }
static void bad(const Job &j, const std::string &what) { viol(fmt("C17/%s", kn[j.kind]), what); }
static void do_job(const Job &j, std::vector<Shared> &sh, std::vector<Made> &made, int th) {
    Rng q(j.seed);
    switch (j.kind) {
    case 0: { Bytes d = digest_with(j.a, j.b, q); if (d != j.want) bad(j, "digest is " + hex(d) + ", alone it is " + hex(j.want)); break; }
    case 1: { Bytes o = encrypt(j.a, j.b, j.c, j.d, j.flag, q); if (o != j.want) bad(j, "output is " + shorthex(o) + ", alone it is " + shorthex(j.want)); break; }
    case 2: { PKey k(ref::decode_pkcs8(j.a)); if (!k) { bad(j, "private key refused"); break; } Bytes e = ref::enc_pkcs8(k.get()), s = ref::enc_spki(k.get()); if (e != j.a || s != j.want) bad(j, "decoded private key encodes differently"); print_key(k.get()); break; }
    case 3: { PKey k(ref::decode_spki(j.a)); if (!k) { bad(j, "public key refused"); break; } if (ref::enc_spki(k.get()) != j.a) bad(j, "decoded public key encodes differently"); int v = ref::pkey_verify(k.get(), j.b, j.c); if (v != 1) bad(j, fmt("good signature: verdict %d", v)); Bytes t = j.c; t[0] ^= 1; v = ref::pkey_verify(k.get(), j.b, t); if (v == 1) bad(j, "signature of another message accepted"); break; }
    case 4: { Bytes s = ref::pkey_sign(sh[j.shared].priv, j.a); if (s.empty()) { bad(j, "signing failed"); break; } made.push_back({4, j.shared, j.a, s}); break; }
    case 5: { Shared &s = sh[j.shared]; if (ref::enc_pkcs8(s.priv) != s.p8 || ref::enc_spki(s.priv) != s.spki || ref::enc_spki(s.pub) != s.spki) bad(j, "shared key encodes differently"); if (print_key(s.priv) != s.print) bad(j, "shared key prints differently"); if (EVP_PKEY_eq(s.priv, s.same) != 1 || EVP_PKEY_eq(s.priv, s.pub) != 1 || EVP_PKEY_parameters_eq(s.pub, s.same) != 1) bad(j, "equal keys compare different"); size_t o = (j.shared + 1) % sh.size(); if (o != j.shared && EVP_PKEY_eq(s.priv, sh[o].priv) == 1) bad(j, "different keys compare equal"); if (EVP_PKEY_size(s.priv) <= 0 || EVP_PKEY_bits(s.priv) <= 0) bad(j, "size"); EVP_PKEY_up_ref(s.priv); PKey x(s.priv); break; }
    case 6: { PCtx c(EVP_PKEY_CTX_new_id(j.le ? NID_dstu4145le : NID_dstu4145be, eng().e)); EVP_PKEY *k = nullptr; if (!c || EVP_PKEY_keygen_init(c.get()) != 1 || EVP_PKEY_CTX_ctrl_str(c.get(), "curve", j.cv->name.c_str()) <= 0 || (!j.b.empty() && EVP_PKEY_CTX_ctrl(c.get(), -1, EVP_PKEY_OP_KEYGEN, H_SET_SBOX, 64, (void *)j.b.data()) <= 0) || EVP_PKEY_keygen(c.get(), &k) != 1) { bad(j, "key generation failed"); EVP_PKEY_free(k); break; } PKey kk(k); Bytes t = j.a, s = ref::pkey_sign(k, t); if (s.empty() || ref::pkey_verify(k, s, t) != 1) bad(j, "generated key does not sign and verify"); Made m{6, 0, t, s, j.cv, j.le, j.b, ref::enc_pkcs8(k)}; made.push_back(m); break; }
    case 7: { Bytes b(q.range(1, 40)); const RAND_METHOD *r = ENGINE_get_RAND(eng().e); if (!r || r->bytes(b.data(), (int)b.size()) != 1) bad(j, "random request failed"); else if (b.size() >= 12) made.push_back({7, 0, {}, b}); if (r && r->status() != 1) bad(j, "status"); break; }
    case 8: case 15: { KeyStore *ks = nullptr; int r = j.flag ? parse(j.f, j.a.data(), j.a.size(), j.pw, &ks) : [&] { BIO *m = BIO_new_mem_buf(j.a.data(), (int)j.a.size()); int x = read_bio(j.f, m, j.pw, &ks); BIO_free(m); return x; }(); if (r != 1) { bad(j, fmt("container refused (%d)", r)); break; } if (store_keys(ks) != j.keys) bad(j, "container read differently"); KeyStoreFree(ks); break; }
    case 9: { EVP_PKEY *k = sh[j.shared].priv; Bytes s = dsign(k, j.a); if (s.empty()) { bad(j, "signing failed"); break; } if (dverify(sh[j.shared].pub, s, j.a) != 1) bad(j, "signature does not verify"); Bytes t = j.a; t.push_back(1); if (dverify(sh[j.shared].pub, s, t) == 1) bad(j, "signature of another message accepted"); break; }
    case 10: { PKey k(ref::decode_pkcs8(j.a)); PKey p(ref::decode_spki(j.b)); unsigned long e = ERR_peek_last_error(); char buf[200]; ERR_error_string_n(e, buf, sizeof buf); ERR_clear_error(); if (ref::pkey_verify(sh[j.shared].pub, j.c, j.d) == 1) bad(j, "nonsense accepted as a signature"); ERR_clear_error(); KeyStore *ks = nullptr; if (parseJKS(j.a.data(), j.a.size(), "x", 1, "y", 1, &ks)) bad(j, "nonsense opened"); ERR_clear_error(); break; }
    case 11: { CCtx c(EVP_CIPHER_CTX_new()); EVP_CipherInit_ex(c.get(), eng().cipher, eng().e, nullptr, nullptr, 1); EVP_CIPHER_CTX_ctrl(c.get(), H_SET_SBOX, 64, (void *)j.c.data()); EVP_CipherInit_ex(c.get(), nullptr, nullptr, j.a.data(), j.b.data(), 1); ASN1_TYPE *t = ASN1_TYPE_new(); if (EVP_CIPHER_param_to_asn1(c.get(), t) <= 0) { bad(j, "export failed"); ASN1_TYPE_free(t); break; } uint8_t *p = nullptr; int n = i2d_ASN1_TYPE(t, &p); Bytes got(p, p + std::max(n, 0)); OPENSSL_free(p); if (got != j.want) bad(j, "exported parameters differ"); CCtx d(EVP_CIPHER_CTX_new()); EVP_CipherInit_ex(d.get(), eng().cipher, eng().e, nullptr, nullptr, 1); if (EVP_CIPHER_asn1_to_param(d.get(), t) <= 0) bad(j, "import failed"); ASN1_TYPE_free(t); break; }
    case 12: { const EVP_MD *m = ENGINE_get_digest(eng().e, NID_dstu34311); const EVP_CIPHER *c = ENGINE_get_cipher(eng().e, NID_dstu28147_cfb); const EVP_PKEY_ASN1_METHOD *am = ENGINE_get_pkey_asn1_meth(eng().e, NID_dstu4145le); const EVP_PKEY_METHOD *pm = ENGINE_get_pkey_meth(eng().e, NID_dstu4145be); if (m != eng().md || c != eng().cipher || !am || !pm) bad(j, "lookup differs"); if (EVP_get_digestbyname(SN_dstu34311) == nullptr || EVP_get_cipherbyname(SN_dstu28147_cfb) == nullptr) bad(j, "lookup by name fails"); if (ENGINE_init(eng().e) != 1) bad(j, "ENGINE_init failed"); else { ENGINE *d = ENGINE_get_digest_engine(NID_dstu34311); if (d) ENGINE_finish(d); ENGINE_finish(eng().e); } break; }
    case 13: { Bytes o(64); unsigned n = 0; HMAC_CTX *h = HMAC_CTX_new(); bool ok = HMAC_Init_ex(h, j.a.data(), (int)j.a.size(), eng().md, eng().e) == 1 && HMAC_Update(h, j.b.data(), j.b.size()) == 1 && HMAC_Final(h, o.data(), &n) == 1; HMAC_CTX_free(h); if (!ok || Bytes(o.begin(), o.begin() + n) != j.want) bad(j, "HMAC differs"); break; }
    case 14: { Shared &s = sh[j.shared]; int v = ref::pkey_verify(s.pub, s.good, s.tbs); if (v != 1) bad(j, fmt("good signature: verdict %d", v)); Bytes t = s.good; t[t.size() - 1 - q.below(t.size() - 3)] ^= 1; v = ref::pkey_verify(s.priv, t, s.tbs); if (v == 1) bad(j, "changed signature accepted"); break; }
    }
    (void)th;
}
static Job make_job(Rng &g, int kind, std::vector<Shared> &sh) {
    Job j; j.kind = kind; j.seed = g.next(); j.shared = g.below(sh.size()); auto sbx = [&] { return g.chance(1, 2) ? ref::random_sbox(g) : Bytes(); };
    switch (kind) {
    case 0: j.a = g.bytes(g.below(300)); j.b = sbx(); j.want = j.b.empty() ? ref::hash(j.a) : ref::hash(j.a, j.b); break;
    case 1: { j.a = g.bytes(32); j.b = g.bytes(8); j.c = sbx(); j.d = g.bytes(g.below(200)); j.flag = g.chance(1, 2); j.want = ref::cfb(j.c.empty() ? ref::default_sbox() : j.c, j.a, j.b, j.d, j.flag); if (j.d.empty()) { j.d = {1}; j.want = ref::cfb(j.c.empty() ? ref::default_sbox() : j.c, j.a, j.b, j.d, j.flag); } break; }
    case 2: { ref::Curve *c = ref::named((int)g.below(10)); ref::Bn d = ref::rand_scalar(g, c->n); j.le = g.chance(1, 2); Bytes sb = sbx(); j.a = ref::pkcs8_der(*c, d, j.le, sb.empty() ? nullptr : &sb); j.want = ref::spki_der(*c, ref::pub_of(*c, d), j.le, sb.empty() ? nullptr : &sb); break; }
    case 3: { Shared &s = sh[j.shared]; j.a = s.spki; j.b = s.good; j.c = s.tbs; break; }
    case 4: case 9: j.a = g.bytes(g.range(1, 60)); break;
    case 6: j.cv = ref::named((int)g.below(4)); j.le = g.chance(1, 2); j.b = sbx(); j.a = g.bytes(32); break;
    case 8: { j.flag = g.chance(1, 2); KeyRec k = rand_key(g, false, true); Bytes cert = rand_cert(g, true); j.keys = {ref::pkcs8_der(*k.c, k.d, k.le, k.sbox.empty() ? nullptr : &k.sbox), cert}; if (g.chance(1, 2)) { j.f = JKS; auto sp = rand_password(g), kp = rand_password(g); JksEntry e; e.pkcs8 = key_pkcs8(k); e.salt = g.bytes(20); JksCert jc; jc.der = cert; e.certs.push_back(jc); j.a = jks_seal(jks_body({e}, utf16be(kp), false), utf16be(sp)); j.pw = Pw{utf8(sp), utf8(kp)}; } else { j.f = P12; j.pw = Pw{utf8(rand_password(g)), ""}; Bytes al, ct; pbe_encrypt(PBE_DSTU, g, j.pw.store, 2, der(0x30, cat({bag(1, key_pkcs8(k)), bag(3, cert_bag_value(cert))})), al, ct); j.a = p12_seal(der(0x30, p7_enc(al, ct)), j.pw.store, g.bytes(8), 2, EVP_sha1()); } break; }
    case 15: { j.f = KEY6; j.flag = true; KeyRec k = rand_key(g, true, true); j.pw = Pw{"tect4", ""}; j.a = key6_wrap(key_pkcs8(k), key6_key("tect4"), g.bytes(3), 3, true, g.bytes(4)); j.keys = {ref::pkcs8_der(*k.c, k.d, k.le, k.sbox.empty() ? nullptr : &k.sbox), ref::pkcs8_der(*k.c2, k.d2, true, nullptr)}; break; }
    case 10: j.a = g.bytes(g.range(1, 100)); if (g.chance(1, 2)) { j.a = sh[j.shared].p8; j.a[g.below(j.a.size())] ^= 0x41; j.a.resize(j.a.size() - g.below(5)); } j.b = sh[j.shared].spki; j.b.resize(g.range(4, j.b.size() - 1)); j.c = g.bytes(g.range(1, 100)); j.d = g.bytes(10); break;
    case 11: j.a = g.bytes(32); j.b = g.bytes(8); j.c = ref::random_sbox(g); j.want = ref::seq({ref::octet(j.b), ref::octet(j.c)}); break;
    case 13: j.a = g.bytes(g.range(1, 80)); j.b = g.bytes(g.below(120)); j.want = ref::hmac(j.a, j.b); break;
    }
    return j;
}
static void unload() {   // defaults hold functional references: drop them all, so that the module really goes away
    ENGINE *e = eng().e; if (!e) return; RAND_set_rand_method(nullptr); ENGINE_unregister_RAND(e); ENGINE_unregister_digests(e); ENGINE_unregister_ciphers(e); ENGINE_unregister_pkey_meths(e); ENGINE_unregister_pkey_asn1_meths(e); done_engine(); install_test_rand();
    if (void *h = dlopen(run().engine.c_str(), RTLD_NOW | RTLD_NOLOAD)) { dlclose(h); stat("still_mapped"); }
}
static void one(long ci, Rng &g) {
    bool raw = run().mode == "tsanraw", engine_rand = g.chance(1, 2) && !raw; int nt = (int)g.range(2, 8); size_t per = run().mode != "plain" ? g.range(3, 10) : g.range(6, 40); std::vector<Shared> sh(g.range(1, 3)); trand().reset(g.next());
    for (auto &s : sh) { s.c = g.chance(1, 4) ? ref::customs()[g.below(ref::customs().size())] : ref::named((int)g.below(8)); s.d = ref::rand_scalar(g, s.c->n); s.le = g.chance(1, 2); if (g.chance(1, 2)) s.sbox = ref::random_sbox(g); s.Q = ref::pub_of(*s.c, s.d); Bytes *sb = s.sbox.empty() ? nullptr : &s.sbox; s.p8 = ref::pkcs8_der(*s.c, s.d, s.le, sb); s.spki = ref::spki_der(*s.c, s.Q, s.le, sb); s.tbs = g.bytes(g.range(1, 50)); ref::Sig sg; for (;;) { ref::Bn k = ref::rand_scalar(g, s.c->n); if (ref::sign_with(*s.c, s.d, s.tbs, k, sg)) break; } s.good = ref::octet(ref::sig_body(*s.c, sg, s.le)); }
    // the jobs and their expected results, before the engine exists
    bool focus = g.chance(1, 2); int fk = (int)g.below(15), fk2 = (int)g.below(15); bool key6 = run().mode == "plain" ? g.chance(1, 4) : g.chance(1, 24); std::vector<std::vector<Job>> jobs(nt); std::string mix_s;
    // cold: nothing at all is used before the threads start, and all of them start with the same operation; the first case of a process also finds the key library unused
    bool first = ci < run().workers, cold = first || g.chance(1, 3); static const int alone[] = {0, 1, 2, 3, 6, 7, 8, 11, 12, 13}; int ck = first ? (ci % 2 ? 8 : 15) : alone[g.below(10)]; if (run().mode != "plain" && !first && ck == 15) ck = 8;
    if (!run().engine.empty() && !eng().e) { init_engine(ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND, false); }   // needed by the container writer (MAC) only
    for (int i = 0; i < nt; i++) { for (size_t k = 0; k < per; k++) jobs[i].push_back(make_job(g, focus && g.chance(3, 4) ? (g.chance(1, 2) ? fk : fk2) : (int)g.below(15), sh)); if (key6 && i < 3) jobs[i].insert(jobs[i].begin() + g.below(2), make_job(g, 15, sh)); if (cold) { for (auto &j : jobs[i]) if (j.kind == 4 || j.kind == 5 || j.kind == 9 || j.kind == 10 || j.kind == 14) j = make_job(g, alone[g.below(10)], sh); jobs[i].insert(jobs[i].begin(), make_job(g, ck, sh)); } if (raw) for (auto &j : jobs[i]) if (j.kind == 7 || j.kind == 12) j = make_job(g, j.kind == 7 ? 0 : 2, sh); }
    unload();   // nothing of the engine is in memory now
    desc(fmt("threads=%d jobs=%zu shared=%zu focus=%s/%s engine_rand=%d cold=%s", nt, per, sh.size(), focus ? kn[fk] : "-", focus ? kn[fk2] : "-", engine_rand, cold ? kn[ck] : "-"));
    if (engine_rand) RAND_set_rand_method(nullptr); else install_test_rand();
    init_engine(ENGINE_METHOD_ALL & ~(engine_rand ? 0 : ENGINE_METHOD_RAND), false); if (engine_rand) ENGINE_set_default_RAND(eng().e);
    // shared keys are decoded before the threads start
    auto dec = [&] { for (auto &s : sh) { s.priv = ref::decode_pkcs8(s.p8); s.same = ref::decode_pkcs8(s.p8); s.pub = ref::decode_spki(s.spki); if (s.priv) s.print = print_key(s.priv); } }; if (!cold) dec(); else { stat("cold_starts"); stat(std::string("cold_") + kn[ck]); } if (!cold) for (auto &s : sh) if (!s.priv || !s.pub || !s.same) { viol("C17/shared-key", "shared key refused"); return; }
    std::vector<std::vector<Made>> made(nt); std::atomic<int> ready{0}; std::vector<std::thread> th; std::vector<uint64_t> ys; for (int i = 0; i < nt; i++) ys.push_back(g.next()); std::atomic<long> overlap{0}, active{0};
    set_raw(run().mode == "tsanraw"); if (run().mode == "tsanraw" && !engine_rand) set_raw_rand(); for (int i = 0; i < nt; i++) th.emplace_back([&, i] { Rng y(ys[i]); ready++; while (ready < nt) {} for (auto &j : jobs[i]) { if (active.fetch_add(1, std::memory_order_relaxed) > 0) overlap.fetch_add(1, std::memory_order_relaxed); do_job(j, sh, made[i], i); active.fetch_sub(1, std::memory_order_relaxed); if (y.chance(1, 6)) sched_yield(); } ERR_clear_error(); });
    for (auto &t : th) t.join(); set_raw(false); if (!engine_rand) install_test_rand(); if (cold) { dec(); for (auto &s : sh) if (!s.priv || !s.pub || !s.same) { viol("C17/shared-key", "key refused after the threads"); return; } }
    std::set<Bytes> blocks; long nsig = 0; std::set<Bytes> ks;
    for (auto &v : made) for (auto &m : v) {
        if (m.kind == 4) { Shared &s = sh[m.shared]; if (!verify_sig(*s.c, s.Q, m.tbs, m.sig, s.le)) viol("C17/sign-shared", "a signature made concurrently does not satisfy the equation: " + hex(m.sig)); if (!ks.insert(m.sig).second) viol("C17/sign-shared", "the same signature twice"); nsig++; }
        else if (m.kind == 6) { PKey k(ref::decode_pkcs8(m.p8)); Bytes *sb = m.sbox.empty() ? nullptr : &m.sbox; ref::Bn d; if (!k || !private_value(k.get(), d)) { viol("C17/keygen", "generated key cannot be decoded"); continue; } if (m.p8 != ref::pkcs8_der(*m.cv, d, m.le, sb)) viol("C17/keygen", "generated key is not on the requested curve and table: " + hex(m.p8)); if (!verify_sig(*m.cv, ref::pub_of(*m.cv, d), m.tbs, m.sig, m.le)) viol("C17/keygen", "signature of a generated key does not verify"); if (!ks.insert(m.p8).second) viol("C17/keygen", "the same key twice"); }
        else if (m.kind == 7 && !blocks.insert(m.sig).second) viol("C17/random", "the same random block twice");
    }
    for (auto &v : jobs) for (auto &j : v) stat(std::string("job_") + kn[j.kind]); stat("overlapping_jobs", overlap); stat("signatures_judged", nsig); for (auto &s : sh) { EVP_PKEY_free(s.priv); EVP_PKEY_free(s.pub); EVP_PKEY_free(s.same); }
    sig(run().cur); if (ci < 2) sample(run().cur + fmt(" overlap=%ld", (long)overlap));
    if (engine_rand) ENGINE_get_RAND(eng().e)->cleanup(); unload(); stat("reloads");
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG | OPENSSL_INIT_ENGINE_DYNAMIC, nullptr); ENGINE_load_dynamic(); install_test_rand(); ref::init_curves(); ref::default_sbox();
    for_cases(one); lock_stats(); ref::free_curves(); return finish_run();
}
