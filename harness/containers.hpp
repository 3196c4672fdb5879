// Independent writers for Key-6, JKS/JCEKS and PKCS#12 containers, and a uniform way to open them.
#pragma once
#include "keyview.hpp"
#include <openssl/hmac.h>
#include <openssl/pkcs12.h>
#include <openssl/sha.h>
extern "C" {
#include "keylib.h"
}

namespace cont {
using ref::Bn; using ref::Curve; using ref::cat; using ref::seq; using ref::oid; using ref::octet; using ref::der; using ref::integer;
inline Bytes str(const std::string &s) { return Bytes(s.begin(), s.end()); }
inline Bytes u16(unsigned v) { return {(uint8_t)(v >> 8), (uint8_t)v}; }
inline Bytes u32(uint32_t v) { return {(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v}; }
inline Bytes sha1(std::initializer_list<Bytes> l) { Bytes m = cat(l), d(20); SHA1(m.data(), m.size(), d.data()); return d; }

// ---- what is stored
struct KeyRec { Curve *c = nullptr; Bn d; bool le = true; Bytes sbox; bool custom = false; Curve *c2 = nullptr; Bn d2; bool bit2 = false; int decoy = 0; size_t fat = 0; };   // fat: bytes of an unrelated attribute; c2: second key in IIT attributes
inline Bytes reversed_bits(const Bytes &be) { Bytes r; for (auto it = be.rbegin(); it != be.rend(); ++it) { uint8_t b = *it, x = 0; for (int i = 0; i < 8; i++) x |= ((b >> i) & 1) << (7 - i); r.push_back(x); } return r; }
inline Bytes iit_attributes(const KeyRec &k, bool swapped = false) {
    Bytes fat; if (k.fat) { fat.resize(k.fat); uint32_t v = (uint32_t)k.fat; for (auto &x : fat) { v = v * 1664525 + 1013904223; x = (uint8_t)(v >> 24); } fat = seq({oid("1.2.3.4.5.6"), der(0x31, octet(fat))}); }
    if (!k.c2) return der(0xa0, fat);
    Bytes dke = ref::default_sbox(), rb = reversed_bits(k.d2.bytes(k.c2->os()));
    // values of other types beside the meant one
    Bytes pre1 = k.decoy & 1 ? (k.decoy & 2 ? der(5, {}) : integer(Bn(7))) : Bytes(), pre2 = k.decoy & 4 ? (k.decoy & 8 ? der(5, {}) : der(2, Bytes{9})) : Bytes();
    Bytes a1 = seq({oid("1.3.6.1.4.1.19398.1.1.2.2"), der(0x31, cat({pre1, seq({ref::custom_spec(*k.c2, false), octet(dke), octet(dke)})}))});
    Bytes a2 = seq({oid("1.3.6.1.4.1.19398.1.1.2.3"), der(0x31, cat({pre2, k.bit2 ? der(3, cat({Bytes{0}, rb})) : octet(rb)}))});
    Bytes other = seq({oid("1.2.840.113549.1.9.20"), der(0x31, der(0x1e, Bytes{0, 'k'}))});
    return der(0xa0, swapped ? cat({a2, other, fat, a1}) : cat({fat, a1, a2}));
}
inline Bytes key_pkcs8(const KeyRec &k, bool swapped = false) { return ref::pkcs8_der(*k.c, k.d, k.le, k.sbox.empty() ? nullptr : &k.sbox, k.custom, k.c2 || k.fat ? iit_attributes(k, swapped) : Bytes()); }
inline KeyRec rand_key(Rng &g, bool second, bool fast = false) {
    KeyRec k; k.c = ref::any_curve(g, fast); k.d = ref::rand_scalar(g, k.c->n); k.le = g.chance(1, 2); if (g.chance(1, 3)) k.sbox = ref::random_sbox(g); k.custom = g.chance(1, 4);
    if (second) { k.c2 = ref::any_curve(g, fast); k.d2 = ref::rand_scalar(g, k.c2->n); k.bit2 = g.chance(1, 2); if (g.chance(1, 10)) { k.c2 = k.c; k.d2 = k.d; } if (g.chance(1, 4)) k.decoy = (int)g.below(16); }
    return k;
}
// a certificate; the signature bits are arbitrary unless made by sign_cert
inline Bytes name(const std::string &cn) { return seq({der(0x31, seq({oid("2.5.4.3"), der(12, str(cn))}))}); }
inline Bytes tbs_cert(const Bytes &spki, const Bytes &serial, const std::string &cn, bool le, const Bytes &ext = Bytes()) {
    Bytes sn = serial; if (sn.empty() || sn[0] & 0x80 || !sn[0]) sn.insert(sn.begin(), 1);
    return seq({der(0xa0, integer(Bn(2))), der(2, sn), seq({oid(le ? ref::OID_LE : ref::OID_BE)}), name(cn), seq({der(0x17, str("200101000000Z")), der(0x17, str("490101000000Z"))}), name(cn), spki, ext.empty() ? Bytes() : der(0xa3, ext)});
}
inline Bytes cert_der(const Bytes &tbs, const Bytes &sigval, bool le) { return seq({tbs, seq({oid(le ? ref::OID_LE : ref::OID_BE)}), der(3, cat({Bytes{0}, sigval}))}); }
inline Bytes rand_cert(Rng &g, bool fast = false, size_t big = 0) {
    Curve *c = ref::any_curve(g, fast); bool le = g.chance(1, 2); ref::Pt Q = ref::pub_of(*c, ref::rand_scalar(g, c->n)); if (!Q.x.zero() && Bn::be(ref::compress(*c, Q)).zero()) Q = c->G;
    Bytes ext; if (big || g.chance(1, 3)) ext = seq({seq({oid("2.5.29.14"), octet(octet(g.bytes(big ? big : g.range(1, 3000))))})});
    std::string cn = "cert"; for (size_t n = g.below(20); n--;) cn += (char)g.range('a', 'z');
    return cert_der(tbs_cert(ref::spki_der(*c, Q, le, nullptr), g.bytes(g.range(1, 18)), cn, le, ext), octet(g.bytes(g.range(1, 100))), le);
}
// ---- passwords
inline std::string utf8(const std::vector<uint32_t> &cps) {
    std::string s; for (uint32_t c : cps) { if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } }
    return s;
}
inline Bytes utf16be(const std::vector<uint32_t> &cps) { Bytes r; auto p = [&](unsigned v) { r.push_back((uint8_t)(v >> 8)); r.push_back((uint8_t)v); }; for (uint32_t c : cps) { if (c < 0x10000) p(c); else { c -= 0x10000; p(0xd800 | c >> 10); p(0xdc00 | (c & 1023)); } } return r; }
inline std::vector<uint32_t> rand_password(Rng &g, size_t maxlen = 24, bool ascii = false) {
    std::vector<uint32_t> v; size_t n = g.chance(1, 100) ? g.range(300, 4000) : g.chance(1, 12) ? g.range(25, 200) : g.range(1, maxlen); int k = ascii ? 0 : (int)g.below(5);
    while (n--) { uint32_t c; switch (k == 4 ? (int)g.below(4) : k) { case 0: c = g.chance(1, 60) ? (uint32_t)g.range(1, 0x1f) : (uint32_t)g.range(0x20, 0x7e); break; case 1: c = (uint32_t)g.range(0x400, 0x4ff); break; case 2: c = (uint32_t)g.range(0x80, 0x7ff); break; default: c = g.chance(1, 2) ? (uint32_t)g.range(0x800, 0xd7ff) : (uint32_t)g.range(0x10000, 0x10ffff); } v.push_back(c); }
    if (g.chance(1, 12)) v.push_back(g.pick<uint32_t>({' ', '\n', '\r', '\t'}));
    return v;
}
// ---- Key-6
inline Bytes key6_key(const std::string &pw) {
    static std::map<std::string, Bytes> cache; auto it = cache.find(pw); if (it != cache.end()) return it->second;
    Bytes k = ref::hash(str(pw)); for (int i = 0; i < 9999; i++) k = ref::hash(k);
    if (cache.size() > 64) cache.clear(); return cache[pw] = k;
}
inline Bytes key6_wrap(Bytes plain, const Bytes &key, const Bytes &fill, size_t padlen, bool with_pad, const Bytes &mac) {
    size_t i = 0; while (plain.size() % 8) plain.push_back(fill.empty() ? 0 : fill[i++ % fill.size()]);
    Bytes ct = ref::ecb(ref::default_sbox(), key, plain, true); if (!with_pad) padlen = 0; padlen = std::min(padlen, ct.size());
    Bytes data(ct.begin(), ct.end() - padlen), pad(ct.end() - padlen, ct.end());
    return seq({seq({oid("1.3.6.1.4.1.19398.1.1.1.2"), seq({octet(mac), with_pad ? octet(pad) : Bytes()})}), octet(data)});
}
// ---- JKS
struct JksCert { Bytes der; std::string type = "X.509"; };
struct JksEntry { int tag = 1; std::string alias = "a"; Bytes ts = Bytes(8, 0); Bytes pkcs8; std::vector<JksCert> certs; Bytes salt = Bytes(20, 7); std::string alg = "1.3.6.1.4.1.42.2.17.1.1"; bool algnull = true; };
inline Bytes key_protect(const Bytes &plain, const Bytes &pw16, const Bytes &salt) {
    Bytes enc, dg = salt; for (size_t i = 0; i < plain.size(); i++) { if (i % 20 == 0) dg = sha1({pw16, dg}); enc.push_back(plain[i] ^ dg[i % 20]); }
    return cat({salt, enc, sha1({pw16, plain})});
}
inline Bytes jks_cert(const JksCert &c) { return cat({u16((unsigned)c.type.size()), str(c.type), u32((uint32_t)c.der.size()), c.der}); }
inline Bytes jks_entry(const JksEntry &e, const Bytes &keypw16) {
    Bytes b = cat({u32((uint32_t)e.tag), u16((unsigned)e.alias.size()), str(e.alias), e.ts});
    if (e.tag == 1) { Bytes p = seq({seq({oid(e.alg), e.algnull ? der(5, {}) : Bytes()}), octet(key_protect(e.pkcs8, keypw16, e.salt))}); b = cat({b, u32((uint32_t)p.size()), p, u32((uint32_t)e.certs.size())}); for (auto &c : e.certs) b = cat({b, jks_cert(c)}); }
    else for (auto &c : e.certs) b = cat({b, jks_cert(c)});
    return b;
}
inline Bytes jks_seal(const Bytes &body, const Bytes &pw16) { return cat({body, sha1({pw16, str("Mighty Aphrodite"), body})}); }
inline Bytes jks_body(const std::vector<JksEntry> &es, const Bytes &keypw16, bool jceks) { Bytes b = cat({u32(jceks ? 0xcececece : 0xfeedfeed), u32(2), u32((uint32_t)es.size())}); for (auto &e : es) b = cat({b, jks_entry(e, keypw16)}); return b; }
// ---- PKCS#12
inline Bytes ctx0(const Bytes &b) { return der(0xa0, b); }
inline Bytes bag(int kind, const Bytes &v, const Bytes &attrs = Bytes()) { return seq({oid(fmt("1.2.840.113549.1.12.10.1.%d", kind)), ctx0(v), attrs.empty() ? Bytes() : der(0x31, attrs)}); }
inline Bytes friendly(const std::string &s) { Bytes b; for (char c : s) { b.push_back(0); b.push_back((uint8_t)c); } return seq({oid("1.2.840.113549.1.9.20"), der(0x31, der(0x1e, b))}); }
inline Bytes cert_bag_value(const Bytes &c) { return seq({oid("1.2.840.113549.1.9.22.1"), ctx0(octet(c))}); }
enum Pbe { PBE_DSTU, PBE_AES, PBE_3DES };
// PBES2 with DSTU: built and encrypted with the reference implementation
inline Bytes dstu_pbes2(const std::string &pw, const Bytes &salt, int iter, const Bytes &iv, const Bytes &sbox, const Bytes &plain, Bytes &algor) {
    Bytes key = ref::pbkdf2(str(pw), salt, iter, 32);
    algor = seq({oid("1.2.840.113549.1.5.13"), seq({seq({oid("1.2.840.113549.1.5.12"), seq({octet(salt), integer(Bn((unsigned long)iter)), seq({oid("1.2.804.2.1.1.1.1.1.2"), der(5, {})})})}), seq({oid("1.2.804.2.1.1.1.1.1.1.3"), seq({octet(iv), octet(sbox)})})})});
    return ref::cfb(sbox, key, iv, plain, true);
}
inline bool pbe_encrypt(Pbe kind, Rng &g, const std::string &pw, int iter, const Bytes &plain, Bytes &algor, Bytes &ct) {
    if (kind == PBE_DSTU) { ct = dstu_pbes2(pw, g.bytes(g.range(8, 32)), iter, g.bytes(8), g.chance(1, 2) ? ref::default_sbox() : ref::random_sbox(g), plain, algor); return true; }
    Bytes salt = g.bytes(16), iv = g.bytes(16); X509_ALGOR *a = kind == PBE_AES ? PKCS5_pbe2_set_iv(EVP_aes_256_cbc(), iter, salt.data(), 16, iv.data(), NID_hmacWithSHA256) : PKCS5_pbe_set(NID_pbe_WithSHA1And3_Key_TripleDES_CBC, iter, salt.data(), 8);
    if (!a) return false; unsigned char *o = nullptr; int n = 0; bool ok = PKCS12_pbe_crypt(a, pw.data(), (int)pw.size(), plain.data(), (int)plain.size(), &o, &n, 1) != nullptr;
    if (ok) { ct.assign(o, o + n); unsigned char *p = nullptr; int l = i2d_X509_ALGOR(a, &p); algor.assign(p, p + l); OPENSSL_free(p); } OPENSSL_free(o); X509_ALGOR_free(a); return ok;
}
inline Bytes p7_data(const Bytes &safecontents) { return seq({oid("1.2.840.113549.1.7.1"), ctx0(octet(safecontents))}); }
inline Bytes p7_enc(const Bytes &algor, const Bytes &ct) { return seq({oid("1.2.840.113549.1.7.6"), ctx0(seq({integer(Bn(0ul)), seq({oid("1.2.840.113549.1.7.1"), algor, der(0x80, ct)})}))}); }
inline Bytes bmp0(const std::vector<uint32_t> &cps) { Bytes b = utf16be(cps); b.push_back(0); b.push_back(0); return b; }
// MAC computed by libcrypto (PKCS#12 KDF is not part of the engine)
inline Bytes p12_seal(const Bytes &authsafe, const std::string &pw, const Bytes &salt, int iter, const EVP_MD *md) {
    Bytes raw = seq({integer(Bn(3)), p7_data(authsafe)}); const uint8_t *p = raw.data(); PKCS12 *x = d2i_PKCS12(nullptr, &p, (long)raw.size()); if (!x) harness_error("p12_seal: d2i");
    Bytes r; if (PKCS12_set_mac(x, pw.data(), (int)pw.size(), (unsigned char *)salt.data(), (int)salt.size(), iter, md)) { uint8_t *o = nullptr; int n = i2d_PKCS12(x, &o); r.assign(o, o + n); OPENSSL_free(o); }
    PKCS12_free(x); return r;
}

// ---- opening
enum Fmt { KEY6, JKS, P12 };
enum Via { MEM, BIOM, CHUNK, FILEP };
struct Pw { std::string store, key; };
// BIO that serves its data in the given chunk sizes
struct ChunkState { const Bytes *b; size_t pos = 0; Rng g{1}; size_t maxc = 1024; };
inline int chunk_read(BIO *b, char *o, size_t n, size_t *r) { auto *s = (ChunkState *)BIO_get_data(b); BIO_clear_retry_flags(b); size_t k = std::min(n, std::min(s->b->size() - s->pos, (size_t)s->g.range(1, s->maxc))); if (!k) { *r = 0; return 0; } memcpy(o, s->b->data() + s->pos, k); s->pos += k; *r = k; return 1; }
inline long chunk_ctrl(BIO *, int cmd, long, void *) { return cmd == BIO_CTRL_FLUSH ? 1 : 0; }
inline BIO_METHOD *chunk_method() { static BIO_METHOD *m = [] { BIO_METHOD *x = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "chunks"); BIO_meth_set_read_ex(x, chunk_read); BIO_meth_set_ctrl(x, chunk_ctrl); return x; }(); return m; }
inline int parse(Fmt f, const uint8_t *p, size_t n, const Pw &w, KeyStore **ks) {
    switch (f) { case KEY6: return parseKey6(p, n, w.store.data(), w.store.size(), ks); case JKS: return parseJKS(p, n, w.store.data(), w.store.size(), w.key.data(), w.key.size(), ks); default: return parsePKCS12(p, n, w.store.data(), w.store.size(), ks); }
}
inline int read_bio(Fmt f, BIO *b, const Pw &w, KeyStore **ks) {
    switch (f) { case KEY6: return readKey6_bio(b, w.store.data(), w.store.size(), ks); case JKS: return readJKS_bio(b, w.store.data(), w.store.size(), w.key.data(), w.key.size(), ks); default: return readPKCS12_bio(b, w.store.data(), w.store.size(), ks); }
}
inline int read_file(Fmt f, FILE *b, const Pw &w, KeyStore **ks) {
    switch (f) { case KEY6: return readKey6(b, w.store.data(), w.store.size(), ks); case JKS: return readJKS(b, w.store.data(), w.store.size(), w.key.data(), w.key.size(), ks); default: return readPKCS12(b, w.store.data(), w.store.size(), ks); }
}
inline std::string tmpfile_path() { return run().tmp + fmt("/f%d", (int)getpid()); }
inline FILE *as_file(const Bytes &b) { std::string p = tmpfile_path(); FILE *f = fopen(p.c_str(), "w+b"); if (!f) harness_error("tmp file"); if (!b.empty() && fwrite(b.data(), 1, b.size(), f) != b.size()) harness_error("tmp write"); fflush(f); rewind(f); return f; }
// a container in a plain file, behind other data in a file, in a pipe, or in an unbuffered file
inline FILE *as_stream(const Bytes &b, uint64_t cs) {
    Rng q; q.reseed(cs ^ 0xf11e); int how = (int)q.below(5);
    if (how == 1) { Bytes pre = q.bytes(q.range(1, 3000)); FILE *f = as_file(cat({pre, b})); Bytes sk(pre.size()); if (q.chance(1, 2)) { if (fread(sk.data(), 1, sk.size(), f) != sk.size()) harness_error("file prefix"); } else if (fseek(f, (long)pre.size(), SEEK_SET)) harness_error("file seek"); return f; }
    if (how == 2 && b.size() < 60000) { int fd[2]; if (pipe(fd)) harness_error("pipe"); if (!b.empty() && write(fd[1], b.data(), b.size()) != (ssize_t)b.size()) harness_error("pipe write"); close(fd[1]); return fdopen(fd[0], "rb"); }
    FILE *f = as_file(b); if (how == 3) { rewind(f); setvbuf(f, nullptr, _IONBF, 0); } return f;
}
inline int open_via(Via v, Fmt f, const Bytes &b, const Pw &w, KeyStore **ks, uint64_t cs = 1) {
    switch (v) {
    case MEM: { uint8_t *p = (uint8_t *)malloc(b.size() ? b.size() : 1); if (b.size()) memcpy(p, b.data(), b.size()); int r = parse(f, b.size() ? p : p + 1, b.size(), w, ks); free(p); return r; }
    case BIOM: { Rng q; q.reseed(cs ^ 0xb10); int how = (int)q.below(4); Bytes pre = how == 1 ? q.bytes(q.range(1, 3000)) : Bytes(), all = cat({pre, b}); BIO *m = BIO_new_mem_buf(all.data(), (int)all.size()), *top = m; Bytes sk(pre.size());
        if (!pre.empty() && BIO_read(m, sk.data(), (int)sk.size()) != (int)sk.size()) harness_error("bio prefix"); if (how == 2) { BIO *f_ = BIO_new(BIO_f_buffer()); if (f_) top = BIO_push(f_, m); }   // a BIO read from before, a BIO chain
        int r = read_bio(f, top, w, ks); BIO_free_all(top); return r; }
    case CHUNK: { ChunkState s; s.b = &b; s.g.reseed(cs); s.maxc = s.g.pick<size_t>({1, 7, 100, 1023, 1024, 5000}); BIO *m = BIO_new(chunk_method()); BIO_set_data(m, &s); BIO_set_init(m, 1); int r = read_bio(f, m, w, ks); BIO_free(m); return r; }
    default: { FILE *fp = as_stream(b, cs); int r = read_file(f, fp, w, ks); fclose(fp); return r; }
    }
}
inline Bytes x509_der(const X509 *x) { uint8_t *p = nullptr; int n = i2d_X509((X509 *)x, &p); Bytes r; if (n > 0) r.assign(p, p + n); OPENSSL_free(p); return r; }
}  // namespace cont
