// C19: CMS / PKCS#7 messages made and read through OpenSSL with the engine. Signed messages are taken apart and judged by the reference verifier,
// reference-made messages must be accepted, and changed ones rejected; encrypted messages are decrypted by the reference and vice versa.
#include "containers.hpp"
#include "dernav.hpp"
#include <openssl/cms.h>
#include <openssl/pkcs7.h>
#include <openssl/rsa.h>
#include <openssl/pem.h>
using namespace cont;
static const char *O_DATA = "1.2.840.113549.1.7.1", *O_SIGNED = "1.2.840.113549.1.7.2", *O_ENCD = "1.2.840.113549.1.7.6", *O_DIG = "1.2.804.2.1.1.1.1.2.1", *O_CTYPE = "1.2.840.113549.1.9.3", *O_MDIG = "1.2.840.113549.1.9.4", *O_TIME = "1.2.840.113549.1.9.5", *O_CFB = "1.2.804.2.1.1.1.1.1.1.3";
struct BioP { BIO *b; explicit BioP(BIO *x) : b(x) {} ~BioP() { BIO_free(b); } operator BIO *() const { return b; } };
static BIO *rd(const Bytes &b) { static const uint8_t z = 0; return BIO_new_mem_buf(b.empty() ? &z : b.data(), (int)b.size()); }
struct Signer { Curve *c; Bn d; bool le; Bytes sbox; ref::Pt Q; Bytes spki, cert; X509 *x = nullptr; EVP_PKEY *k = nullptr; Bytes issuer, serial; void clear() { X509_free(x); EVP_PKEY_free(k); x = nullptr; k = nullptr; } };
static X509 *parse_cert(const Bytes &d) { const uint8_t *p = d.data(); return d2i_X509(nullptr, &p, (long)d.size()); }
static Bytes make_cert(const Signer &s, const Bytes &serial) { return cert_der(tbs_cert(s.spki, serial, "signer", s.le), octet(Bytes(64, 1)), s.le); }
static bool make_signer(Rng &g, Signer &s) {
    for (;;) { s.c = ref::any_curve(g, true); s.d = ref::rand_scalar(g, s.c->n); s.Q = ref::pub_of(*s.c, s.d); if (s.c->n.nbytes() > 8 && !s.Q.x.zero() && !Bn::be(ref::compress(*s.c, s.Q)).zero()) break; }
    s.le = g.chance(1, 2); s.sbox = g.chance(1, 3) ? ref::random_sbox(g) : Bytes(); Bytes *sb = s.sbox.empty() ? nullptr : &s.sbox; s.spki = ref::spki_der(*s.c, s.Q, s.le, sb);
    s.serial = g.bytes(8); s.serial[0] = s.serial[0] % 127 + 1; s.cert = make_cert(s, s.serial); s.issuer = name("signer"); s.x = parse_cert(s.cert); s.k = ref::decode_pkcs8(ref::pkcs8_der(*s.c, s.d, s.le, sb));
    if (!s.x || !s.k) { viol("C19/certificate", "certificate or key refused"); s.clear(); return false; }
    CHECK(X509_check_private_key(s.x, s.k) == 1, "C19/certificate", "the certificate does not match the key"); return true;
}
static Bytes ref_sign(const Signer &s, const Bytes &h, Rng &g) { ref::Sig x; for (;;) { Bn k = ref::rand_scalar(g, s.c->n); if (ref::sign_with(*s.c, s.d, h, k, x)) break; } Bytes b = ref::sig_body(*s.c, x, s.le); return g.chance(1, 3) ? b : octet(b); }
static Bytes key_hash(const Signer &s, const Bytes &m) { return s.sbox.empty() ? ref::hash(m) : ref::hash(m, s.sbox); }
static Bytes cms_der(CMS_ContentInfo *c) { uint8_t *p = nullptr; int n = i2d_CMS_ContentInfo(c, &p); Bytes r; if (n > 0) r.assign(p, p + n); OPENSSL_free(p); return r; }
static Bytes p7_der(PKCS7 *c) { uint8_t *p = nullptr; int n = i2d_PKCS7(c, &p); Bytes r; if (n > 0) r.assign(p, p + n); OPENSSL_free(p); return r; }
static int do_verify(bool p7, const Bytes &d, STACK_OF(X509) *certs, const Bytes *detached, Bytes *content, unsigned extra = 0) {
    const uint8_t *p = d.data(); BioP out(BIO_new(BIO_s_mem())); BioP in(detached ? rd(*detached) : nullptr); int r;
    if (p7) { PKCS7 *x = d2i_PKCS7(nullptr, &p, (long)d.size()); if (!x) return -2; r = PKCS7_verify(x, certs, nullptr, in, out, PKCS7_NOVERIFY | PKCS7_BINARY | extra); PKCS7_free(x); }
    else { CMS_ContentInfo *x = d2i_CMS_ContentInfo(nullptr, &p, (long)d.size()); if (!x) return -2; r = CMS_verify(x, certs, nullptr, in, out, CMS_NO_SIGNER_CERT_VERIFY | CMS_BINARY | extra); CMS_ContentInfo_free(x); }
    if (content) *content = from_bio(out); ERR_clear_error(); return r;
}
struct Si { Bytes sid, digalg, attrs, sigalg, sig; };
static bool take_apart(const Bytes &d, Bytes &content, std::vector<Bytes> &digalgs, std::vector<Si> &sis) {
    auto ci = kids(val(d)); if (ci.size() != 2 || ci[0] != oid(O_SIGNED)) return false; auto in = kids(val(ci[1])); if (in.size() != 1) return false; auto sd = kids(val(in[0])); if (sd.size() < 4) return false;
    digalgs = kids(val(sd[1])); auto ec = kids(val(sd[2])); if (ec.empty() || ec[0] != oid(O_DATA)) return false; content.clear(); if (ec.size() > 1) content = val(val(ec[1])); if (sd.back()[0] != 0x31) return false;
    for (auto &x : kids(val(sd.back()))) { auto k = kids(val(x)); if (k.size() < 5) return false; Si s; s.sid = k[1]; s.digalg = k[2]; size_t i = 3; if (k[i][0] == 0xa0) s.attrs = k[i++]; if (i + 1 >= k.size()) return false; s.sigalg = k[i]; s.sig = val(k[i + 1]); sis.push_back(s); }
    return true;
}
static Bytes attr(const std::vector<Bytes> &as, const char *o) { for (auto &a : as) { auto k = kids(val(a)); if (k.size() == 2 && k[0] == oid(o)) return val(k[1]); } return {}; }
// judge one signer of a message the engine made
static void judge(const Signer &s, const Si &i, const Bytes &content) {
    auto da = kids(val(i.digalg)), sa = kids(val(i.sigalg)); CHECK(!da.empty() && da[0] == oid(O_DIG), "C19/identifiers", "digest algorithm is %s", hex(i.digalg).c_str()); CHECK(!sa.empty() && sa[0] == oid(s.le ? ref::OID_LE : ref::OID_BE), "C19/identifiers", "signature algorithm is %s", hex(i.sigalg).c_str());
    ref::Sig x; Bytes h;
    if (!i.attrs.empty()) { auto as = kids(val(i.attrs)); CHECK(attr(as, O_MDIG) == octet(ref::hash(content)), "C19/message-digest", "the message digest attribute is not the digest of the content"); Bytes t = i.attrs; t[0] = 0x31; h = key_hash(s, t); stat("with_attributes"); }
    else { h = ref::hash(content); stat("without_attributes"); }
    bool ok = ref::parse_sig(*s.c, i.sig, s.le, x) && ref::verify(*s.c, s.Q, h, x);
    if (!ok && i.attrs.empty() && !s.sbox.empty()) ok = ref::parse_sig(*s.c, i.sig, s.le, x) && ref::verify(*s.c, s.Q, key_hash(s, content), x);   // without attributes either table may be in force
    CHECK(ok, "C19/signature", "the signature does not satisfy the equation under the reference");
}
static STACK_OF(X509) *stack(std::initializer_list<X509 *> l) { STACK_OF(X509) *s = sk_X509_new_null(); for (auto *x : l) sk_X509_push(s, x); return s; }
static void replaced(Bytes &d, const Bytes &from, size_t off, uint8_t mask, bool &done) { auto it = std::search(d.begin(), d.end(), from.begin(), from.end()); done = it != d.end() && from.size() > off; if (done) *(it + off) ^= mask; }

static void attack(bool p7, const Bytes &msg, const Signer &s, const Bytes &content, const Si &si, bool detached, STACK_OF(X509) *certs, Rng &g) {
    for (int t = 0; t < 8; t++) {
        Bytes m = msg, c = content; bool done = true; std::string what; STACK_OF(X509) *use = certs; X509 *fx = nullptr; unsigned extra = 0; Signer other; other.x = nullptr; other.k = nullptr; uint8_t mask = (uint8_t)(1 << g.below(8));
        switch (t) {
        case 0: case 1: what = "content"; if (content.size() < 12) continue; if (detached) c[g.below(c.size())] ^= mask; else replaced(m, content, g.below(content.size()), mask, done); break;
        case 2: what = "content-length"; if (!detached) continue; if (g.chance(1, 2) && !c.empty()) c.pop_back(); else c.push_back(g.byte()); break;
        case 3: case 4: { what = "signature"; Bytes tail(si.sig.end() - std::min<size_t>(si.sig.size() - 2, 40), si.sig.end()); replaced(m, tail, g.below(tail.size()), mask, done); break; }
        case 5: { what = "attributes"; if (si.attrs.empty()) continue; auto as = kids(val(si.attrs)); Bytes md = attr(as, O_MDIG), ti = attr(as, O_TIME); Bytes a = g.chance(1, 2) || ti.empty() ? md : ti; replaced(m, a, 2 + g.below(a.size() - 2), 1, done); break; }
        case 6: { what = "key"; Signer q = s; q.d = ref::rand_scalar(g, s.c->n); if (BN_cmp(q.d, s.d) == 0) continue; q.Q = ref::pub_of(*s.c, q.d); if (q.Q.x.zero() || Bn::be(ref::compress(*s.c, q.Q)).zero()) continue; q.spki = ref::spki_der(*s.c, q.Q, s.le, s.sbox.empty() ? nullptr : &s.sbox); fx = parse_cert(make_cert(q, s.serial)); if (!fx) continue; use = stack({fx}); extra = p7 ? PKCS7_NOINTERN : CMS_NOINTERN; break; }
        case 7: { what = "digest-algorithm"; if (si.attrs.empty()) continue; Bytes from = si.digalg, to = seq({oid("2.16.840.1.101.3.4.2.1")}); Bytes o = oid(O_DIG); auto it = std::search(m.begin(), m.end(), o.begin(), o.end()); if (it == m.end()) continue; auto it2 = std::search(it + 1, m.end(), o.begin(), o.end()); if (it2 == m.end()) it2 = it; *(it2 + o.size() - 1) ^= 2; break; }
        }
        if (done) { int r = do_verify(p7, m, use, detached ? &c : nullptr, nullptr, extra); stat("attacked_" + what); CHECK(r != 1, "C19/tampered", "%s message with changed %s is accepted", p7 ? "PKCS#7" : "CMS", what.c_str()); }
        if (use != certs) sk_X509_free(use); X509_free(fx);
    }
}
static void signed_case(long ci, Rng &g) {
    trand().reset(g.next()); std::vector<Signer> ss(g.chance(1, 4) ? 2 : 1); for (auto &s : ss) if (!make_signer(g, s)) { for (auto &x : ss) x.clear(); return; }
    bool p7 = g.chance(1, 3), detached = g.chance(1, 2), noattr = g.chance(1, 4), nocerts = g.chance(1, 4), refmade = g.chance(1, 3); Bytes content = g.bytes(g.chance(1, 12) ? g.range(1000, 20000) : g.pick<size_t>({0, 1, 15, 31, 32, 33, 64, 100, 200 + g.below(400)})); if (refmade && ss.size() > 1) { ss.back().clear(); ss.pop_back(); }
    desc(fmt("%s %s%s%s%s signers=%zu curve %s %s %s content %zu", p7 ? "pkcs7" : "cms", refmade ? "reference-made " : "", detached ? "detached " : "", noattr ? "noattr " : "", nocerts ? "nocerts" : "", ss.size(), ss[0].c->name.c_str(), ss[0].le ? "le" : "be", ss[0].sbox.empty() ? "default" : "table", content.size())); sig(run().cur); if (ci < 3) sample(run().cur);
    STACK_OF(X509) *certs = sk_X509_new_null(); for (auto &s : ss) sk_X509_push(certs, s.x); Bytes m; bool ok = true;
    if (refmade) {
        Signer &s = ss[0]; Bytes attrs, sv; if (!noattr) { std::vector<Bytes> as = {seq({oid(O_CTYPE), der(0x31, oid(O_DATA))}), seq({oid(O_MDIG), der(0x31, octet(ref::hash(content)))})}; if (g.chance(1, 2)) as.push_back(seq({oid(O_TIME), der(0x31, der(0x17, str("240102030405Z")))})); std::sort(as.begin(), as.end()); Bytes body; for (auto &a : as) body.insert(body.end(), a.begin(), a.end()); attrs = der(0xa0, body); sv = ref_sign(s, key_hash(s, der(0x31, body)), g); } else { if (!s.sbox.empty()) { for (auto &x : ss) x.clear(); sk_X509_free(certs); return; } sv = ref_sign(s, ref::hash(content), g); }
        Bytes da = g.chance(1, 2) ? seq({oid(O_DIG)}) : seq({oid(O_DIG), der(5, {})}), sa = g.chance(1, 2) ? seq({oid(s.le ? ref::OID_LE : ref::OID_BE)}) : seq({oid(s.le ? ref::OID_LE : ref::OID_BE), der(5, {})});
        Bytes si = seq({integer(Bn(1)), seq({s.issuer, der(2, s.serial)}), da, attrs, sa, octet(sv)}); m = seq({oid(O_SIGNED), ctx0(seq({integer(Bn(1)), der(0x31, da), seq({oid(O_DATA), detached ? Bytes() : ctx0(octet(content))}), nocerts ? Bytes() : der(0xa0, s.cert), der(0x31, si)}))}); stat("reference_made");
    } else if (p7) {
        BioP in(rd(content)); int fl = PKCS7_BINARY | PKCS7_NOSMIMECAP | (detached ? PKCS7_DETACHED : 0) | (noattr ? PKCS7_NOATTR : 0) | (nocerts ? PKCS7_NOCERTS : 0); PKCS7 *x;
        if (ss.size() == 1) x = PKCS7_sign(ss[0].x, ss[0].k, nullptr, in, fl); else { x = PKCS7_sign(nullptr, nullptr, nullptr, in, fl | PKCS7_PARTIAL); for (auto &s : ss) if (x && !PKCS7_sign_add_signer(x, s.x, s.k, g.chance(1, 2) ? nullptr : eng().md, fl)) { PKCS7_free(x); x = nullptr; } if (x && !PKCS7_final(x, in, fl)) { PKCS7_free(x); x = nullptr; } }
        ok = x != nullptr; if (x) m = p7_der(x); PKCS7_free(x); stat("p7_made");
    } else {
        BioP in(rd(content)); unsigned fl = CMS_BINARY | CMS_NOSMIMECAP | (detached ? CMS_DETACHED : 0) | (noattr ? CMS_NOATTR : 0) | (nocerts ? CMS_NOCERTS : 0) | (g.chance(1, 3) ? CMS_USE_KEYID : 0); fl &= ~CMS_USE_KEYID; CMS_ContentInfo *x;
        if (ss.size() == 1) x = CMS_sign(ss[0].x, ss[0].k, nullptr, in, fl); else { x = CMS_sign(nullptr, nullptr, nullptr, in, fl | CMS_PARTIAL); for (auto &s : ss) if (x && !CMS_add1_signer(x, s.x, s.k, g.chance(1, 2) ? nullptr : eng().md, fl)) { CMS_ContentInfo_free(x); x = nullptr; } if (x && CMS_final(x, in, nullptr, fl) != 1) { CMS_ContentInfo_free(x); x = nullptr; } }
        ok = x != nullptr; if (x) m = cms_der(x); CMS_ContentInfo_free(x); stat("cms_made");
    }
    if (!ok || m.empty()) { char b[256]; ERR_error_string_n(ERR_peek_last_error(), b, sizeof b); viol("C19/sign", std::string("message not created: ") + b); }
    else {
        Bytes in; std::vector<Bytes> dal; std::vector<Si> sis; if (!take_apart(m, in, dal, sis) || sis.size() != ss.size()) viol("C19/structure", "message has another structure: " + shorthex(m, 400));
        else {
            if (!detached) CHECK(in == content, "C19/content", "embedded content differs"); for (auto &d : dal) { auto k = kids(val(d)); CHECK(!k.empty() && k[0] == oid(O_DIG), "C19/identifiers", "digest list holds %s", hex(d).c_str()); }
            if (!refmade) for (auto &si : sis) { bool found = false; for (auto &s : ss) { Bytes isn = seq({s.issuer, der(2, s.serial)}); if (si.sid == isn) { judge(s, si, content); found = true; } } CHECK(found, "C19/structure", "unknown signer %s", hex(si.sid).c_str()); }
            // libcrypto's PKCS7_verify never tells the digest about the key, so attributes signed under a key's own table can only be verified as CMS
            bool table = false; for (auto &s : ss) table |= !s.sbox.empty(); bool p7ok = noattr || !table; if (p7 && !p7ok) { p7 = false; stat("p7_table_as_cms"); }
            Bytes outc; int r = do_verify(p7, m, certs, detached ? &content : nullptr, &outc); CHECK(r == 1, "C19/verify", "a correct message is rejected (%d)", r); if (r == 1) { CHECK(outc == content, "C19/content", "verification returns other content"); stat("verified"); }
            if (p7 || p7ok) r = do_verify(!p7, m, certs, detached ? &content : nullptr, nullptr); CHECK(r == 1, "C19/verify", "a correct message is rejected by the other interface (%d)", r);
            if (ss.size() == 1) attack(p7, m, ss[0], content, sis[0], detached, certs, g);
        }
    }
    sk_X509_free(certs); for (auto &s : ss) s.clear();
}
// ---- encrypted messages
static bool find_cfb(const Bytes &d, Bytes &iv, Bytes &sb, Bytes &ct) {   // the only DSTU cipher identifier in the message, and the [0] content that follows it
    Bytes o = oid(O_CFB); auto it = std::search(d.begin(), d.end(), o.begin(), o.end()); if (it == d.end()) return false; Bytes rest(it + o.size(), d.end()); size_t p = 0; int t; Bytes v; if (!tlv(rest, p, t, v) || t != 0x30) return false; auto k = kids(v); if (k.size() != 2) return false; iv = val(k[0]); sb = val(k[1]); if (!tlv(rest, p, t, v)) return false; if (t == 0x80) ct = v; else if (t == 0xa0) { ct.clear(); for (auto &c : kids(v)) { Bytes x = val(c); ct.insert(ct.end(), x.begin(), x.end()); } } else return false; return iv.size() == 8 && sb.size() == 64;
}
static EVP_PKEY *rsa_key() { static PKey k(EVP_RSA_gen(1024)); return k.get(); }
static X509 *rsa_cert() { static X509 *x = nullptr; if (x) return x; x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), 77); X509_gmtime_adj(X509_getm_notBefore(x), 0); X509_gmtime_adj(X509_getm_notAfter(x), 86400); X509_NAME *n = X509_get_subject_name(x); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const uint8_t *)"rsa", -1, -1, 0); X509_set_issuer_name(x, n); X509_set_pubkey(x, rsa_key()); X509_sign(x, rsa_key(), EVP_sha256()); return x; }
static void enc_case(long ci, Rng &g) {
    trand().reset(g.next()); int kind = (int)g.below(5); Bytes content = g.bytes(g.chance(1, 12) ? g.range(1000, 20000) : g.range(1, 300)), key = g.bytes(32), iv = g.bytes(8), sb = g.chance(1, 4) ? ref::default_sbox() : ref::random_sbox(g); desc(fmt("encrypted kind %d content %zu", kind, content.size())); sig(run().cur); if (ci < 3) sample(run().cur);
    auto dec = [&](const Bytes &d, const Bytes &k, bool &ok) { const uint8_t *p = d.data(); CMS_ContentInfo *c = d2i_CMS_ContentInfo(nullptr, &p, (long)d.size()); Bytes r; if (!c) { ok = false; return r; } BioP o(BIO_new(BIO_s_mem())); ok = CMS_EncryptedData_decrypt(c, k.data(), k.size(), nullptr, o, CMS_BINARY) == 1; r = from_bio(o); CMS_ContentInfo_free(c); ERR_clear_error(); return r; };
    auto wrong = [&](const Bytes &d) { if (content.size() < 12) return; for (int t = 0; t < 3; t++) { Bytes k = key; k[g.below(32)] ^= (uint8_t)(1 << g.below(8)); bool ok; Bytes r = dec(d, k, ok); CHECK(!ok || r != content, "C19/wrong-key", "another key decrypts the message"); stat("wrong_keys"); } };
    if (kind == 0) { // reference-encrypted, any table
        Bytes ct = ref::cfb(sb, key, iv, content, true), d = seq({oid(O_ENCD), ctx0(seq({integer(Bn(0ul)), seq({oid(O_DATA), seq({oid(O_CFB), seq({octet(iv), octet(sb)})}), der(0x80, ct)})}))}); bool ok; Bytes r = dec(d, key, ok); CHECK(ok && r == content, "C19/decrypt", ok ? "wrong plaintext" : "decryption refused"); wrong(d); stat("reference_encrypted");
    } else if (kind == 1) { BioP in(rd(content)); CMS_ContentInfo *c = CMS_EncryptedData_encrypt(in, eng().cipher, key.data(), 32, CMS_BINARY); if (!c) { viol("C19/encrypt", "encryption refused"); return; } Bytes d = cms_der(c), i2, s2, ct; CMS_ContentInfo_free(c); if (!find_cfb(d, i2, s2, ct)) { viol("C19/structure", "encrypted message has another structure: " + shorthex(d, 400)); return; } CHECK(s2 == ref::default_sbox(), "C19/structure", "unexpected table"); CHECK(ref::cfb(s2, key, i2, ct, false) == content, "C19/encrypt", "the reference decrypts it differently"); bool ok; Bytes r = dec(d, key, ok); CHECK(ok && r == content, "C19/decrypt", ok ? "wrong plaintext" : "decryption refused"); wrong(d); stat("encrypted");
    } else { // enveloped: RSA recipient (CMS, PKCS#7) or shared key
        Bytes d; std::string w; BioP in(rd(content)), out(BIO_new(BIO_s_mem())); STACK_OF(X509) *st = stack({rsa_cert()}); bool ok = false; Bytes kek = g.bytes(32), kid = g.bytes(4);
        if (kind == 2) { w = "CMS/RSA"; CMS_ContentInfo *c = CMS_encrypt(st, in, eng().cipher, CMS_BINARY); if (c) { d = cms_der(c); CMS_ContentInfo_free(c); const uint8_t *p = d.data(); c = d2i_CMS_ContentInfo(nullptr, &p, (long)d.size()); ok = c && CMS_decrypt(c, rsa_key(), rsa_cert(), nullptr, out, CMS_BINARY) == 1; CMS_ContentInfo_free(c); } }
        else if (kind == 3) { w = "PKCS7/RSA"; PKCS7 *c = PKCS7_encrypt(st, in, eng().cipher, PKCS7_BINARY); if (c) { d = p7_der(c); PKCS7_free(c); const uint8_t *p = d.data(); c = d2i_PKCS7(nullptr, &p, (long)d.size()); ok = c && PKCS7_decrypt(c, rsa_key(), rsa_cert(), out, PKCS7_BINARY) == 1; PKCS7_free(c); } }
        else { w = "CMS/KEK"; CMS_ContentInfo *c = CMS_encrypt(nullptr, in, eng().cipher, CMS_BINARY | CMS_PARTIAL); uint8_t *kk = (uint8_t *)OPENSSL_memdup(kek.data(), 32), *ki = (uint8_t *)OPENSSL_memdup(kid.data(), 4); if (c && CMS_add0_recipient_key(c, NID_undef, kk, 32, ki, 4, nullptr, nullptr, nullptr) && CMS_final(c, in, nullptr, CMS_BINARY) == 1) { d = cms_der(c); CMS_ContentInfo_free(c); const uint8_t *p = d.data(); c = d2i_CMS_ContentInfo(nullptr, &p, (long)d.size()); ok = c && CMS_decrypt_set1_key(c, kek.data(), 32, kid.data(), 4) == 1 && CMS_decrypt(c, nullptr, nullptr, nullptr, out, CMS_BINARY) == 1; } CMS_ContentInfo_free(c); }
        sk_X509_free(st); Bytes i2, s2, ct; if (d.empty()) viol("C19/encrypt", w + ": not created"); else if (!find_cfb(d, i2, s2, ct)) viol("C19/structure", w + ": another structure " + shorthex(d, 400)); else { CHECK(ok && from_bio(out) == content, "C19/decrypt", "%s: %s", w.c_str(), ok ? "wrong plaintext" : "decryption refused"); CHECK(ct.size() == content.size() && (ct != content || content.size() < 4), "C19/encrypt", "%s: content is not encrypted", w.c_str()); } stat("enveloped"); ERR_clear_error();
    }
}
static void fixtures(long, Rng &) {
    std::string f = run().repo + "/tests/cms.pem"; desc(f); sig(f); BioP b(BIO_new_file(f.c_str(), "r")); if (!b.b) { stat("fixture_missing"); return; } char *nm = nullptr, *hd = nullptr; uint8_t *d = nullptr; long n = 0; if (PEM_read_bio(b, &nm, &hd, &d, &n) != 1) { stat("fixture_missing"); return; } Bytes m(d, d + n); OPENSSL_free(nm); OPENSSL_free(hd); OPENSSL_free(d);
    Bytes c; int r = do_verify(false, m, nullptr, nullptr, &c); CHECK(r == 1, "C19/fixture", "cms.pem is rejected"); Bytes in; std::vector<Bytes> dal; std::vector<Si> sis; if (!take_apart(m, in, dal, sis)) { stat("fixture_structure"); return; }
    Rng g(5); for (auto &s : sis) for (size_t i = 0; i < s.sig.size(); i++) { Bytes t = m; bool done; replaced(t, s.sig, i, (uint8_t)(1 << g.below(8)), done); if (done) CHECK(do_verify(false, t, nullptr, nullptr, nullptr) != 1, "C19/fixture", "cms.pem with changed signature byte %zu is accepted", i); stat("fixture_attacks"); }
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); rsa_cert(); install_test_rand(); ref::init_curves();
    if (run().mode == "enc") for_cases(enc_case); else if (run().mode == "fixtures") for_cases(fixtures); else for_cases(signed_case);
    X509_free(rsa_cert()); ref::free_curves(); done_engine(); return finish_run();
}
