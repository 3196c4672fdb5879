// Independent reference for DSTU 4145-2002: curves, key and signature encodings, sign/verify equations, compression.
// Field and group arithmetic is libcrypto's (trusted base); everything DSTU-specific is written here.
#pragma once
#include "refgost.hpp"
#include "golden_curves.hpp"

namespace ref {
class Bn {
    BIGNUM *p;
public:
    Bn() : p(BN_new()) {}
    Bn(unsigned long v) : p(BN_new()) { BN_set_word(p, v); }
    Bn(const BIGNUM *b) : p(BN_dup(b)) {}
    Bn(const Bn &o) : p(BN_dup(o.p)) {}
    Bn(Bn &&o) noexcept : p(o.p) { o.p = nullptr; }
    Bn &operator=(const Bn &o) { if (this != &o) { if (!p) p = BN_new(); BN_copy(p, o.p); } return *this; }
    Bn &operator=(Bn &&o) noexcept { std::swap(p, o.p); return *this; }
    ~Bn() { BN_free(p); }
    operator BIGNUM *() { return p; }
    operator const BIGNUM *() const { return p; }
    static Bn hexs(const std::string &s) { Bn r; BIGNUM *q = r; BN_hex2bn(&q, s.c_str()); return r; }
    static Bn be(const Bytes &b) { Bn r; BN_bin2bn(b.data(), (int)b.size(), r); return r; }
    static Bn le(const Bytes &b) { Bytes t(b.rbegin(), b.rend()); return be(t); }
    bool operator==(const Bn &o) const { return BN_cmp(p, o.p) == 0; }
    bool operator!=(const Bn &o) const { return !(*this == o); }
    bool operator<(const Bn &o) const { return BN_cmp(p, o.p) < 0; }
    bool zero() const { return BN_is_zero(p); }
    int bits() const { return BN_num_bits(p); }
    int nbytes() const { return BN_num_bytes(p); }
    Bytes bytes(size_t len) const { Bytes r(len); if (BN_bn2binpad(p, r.data(), (int)len) < 0) harness_error("Bn::bytes"); return r; }
    Bytes minle() const { Bytes r = bytes(nbytes()); std::reverse(r.begin(), r.end()); return r; }
    std::string str() const { char *c = BN_bn2hex(p); std::string s = c; OPENSSL_free(c); return s; }
};
struct BnCtx { BN_CTX *c = BN_CTX_new(); ~BnCtx() { BN_CTX_free(c); } operator BN_CTX *() { return c; } };
inline BN_CTX *bnctx() { static thread_local BnCtx c; return c; }

struct Pt { Bn x, y; bool inf = false; bool operator==(const Pt &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
struct Curve {
    std::string name; int nid = 0; int m = 0; std::vector<int> mid;  // descending middle exponents (1 or 3)
    int a = 0; Bn b, n, p; Pt G; EC_GROUP *grp = nullptr;
    size_t fs() const { return (m + 7) / 8; }
    size_t os() const { return n.nbytes(); }
};

inline Bn mul(const Curve &c, const Bn &a, const Bn &b) { Bn r; BN_GF2m_mod_mul(r, a, b, c.p, bnctx()); return r; }
inline Bn sqr(const Curve &c, const Bn &a) { Bn r; BN_GF2m_mod_sqr(r, a, c.p, bnctx()); return r; }
inline Bn add(const Bn &a, const Bn &b) { Bn r; BN_GF2m_add(r, a, b); return r; }
inline Bn inv(const Curve &c, const Bn &a) { Bn r; BN_GF2m_mod_inv(r, a, c.p, bnctx()); return r; }
inline int trace(const Curve &c, const Bn &x) { Bn s = x, t = x; for (int i = 1; i < c.m; i++) { t = sqr(c, t); s = add(s, t); } return BN_is_one((const BIGNUM *)s) ? 1 : 0; }
inline bool on_curve(const Curve &c, const Pt &P) {
    if (P.inf) return true;
    if (P.x.bits() > c.m || P.y.bits() > c.m) return false;
    Bn l = add(sqr(c, P.y), mul(c, P.x, P.y)), x2 = sqr(c, P.x), r = mul(c, x2, P.x);
    if (c.a) r = add(r, x2);
    return l == add(r, c.b);
}
inline Pt from_ec(const Curve &c, const EC_POINT *q) {
    Pt r; if (EC_POINT_is_at_infinity(c.grp, q)) { r.inf = true; return r; }
    EC_POINT_get_affine_coordinates(c.grp, q, r.x, r.y, bnctx()); return r;
}
inline EC_POINT *to_ec(const Curve &c, const Pt &P) {
    EC_POINT *q = EC_POINT_new(c.grp);
    if (P.inf) EC_POINT_set_to_infinity(c.grp, q);
    else if (!EC_POINT_set_affine_coordinates(c.grp, q, P.x, P.y, bnctx())) { EC_POINT_free(q); return nullptr; }
    return q;
}
// u*G + v*P
inline Pt lincomb(const Curve &c, const Bn *u, const Pt *P, const Bn *v) {
    EC_POINT *r = EC_POINT_new(c.grp); EC_POINT *q = P ? to_ec(c, *P) : nullptr;
    if (!EC_POINT_mul(c.grp, r, u ? (const BIGNUM *)*u : nullptr, q, v ? (const BIGNUM *)*v : nullptr, bnctx())) harness_error("EC_POINT_mul");
    Pt o = from_ec(c, r); EC_POINT_free(r); EC_POINT_free(q); return o;
}
inline Pt neg(const Pt &P) { Pt r = P; if (!r.inf) r.y = add(P.x, P.y); return r; }
inline Pt pub_of(const Curve &c, const Bn &d) { return neg(lincomb(c, &d, nullptr, nullptr)); }

inline Bytes compress(const Curve &c, const Pt &P) {
    if (P.x.zero()) return Bytes(c.fs(), 0);
    int t = trace(c, mul(c, P.y, inv(c, P.x)));
    Bn x = P.x; if (t) BN_set_bit(x, 0); else BN_clear_bit(x, 0);
    return x.bytes(c.fs());
}
// expansion of a canonical string (value < 2^m); false if it encodes no point
inline bool expand(const Curve &c, const Bytes &s, Pt &P) {
    Bn x = Bn::be(s); P.inf = false;
    if (x.zero()) { P.x = x; Bn y = c.b; for (int i = 1; i < c.m; i++) y = sqr(c, y); P.y = y; return true; }
    int k = BN_is_bit_set((const BIGNUM *)x, 0); BN_clear_bit(x, 0);
    if (trace(c, x) != c.a) BN_set_bit(x, 0);      // Tr(1)=1 for odd m, Tr(a)=a
    if (x.zero()) return false;
    Bn x2 = sqr(c, x), t = mul(c, x2, x); if (c.a) t = add(t, x2); t = add(t, c.b); t = mul(c, t, inv(c, x2));
    if (trace(c, t)) return false;
    // half-trace (m odd)
    Bn z = t, w = t; for (int i = 1; i <= (c.m - 1) / 2; i++) { w = sqr(c, sqr(c, w)); z = add(z, w); }
    if (trace(c, z) != k) z = add(z, Bn(1));
    P.x = x; P.y = mul(c, z, x); return true;
}

// ---- DER writer
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto &b : l) r.insert(r.end(), b.begin(), b.end()); return r; }
inline Bytes der(uint8_t tag, const Bytes &v) {
    Bytes r{tag}; size_t n = v.size();
    if (n < 128) r.push_back((uint8_t)n); else { Bytes l; for (size_t k = n; k; k >>= 8) l.insert(l.begin(), (uint8_t)k); r.push_back(0x80 | (uint8_t)l.size()); r.insert(r.end(), l.begin(), l.end()); }
    r.insert(r.end(), v.begin(), v.end()); return r;
}
inline Bytes seq(std::initializer_list<Bytes> l) { return der(0x30, cat(l)); }
inline Bytes octet(const Bytes &b) { return der(4, b); }
inline Bytes integer(const Bn &v) { Bytes b = v.bytes(std::max(1, v.nbytes())); if (b[0] & 0x80) b.insert(b.begin(), 0); return der(2, b); }
inline Bytes oid(const std::string &s) {
    std::vector<unsigned long> a; size_t p = 0; while (p < s.size()) { size_t q = s.find('.', p); if (q == std::string::npos) q = s.size(); a.push_back(strtoul(s.substr(p, q - p).c_str(), 0, 10)); p = q + 1; }
    Bytes v; auto put = [&](unsigned long x) { Bytes t{(uint8_t)(x & 127)}; while (x >>= 7) t.insert(t.begin(), (uint8_t)(x & 127) | 0x80); v.insert(v.end(), t.begin(), t.end()); };
    put(a[0] * 40 + a[1]); for (size_t i = 2; i < a.size(); i++) put(a[i]);
    return der(6, v);
}
static const char *OID_LE = "1.2.804.2.1.1.1.1.3.1.1", *OID_BE = "1.2.804.2.1.1.1.1.3.1.1.1.1";
inline std::string curve_oid(int i) { return fmt("1.2.804.2.1.1.1.1.3.1.1.2.%d", i); }
inline Bytes rev(const Bytes &b) { return Bytes(b.rbegin(), b.rend()); }
inline Bytes ord(const Bytes &b, bool le) { return le ? rev(b) : b; }

inline Bytes custom_spec(const Curve &c, bool le) {
    Bytes poly = c.mid.size() == 1 ? integer(Bn(c.mid[0])) : seq({integer(Bn(c.mid[2])), integer(Bn(c.mid[1])), integer(Bn(c.mid[0]))});
    return seq({seq({integer(Bn(c.m)), poly}), integer(Bn(c.a)), octet(ord(c.b.bytes(c.fs()), le)), integer(c.n), octet(ord(compress(c, c.G), le))});
}
inline Bytes params_der(const Curve &c, bool le, const Bytes *sbox, bool force_custom = false) {
    Bytes curve = c.nid && !force_custom ? oid(curve_oid(c.nid - NID_uacurve0)) : custom_spec(c, le);
    if (sbox && *sbox != default_sbox()) return seq({curve, octet(*sbox)});
    return seq({curve});
}
inline Bytes algid(const Curve &c, bool le, const Bytes *sbox, bool fc = false) { return seq({oid(le ? OID_LE : OID_BE), params_der(c, le, sbox, fc)}); }
inline Bytes spki_der(const Curve &c, const Pt &Q, bool le, const Bytes *sbox, bool fc = false) {
    Bytes k = octet(ord(compress(c, Q), le)); k.insert(k.begin(), 0);
    return seq({algid(c, le, sbox, fc), der(3, k)});
}
inline Bytes pkcs8_der(const Curve &c, const Bn &d, bool le, const Bytes *sbox, bool fc = false, const Bytes &attrs = Bytes()) {
    return seq({integer(Bn(0ul)), algid(c, le, sbox, fc), octet(d.minle()), attrs});
}

// ---- signatures
struct Sig { Bn r, s; };
inline Bn trunc(const Bn &v, int bits) { Bn r = v; if (r.bits() > bits) BN_mask_bits(r, bits); return r; }
inline Bn hash_elem(const Curve &c, const Bytes &tbs) { Bn h = trunc(Bn::le(tbs), c.m); if (h.zero()) h = Bn(1); return h; }
inline bool r_from(const Curve &c, const Bytes &tbs, const Bn &x, Bn &r) { r = trunc(mul(c, hash_elem(c, tbs), x), c.n.bits() - 1); return !r.zero(); }
inline bool verify(const Curve &c, const Pt &Q, const Bytes &tbs, const Sig &s) {
    if (s.r.zero() || s.s.zero() || !(s.r < c.n) || !(s.s < c.n) || Q.inf) return false;
    Pt R = lincomb(c, &s.s, &Q, &s.r);
    if (R.inf) return false;
    Bn r; if (!r_from(c, tbs, R.x, r)) return false;
    return r == s.r;
}
inline bool sign_with(const Curve &c, const Bn &d, const Bytes &tbs, const Bn &e, Sig &s) {
    Pt P = lincomb(c, &e, nullptr, nullptr); if (P.inf || P.x.zero()) return false;
    if (!r_from(c, tbs, P.x, s.r)) return false;
    BN_mod_mul(s.s, d, s.r, c.n, bnctx()); BN_mod_add(s.s, s.s, e, c.n, bnctx());
    return !s.s.zero();
}
inline Bn nonce_of(const Curve &c, const Bn &d, const Sig &s) { Bn t; BN_mod_mul(t, d, s.r, c.n, bnctx()); BN_mod_sub(t, s.s, t, c.n, bnctx()); return t; }
inline Bytes sig_body(const Curve &c, const Sig &s, bool le, size_t half = 0) {
    if (!half) half = c.os();
    Bytes b = cat({s.s.bytes(half), s.r.bytes(half)}); return ord(b, le);
}
inline bool parse_sig(const Curve &c, const Bytes &e, bool le, Sig &s) {   // strict canonical form
    size_t L = c.os(); Bytes hdr = der(4, Bytes(2 * L)); hdr.resize(hdr.size() - 2 * L);
    if (e.size() != hdr.size() + 2 * L || !std::equal(hdr.begin(), hdr.end(), e.begin())) return false;
    Bytes b = ord(Bytes(e.begin() + hdr.size(), e.end()), le);
    s.s = Bn::be(Bytes(b.begin(), b.begin() + L)); s.r = Bn::be(Bytes(b.begin() + L, b.end())); return true;
}

// ---- curve sets
inline std::vector<std::unique_ptr<Curve>> &store() { static std::vector<std::unique_ptr<Curve>> v; return v; }
inline std::vector<Curve *> &nameds() { static std::vector<Curve *> v; return v; }
inline std::vector<Curve *> &customs() { static std::vector<Curve *> v; return v; }   // full-size custom curves
inline std::vector<Curve *> &smalls() { static std::vector<Curve *> v; return v; }    // tiny curves (exhaustible)
inline Curve *named(int i) { return nameds()[i]; }

inline void build(Curve &c) {
    std::vector<int> arr{c.m}; for (int k : c.mid) arr.push_back(k); arr.push_back(0); arr.push_back(-1);
    BN_GF2m_arr2poly(arr.data(), c.p);
    c.grp = EC_GROUP_new_curve_GF2m(c.p, Bn(c.a), c.b, bnctx());
    if (!c.grp) harness_error("reference curve group " + c.name);
    if (!on_curve(c, c.G)) harness_error("reference base point off curve " + c.name);
    EC_POINT *g = to_ec(c, c.G);
    if (!EC_GROUP_set_generator(c.grp, g, c.n, BN_value_one())) harness_error("set_generator " + c.name);
    EC_POINT_free(g);
}
inline void validate(Curve &c) {
    if (BN_check_prime(c.n, bnctx(), nullptr) != 1) harness_error("reference order not prime " + c.name);
    EC_POINT *g = to_ec(c, c.G), *r = EC_POINT_new(c.grp);
    // nG = (n-1)G + G, avoiding any reduction of the scalar by n
    Bn n1 = c.n; BN_sub_word(n1, 1); EC_POINT_mul(c.grp, r, n1, nullptr, nullptr, bnctx()); EC_POINT_add(c.grp, r, r, g, bnctx());
    if (!EC_POINT_is_at_infinity(c.grp, r)) harness_error("reference nG != O " + c.name);
    EC_POINT_free(g); EC_POINT_free(r);
}
// brute-force small curves with own 32-bit arithmetic
inline Curve *make_small(int m, std::vector<int> mid, int a, Rng &g) {
    uint32_t poly = 1u << m | 1; for (int k : mid) poly |= 1u << k;
    auto gm = [&](uint32_t x, uint32_t y) { uint64_t r = 0; for (int i = 0; i < m; i++) if (y >> i & 1) r ^= (uint64_t)x << i; for (int i = 2 * m - 2; i >= m; i--) if (r >> i & 1) r ^= (uint64_t)poly << (i - m); return (uint32_t)r; };
    const uint32_t q1 = (1u << m) - 1; std::vector<uint32_t> ex(q1), lg(q1 + 1);   // discrete logarithms to a primitive element
    for (uint32_t pr = 2;; pr++) { uint32_t t = 1, k = 0; do { ex[k++] = t; t = gm(t, pr); } while (t != 1 && k < q1); if (t == 1 && k == q1) break; }
    for (uint32_t k = 0; k < q1; k++) lg[ex[k]] = k;
    auto gi = [&](uint32_t x) { return ex[(q1 - lg[x]) % q1]; };
    auto mul = [&](uint32_t x, uint32_t y) { return x && y ? ex[(lg[x] + lg[y]) % q1] : 0; };
    uint32_t trmask = 0; for (int i = 0; i < m; i++) { uint32_t s = 1u << i, t = s; for (int k = 1; k < m; k++) { t = gm(t, t); s ^= t; } trmask |= (s & 1) << i; }
    auto tr = [&](uint32_t x) { return (uint32_t)__builtin_parity(x & trmask); };
    auto isprime = [](uint32_t n) { if (n < 2) return false; for (uint32_t i = 2; i * i <= n; i++) if (n % i == 0) return false; return true; };
    for (;;) {
        uint32_t b = 1 + (uint32_t)g.below((1u << m) - 1), cnt = 2;
        for (uint32_t x = 1; x < (1u << m); x++) { uint32_t xi = gi(x); if (tr(x ^ (uint32_t)a ^ mul(b, mul(xi, xi))) == 0) cnt += 2; }
        uint32_t h = a ? 2 : 4; if (cnt % h || !isprime(cnt / h) || cnt / h < 5) continue;
        auto c = std::make_unique<Curve>(); c->name = fmt("small%d_a%d", m, a); c->m = m; c->mid = mid; c->a = a; c->b = Bn(b); c->n = Bn(cnt / h);
        std::vector<int> arr{m}; for (int k : mid) arr.push_back(k); arr.push_back(0); arr.push_back(-1); BN_GF2m_arr2poly(arr.data(), c->p);
        c->grp = EC_GROUP_new_curve_GF2m(c->p, Bn(a), c->b, bnctx());
        // random point, cofactor-cleared by repeated doubling
        for (;;) {
            Bytes s = Bn(1 + g.below((1u << m) - 1)).bytes(c->fs()); Pt P;
            if (!expand(*c, s, P) || P.x.zero()) continue;
            EC_POINT *q = to_ec(*c, P); for (uint32_t k = 1; k < h; k *= 2) EC_POINT_dbl(c->grp, q, q, bnctx());
            if (EC_POINT_is_at_infinity(c->grp, q)) { EC_POINT_free(q); continue; }
            c->G = from_ec(*c, q); EC_POINT_free(q); break;
        }
        EC_GROUP_free(c->grp); c->grp = nullptr; build(*c); validate(*c);
        // libcrypto's EC_POINT_invert leaves a point with y=0 as it is (wrong in characteristic 2, unreachable on real curves): no such point in the group
        bool y0 = false; { EC_POINT *q = to_ec(*c, c->G), *gg = to_ec(*c, c->G); for (uint32_t k = 1; k < cnt / h && !y0; k++) { y0 = from_ec(*c, q).y.zero(); EC_POINT_add(c->grp, q, q, gg, bnctx()); } EC_POINT_free(q); EC_POINT_free(gg); }
        if (y0) { EC_GROUP_free(c->grp); continue; }
        store().push_back(std::move(c)); return store().back().get();
    }
}
inline Curve *from_builtin(int nid) {
    EC_GROUP *g = EC_GROUP_new_by_curve_name(nid); if (!g) return nullptr;
    auto c = std::make_unique<Curve>(); Bn p, a; int arr[8];
    c->name = OBJ_nid2sn(nid);
    EC_GROUP_get_curve(g, p, a, c->b, bnctx()); BN_GF2m_poly2arr(p, arr, 8);
    c->m = arr[0]; for (int i = 1; arr[i] > 0; i++) c->mid.push_back(arr[i]);
    if (!(a.zero() || BN_is_one((const BIGNUM *)a))) harness_error("builtin curve with unsupported a");
    c->a = a.zero() ? 0 : 1; BN_copy(c->n, EC_GROUP_get0_order(g));
    EC_POINT_get_affine_coordinates(g, EC_GROUP_get0_generator(g), c->G.x, c->G.y, bnctx());
    EC_GROUP_free(g); build(*c); store().push_back(std::move(c)); return store().back().get();
}
// same field/equation as named curve i but another generator: kG
inline Curve *regenerated(int i, unsigned k) {
    Curve *o = named(i); auto c = std::make_unique<Curve>(); c->name = o->name + "_G*" + std::to_string(k);
    c->m = o->m; c->mid = o->mid; c->a = o->a; c->b = o->b; c->n = o->n; Bn kk(k); c->G = lincomb(*o, &kk, nullptr, nullptr);
    build(*c); store().push_back(std::move(c)); return store().back().get();
}
inline void init_curves(bool with_small = true, bool with_custom = true) {
    int i = 0;
    for (auto &gc : golden_curves) {
        auto c = std::make_unique<Curve>(); c->name = fmt("uacurve%d", i); c->nid = NID_uacurve0 + i++; c->m = gc.m; c->mid = gc.mid; c->a = gc.a;
        c->b = Bn::hexs(gc.b); c->n = Bn::hexs(gc.n); c->G.x = Bn::hexs(gc.gx); c->G.y = Bn::hexs(gc.gy);
        build(*c); validate(*c); nameds().push_back(c.get()); store().push_back(std::move(c));
    }
    if (with_custom) {
        for (int nid : {NID_sect163k1, NID_sect163r2, NID_sect233k1, NID_sect233r1, NID_sect239k1, NID_sect283k1, NID_sect283r1, NID_sect409k1, NID_sect571r1})
            if (Curve *c = from_builtin(nid)) customs().push_back(c);
        customs().push_back(regenerated(0, 5)); customs().push_back(regenerated(6, 3)); customs().push_back(regenerated(9, 2));
    }
    if (with_small) {
        Rng g(4242);
        smalls().push_back(make_small(9, {4}, 1, g));   smalls().push_back(make_small(9, {4}, 0, g));
        smalls().push_back(make_small(11, {2}, 1, g));  smalls().push_back(make_small(11, {4, 2, 1}, 0, g));
        smalls().push_back(make_small(13, {4, 3, 1}, 1, g)); smalls().push_back(make_small(13, {4, 3, 1}, 0, g));
        smalls().push_back(make_small(15, {1}, 1, g));
    }
}
inline void free_curves() { for (auto &c : store()) EC_GROUP_free(c->grp); nameds().clear(); customs().clear(); smalls().clear(); store().clear(); }
inline Bn rand_scalar(Rng &g, const Bn &n) {   // 1..n-1, biased to edges
    size_t L = n.nbytes(); Bn d;
    switch (g.below(10)) {
    case 0: d = Bn(1 + g.below(255)); break;
    case 1: d = n; BN_sub_word(d, 1 + g.below(200)); break;
    case 2: { Bytes b = g.bytes(1 + g.below(L)); d = Bn::be(b); break; }                 // short
    case 3: { Bytes b = g.bytes(L); size_t z = 1 + g.below(L); for (size_t i = 0; i < z; i++) b[L - 1 - i] = 0; d = Bn::be(b); break; }  // trailing zeros
    default: d = Bn::be(g.bytes(L + 4)); break;
    }
    if (BN_is_negative((const BIGNUM *)d)) d = Bn(1);
    BN_mod(d, d, n, bnctx()); if (d.zero()) d = Bn(1);
    return d;
}
// ---- decoding through the engine
inline EVP_PKEY *decode_pkcs8(const Bytes &b) {
    const uint8_t *p = b.data(); PKCS8_PRIV_KEY_INFO *i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long)b.size());
    if (!i) return nullptr; EVP_PKEY *k = EVP_PKCS82PKEY(i); PKCS8_PRIV_KEY_INFO_free(i); return k;
}
inline EVP_PKEY *decode_spki(const Bytes &b) { const uint8_t *p = b.data(); return d2i_PUBKEY(nullptr, &p, (long)b.size()); }
inline EVP_PKEY *decode_priv(const Curve &c, const Bn &d, bool le, const Bytes *sbox = nullptr, bool fc = false) { return decode_pkcs8(pkcs8_der(c, d, le, sbox, fc)); }
inline EVP_PKEY *decode_pub(const Curve &c, const Pt &Q, bool le, const Bytes *sbox = nullptr, bool fc = false) { return decode_spki(spki_der(c, Q, le, sbox, fc)); }
inline Bytes enc_spki(EVP_PKEY *k) { uint8_t *p = nullptr; int n = i2d_PUBKEY(k, &p); Bytes r; if (n > 0) r.assign(p, p + n); OPENSSL_free(p); return r; }
inline Bytes enc_pkcs8(EVP_PKEY *k) {
    PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(k); if (!i) return {};
    uint8_t *p = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO(i, &p); Bytes r; if (n > 0) r.assign(p, p + n); OPENSSL_free(p); PKCS8_PRIV_KEY_INFO_free(i); return r;
}
inline Bytes pkey_sign(EVP_PKEY *k, const Bytes &tbs) {
    PCtx c(EVP_PKEY_CTX_new(k, nullptr)); Bytes s; size_t n = 0;
    if (!c || EVP_PKEY_sign_init(c.get()) != 1 || EVP_PKEY_sign(c.get(), nullptr, &n, tbs.data(), tbs.size()) != 1) return s;
    s.resize(n); if (EVP_PKEY_sign(c.get(), s.data(), &n, tbs.data(), tbs.size()) != 1) return Bytes(); s.resize(n); return s;
}
inline int pkey_verify(EVP_PKEY *k, const Bytes &sg, const Bytes &tbs) {
    PCtx c(EVP_PKEY_CTX_new(k, nullptr));
    if (!c || EVP_PKEY_verify_init(c.get()) != 1) return -99;
    return EVP_PKEY_verify(c.get(), sg.data(), sg.size(), tbs.data(), tbs.size());
}
inline Curve *any_curve(Rng &g, bool fast = false) {
    unsigned r = (unsigned)g.below(100);
    if (r < 45) return named(fast ? (int)g.below(5) : (int)g.below(10));
    if (r < 75) return smalls()[g.below(smalls().size())];
    return customs()[g.below(customs().size())];
}
}  // namespace ref
