// C10: point compression. Oracle: independent compression/expansion (refec.hpp); the accepted point is read back from the printed key.
#include "keyview.hpp"

static bool has_encoding(const ref::Curve &c, const ref::Pt &P) { return P.x.zero() || !ref::Bn::be(ref::compress(c, P)).zero(); }
static PKey decode_string(const ref::Curve &c, bool le, const Bytes &be_string) {
    Bytes k = ref::octet(ref::ord(be_string, le)); k.insert(k.begin(), 0);
    return PKey(ref::decode_spki(ref::seq({ref::algid(c, le, nullptr), ref::der(3, k)})));
}
// one compressed string offered as public key
static void offer(const ref::Curve &c, bool le, const Bytes &s, const char *kind) {
    desc(fmt("curve=%s %s %s string=%s", c.name.c_str(), le ? "le" : "be", kind, hex(s).c_str()));
    PKey k = decode_string(c, le, s); stat("strings");
    bool canonical = s.size() == c.fs() && ref::Bn::be(s).bits() <= c.m; ref::Pt W; bool enc = canonical && ref::expand(c, s, W);
    if (canonical && enc != (bool)k) { viol(enc ? std::string("C10/point-refused:") + kind : std::string("C10/non-point-accepted:") + kind, enc ? "a valid compressed point was refused" : "a string that encodes no point was accepted"); return; }
    if (ref::Bn::be(s).bits() > c.m) { stat("oversized"); if (k) { viol(std::string("C10/non-point-accepted:") + kind, "a string whose value is no field element was accepted"); return; } }
    if (!k) { stat("refused"); return; }
    stat("accepted"); ref::Pt P; std::string txt;
    if (!printed_point(k.get(), c, P, &txt)) { viol(std::string("C10/unreadable:") + kind, "the accepted point cannot be printed"); return; }
    CHECK(ref::on_curve(c, P), std::string("C10/off-curve:") + kind, "accepted point (%s,%s) is not a point of the curve", P.x.str().c_str(), P.y.str().c_str());
    if (canonical) CHECK(P == W, std::string("C10/wrong-point:") + kind, "expanded to (%s,%s), expected (%s,%s)", P.x.str().c_str(), P.y.str().c_str(), W.x.str().c_str(), W.y.str().c_str());
    Bytes e = ref::enc_spki(k.get()); Bytes back = e.size() >= c.fs() ? ref::ord(Bytes(e.end() - c.fs(), e.end()), le) : Bytes();
    if (has_encoding(c, P)) CHECK(back == ref::compress(c, P), std::string("C10/recompress:") + kind, "compressing again gives %s, expected %s", hex(back).c_str(), hex(ref::compress(c, P)).c_str());
    if (canonical && back != s && has_encoding(c, P)) viol(std::string("C10/not-bijective:") + kind, "another string for the same point");
    sig(fmt("%s%s%d%s", c.name.c_str(), kind, (bool)k, hex(s.data(), std::min<size_t>(2, s.size())).c_str()));
}
static void one(long ci, Rng &g) {
    ref::Curve *c = ref::any_curve(g); bool le = g.chance(1, 2); trand().reset(g.next()); size_t f = c->fs(); uint8_t topmask = c->m % 8 ? (uint8_t)((1 << (c->m % 8)) - 1) : 0xff;
    // points of the group through private keys
    ref::Bn d = ref::rand_scalar(g, c->n); ref::Pt Q = ref::pub_of(*c, d); desc(fmt("curve=%s %s d=%s", c->name.c_str(), le ? "le" : "be", d.str().c_str()));
    PKey k(ref::decode_priv(*c, d, le)); if (!k) { viol("C10/keyload", "private key refused"); return; }
    if (has_encoding(*c, Q)) {
        Bytes e = ref::enc_spki(k.get()), w = ref::compress(*c, Q); Bytes got = e.size() >= f ? ref::ord(Bytes(e.end() - f, e.end()), le) : Bytes();
        CHECK(got == w, "C10/compress", "compressed to %s, expected %s", hex(got).c_str(), hex(w).c_str()); stat("compressed"); offer(*c, le, w, "point");
        Bytes n = w; n[f - 1] ^= 1; offer(*c, le, n, "other-root");
        Bytes b = w; b[g.below(f)] ^= 1 << g.below(8); offer(*c, le, b, "bitflip");
        if (c->m % 8) { Bytes h = w; h[0] |= (uint8_t)(~topmask & (g.byte() | 1 << (c->m % 8))); offer(*c, le, h, "high-bits"); }
        Bytes lg = w; lg.insert(lg.begin(), g.chance(1, 2) ? 0 : g.byte()); offer(*c, le, lg, "longer"); { Bytes t = w; size_t n = g.range(1, 9); for (size_t i = 0; i < n; i++) t.insert(g.chance(1, 2) ? t.begin() : t.end(), g.byte()); offer(*c, le, t, "extended"); } Bytes sh(w.begin() + 1, w.end()); offer(*c, le, sh, "shorter");
    }
    for (int i = 0; i < 4; i++) { Bytes s = g.bytes(f); s[0] &= topmask; offer(*c, le, s, "random"); }
    offer(*c, le, Bytes(f, 0), "zero"); { Bytes s(f, 0); s[f - 1] = 1; offer(*c, le, s, "one"); s[f - 1] = (uint8_t)(2 + g.below(14)); offer(*c, le, s, "tiny"); } { Bytes s(f, 0xff); s[0] &= topmask; offer(*c, le, s, "ones"); }
    offer(*c, le, {}, "empty"); offer(*c, le, Bytes(1, 0), "one-byte");
    // base point of explicit parameters
    { Bytes bp = g.chance(1, 2) ? ref::compress(*c, c->G) : g.bytes(f); bp[0] &= g.chance(3, 4) ? topmask : 0xff; Bytes spec = ref::custom_spec(*c, le); Bytes w = ref::octet(ref::ord(ref::compress(*c, c->G), le)), nw = ref::octet(ref::ord(bp, le));
      Bytes body(spec.begin() + (spec.size() > 129 + 2 ? (spec[1] == 0x81 ? 3 : spec[1] == 0x82 ? 4 : 2) : 2), spec.end()); body.resize(body.size() - w.size()); body.insert(body.end(), nw.begin(), nw.end()); Bytes par = ref::seq({ref::der(0x30, body)});
      desc(fmt("curve=%s %s base point %s", c->name.c_str(), le ? "le" : "be", hex(bp).c_str())); const uint8_t *q = par.data(); PKey r(d2i_KeyParams(le ? NID_dstu4145le : NID_dstu4145be, nullptr, &q, (long)par.size()));
      ref::Pt G; bool canon = ref::Bn::be(bp).bits() <= c->m, ok = canon && ref::expand(*c, bp, G); if (!ok && r) viol("C10/non-point-accepted:base", "a base point that is no point was accepted");
      if (ok && !r) viol("C10/point-refused:base", "a valid base point was refused");
      if (ok && r && has_encoding(*c, G)) { Bytes e = key_params(r.get()); ref::Curve t; Bytes want; if (!(c->nid && G == c->G)) { CHECK(e == par, "C10/base-changed", "explicit parameters came back as %s", shorthex(e, 300).c_str()); } stat("base_points"); }
      if (!ok) stat("bad_base_points"); }
    if (ci < 3) sample(run().cur);
}
// every string and every group element of a tiny curve
static void exhaustive(long ci, Rng &g) {
    ref::Curve *c = ref::smalls()[ci % ref::smalls().size()]; bool le = (ci / ref::smalls().size()) & 1; trand().reset(g.next()); unsigned n = (unsigned)BN_get_word((const BIGNUM *)c->n); unsigned step = c->m > 11 ? (run().thorough ? 3 : 13) : 1;
    for (unsigned d = 1; d < n; d += step) { ref::Bn D(d); ref::Pt Q = ref::pub_of(*c, D); if (!has_encoding(*c, Q)) { stat("no_encoding"); continue; } desc(fmt("%s d=%u", c->name.c_str(), d)); PKey k(ref::decode_priv(*c, D, le)); Bytes e = k ? ref::enc_spki(k.get()) : Bytes(), w = ref::spki_der(*c, Q, le, nullptr); if (e != w) { viol("C10/compress", "wrong compressed point"); return; } stat("compressed"); }
    unsigned lim = 1u << (8 * c->fs()); for (unsigned v = 0; v < lim; v += 1 + (step > 1 ? g.below(2 * step) : 0) + (v >= (1u << c->m) ? g.below(30) : 0)) offer(*c, le, ref::Bn(v).bytes(c->fs()), "all");
    stat("exhausted_curves"); sig(fmt("ex%ld", ci));
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand(); ref::init_curves();
    if (run().mode == "exhaustive") for_cases(exhaustive); else for_cases(one); ref::free_curves(); done_engine(); return finish_run();
}
