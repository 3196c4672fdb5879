// C03: cipher conformance. Oracle: reference GOST 28147-89 CFB.
#include "refgost.hpp"

static Bytes edge(Rng &g, size_t n) {
    Bytes b = g.bytes(n);
    switch (g.below(8)) {
    case 0: std::fill(b.begin(), b.end(), 0); break;
    case 1: std::fill(b.begin(), b.end(), 0xff); break;
    case 2: for (size_t i = 0; i < n; i++) b[i] = (i % 4 == 3) ? g.pick<uint8_t>({0x7f, 0x80, 0xff, 0}) : g.pick<uint8_t>({0, 0xff}); break;  // carries of the 32-bit additions
    case 3: std::fill(b.begin(), b.end(), 0); if (n) b[g.below(n)] = 1 << g.below(8); break;
    }
    return b;
}
// feeds the key masks with extreme values
static void rng_mode(Rng &g, int &k) {
    auto &t = trand(); t.reset(g.next()); k = (int)g.below(6);
    if (k == 0) t.feed = [](unsigned char *b, int n) { memset(b, 0, n); return true; };
    if (k == 1) t.feed = [](unsigned char *b, int n) { memset(b, 0xff, n); return true; };
    if (k == 2) { static int ph; t.feed = [](unsigned char *b, int n) { for (int i = 0; i < n; i++) b[i] = (i % 4 == 3) ? 0x80 : ((ph++ & 1) ? 0xff : 0); return true; }; }
}
static bool crypt(Rng &g, const Bytes &key, const Bytes &iv, const Bytes *sb, const Bytes &in, bool enc, Bytes &outb, int api) {
    size_t n = in.size(), al = g.below(8);
    bool inplace = g.chance(1, 3);
    std::unique_ptr<uint8_t[]> ib(new uint8_t[al + n]), ob(new uint8_t[al + n + 0]);    // exact blocks: reads and writes outside are visible
    memcpy(ib.get() + al, in.data(), n);
    uint8_t *src = ib.get() + al, *dst = inplace ? src : ob.get() + al;
    CCtx c(EVP_CIPHER_CTX_new()); int l = -1, f = -1, ok;
    Bytes k = key, v = iv, t;
    if (api == 0) ok = EVP_CipherInit_ex(c.get(), eng().cipher, eng().e, k.data(), v.data(), enc);
    else if (api == 1) ok = enc ? EVP_EncryptInit_ex(c.get(), eng().cipher, eng().e, k.data(), v.data()) : EVP_DecryptInit_ex(c.get(), eng().cipher, eng().e, k.data(), v.data());
    else ok = EVP_CipherInit(c.get(), eng().cipher, k.data(), v.data(), enc);
    if (ok == 1 && sb) { t = *sb; ok = EVP_CIPHER_CTX_ctrl(c.get(), H_SET_SBOX, 64, t.data()); }
    std::fill(k.begin(), k.end(), 0); std::fill(v.begin(), v.end(), 0); std::fill(t.begin(), t.end(), 0);
    if (ok != 1) return false;
    if (api == 1) ok = enc ? EVP_EncryptUpdate(c.get(), dst, &l, src, (int)n) : EVP_DecryptUpdate(c.get(), dst, &l, src, (int)n);
    else ok = EVP_CipherUpdate(c.get(), dst, &l, src, (int)n);
    if (ok != 1) return false;
    uint8_t tail[32]; memset(tail, 0x77, 32);
    ok = EVP_CipherFinal_ex(c.get(), tail, &f);
    CHECK(l == (int)n && f == 0 && tail[0] == 0x77, "C03/length", "update reported %d and final %d bytes for %zu", l, f, n);
    if (!inplace) CHECK(!memcmp(src, in.data(), n), "C03/input-changed", "input buffer modified");
    outb.assign(dst, dst + n);
    return ok == 1;
}
static void one(long i, Rng &g) {
    Bytes key = edge(g, 32), iv = edge(g, 8); bool custom = g.chance(1, 2);
    Bytes sb = custom ? ref::random_sbox(g) : ref::default_sbox();
    size_t n;
    switch (g.below(6)) { case 0: n = g.range(0, 20); break; case 1: n = 8 * g.range(1, 40) + g.pick<size_t>({0, 0, 1, 7}); break;
        case 2: n = g.pick<size_t>({1, 7, 8, 9, 15, 16, 17, 1023, 1024, 1025, 4096, 8192, 16384, 65536, 65537}); break; default: n = g.range(0, 2000); }
    Bytes m = edge(g, n); int rk, api = (int)g.below(3);
    rng_mode(g, rk);
    desc(fmt("key=%s iv=%s sbox=%s len=%zu masks=%d api=%d msg=", hex(key).c_str(), hex(iv).c_str(), custom ? hex(sb).c_str() : "default", n, rk, api) + shorthex(m, 200));
    Bytes ct, pt, want = ref::cfb(sb, key, iv, m, true);
    if (!crypt(g, key, iv, custom ? &sb : nullptr, m, true, ct, api)) { viol("C03/fails", "encryption failed"); return; }
    CHECK(ct == want, "C03/encrypt", "got %s want %s", shorthex(ct).c_str(), shorthex(want).c_str());
    if (!crypt(g, key, iv, custom ? &sb : nullptr, want, false, pt, (int)g.below(3))) { viol("C03/fails", "decryption failed"); return; }
    CHECK(pt == m, "C03/decrypt", "got %s", shorthex(pt).c_str());
    // arbitrary ciphertext decrypts as the mode says
    if (g.chance(1, 4) && n) { Bytes c2 = g.bytes(n), p2; if (crypt(g, key, iv, custom ? &sb : nullptr, c2, false, p2, 0)) CHECK(p2 == ref::cfb(sb, key, iv, c2, false), "C03/decrypt", "random ciphertext"); else viol("C03/fails", "decryption failed"); }
    sig(fmt("%zu/%d/%d/%d/", n < 300 ? n : 300 + n % 8, custom, rk, api) + hex(key.data(), 2)); stat("compared_bytes", (long)n * 2);
    if (i < 3) sample(run().cur);
}
static void big(long i, Rng &g) {
    size_t n = run().mode == "huge" ? (run().worker == 0 ? (128u << 20) + 11 : run().worker == 1 ? (16u << 20) + 9 : run().worker == 2 ? (64u << 20) + 1 : (32u << 20)) << (run().thorough ? 2 : 0) : g.pick<size_t>({1 << 20, (1 << 20) + 3, 3 << 20, (5 << 20) + 7}); Bytes key = g.bytes(32), iv = g.bytes(8), m = g.bytes(n), o;
    trand().reset(1); desc(fmt("one update of %zu bytes", n));
    if (!crypt(g, key, iv, nullptr, m, true, o, 0)) { viol("C03/fails", "encryption failed"); return; }
    CHECK(o == ref::cfb(ref::default_sbox(), key, iv, m, true), "C03/encrypt", "large message");
    Bytes p; if (!crypt(g, key, iv, nullptr, o, false, p, 1)) { viol("C03/fails", "decryption failed"); return; }
    CHECK(p == m, "C03/decrypt", "large message"); sig(fmt("big%zu", n)); stat("big_messages");
}
int main(int argc, char **argv) {
    parse_args(argc, argv); ref::self_test(); init_engine(); install_test_rand();
    // advertised geometry the callers size their buffers with
    desc("cipher geometry"); run().curcase = 900000;
    CHECK(EVP_CIPHER_get_key_length(eng().cipher) == 32 && EVP_CIPHER_get_iv_length(eng().cipher) == 8 && EVP_CIPHER_get_block_size(eng().cipher) == 1, "C03/geometry", "key/iv/block sizes");
    if (run().mode == "big" || run().mode == "huge") for_cases(big); else for_cases(one);
    done_engine(); return finish_run();
}
