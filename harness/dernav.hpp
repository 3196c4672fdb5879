// Minimal DER navigation for judging what the library wrote.
#pragma once
#include "common.hpp"
inline bool tlv(const Bytes &b, size_t &p, int &tag, Bytes &v) { if (p + 2 > b.size()) return false; tag = b[p++]; size_t n = b[p++]; if (n & 0x80) { int k = n & 0x7f; n = 0; while (k--) { if (p >= b.size()) return false; n = n << 8 | b[p++]; } } if (p + n > b.size()) return false; v.assign(b.begin() + p, b.begin() + p + n); p += n; return true; }
inline std::vector<Bytes> kids(const Bytes &b) { std::vector<Bytes> r; size_t p = 0; int t; Bytes v; while (p < b.size()) { size_t s = p; if (!tlv(b, p, t, v)) break; r.emplace_back(b.begin() + s, b.begin() + p); } return r; }
inline Bytes val(const Bytes &b) { size_t p = 0; int t; Bytes v; tlv(b, p, t, v); return v; }
