// Reference model, written from the standards (GOST R 34.12-2015, GOST R 34.13-2015,
// GOST 28147-89) and sharing no code with /repo. Blocks are numbers; a block's bytes in a
// message are little-endian, as everywhere in goost.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace ref {
typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- Magma / GOST 28147-89
// Round function of a key: g(value, subkey number 0..7)
typedef std::function<uint32_t(uint32_t, int)> Round;

// Number of the subkey used in round r (0..31) of encryption
inline int subkey(int r) { return r < 24 ? r % 8 : 31 - r; }

template <class G> inline uint64_t magma_enc(const G &g, uint64_t x) {
	uint32_t a1 = uint32_t(x >> 32), a0 = uint32_t(x);
	for (int r = 0; r < 31; r++) { uint32_t t = a1 ^ g(a0, subkey(r)); a1 = a0; a0 = t; }
	return uint64_t(a1 ^ g(a0, subkey(31))) << 32 | a0;
}
template <class G> inline uint64_t magma_dec(const G &g, uint64_t x) {
	uint32_t a1 = uint32_t(x >> 32), a0 = uint32_t(x);
	for (int r = 31; r > 0; r--) { uint32_t t = a1 ^ g(a0, subkey(r)); a1 = a0; a0 = t; }
	return uint64_t(a1 ^ g(a0, subkey(0))) << 32 | a0;
}
// The 16-round transformation of the GOST 28147-89 MAC, no final exchange
template <class G> inline uint64_t magma_16(const G &g, uint64_t x) {
	uint32_t a1 = uint32_t(x >> 32), a0 = uint32_t(x);
	for (int r = 0; r < 16; r++) { uint32_t t = a1 ^ g(a0, r % 8); a1 = a0; a0 = t; }
	return uint64_t(a1) << 32 | a0;
}

// Substitution table: row i serves nibble i, counted from the low end
struct Table { uint8_t pi[8][16]; };

inline const Table &table_r3412() {
	static const Table t = {{
		{12, 4, 6, 2, 10, 5, 11, 9, 14, 8, 13, 7, 0, 3, 15, 1},
		{6, 8, 2, 3, 9, 10, 5, 12, 1, 14, 4, 7, 11, 13, 0, 15},
		{11, 3, 5, 8, 2, 15, 10, 13, 14, 1, 7, 4, 12, 9, 6, 0},
		{12, 8, 2, 1, 13, 4, 15, 6, 7, 0, 10, 5, 3, 14, 9, 11},
		{7, 15, 5, 10, 8, 1, 6, 13, 0, 9, 3, 14, 11, 4, 2, 12},
		{5, 13, 15, 6, 9, 2, 12, 10, 11, 7, 8, 1, 4, 3, 14, 0},
		{8, 14, 2, 5, 6, 9, 1, 12, 15, 4, 11, 0, 13, 10, 3, 7},
		{1, 7, 14, 13, 0, 5, 8, 3, 4, 15, 10, 6, 9, 12, 11, 2}}};
	return t;
}
// The packed form: 16 groups of four bytes, byte b of group v holds pi[2b+1](v), pi[2b](v)
inline Table unpack(const uint8_t *p) {
	Table t;
	for (int v = 0; v < 16; v++)
		for (int b = 0; b < 4; b++) { t.pi[2 * b + 1][v] = p[v * 4 + b] >> 4; t.pi[2 * b][v] = p[v * 4 + b] & 15; }
	return t;
}
inline Bytes pack(const Table &t) {
	Bytes p(64);
	for (size_t v = 0; v < 16; v++)
		for (size_t b = 0; b < 4; b++) p[v * 4 + b] = uint8_t(t.pi[2 * b + 1][v] * 16 + t.pi[2 * b][v]);
	return p;
}
// The table of the GOST 28147-89 examples used by goost's own tests
inline const Table &table_gost89() {
	static const uint8_t p[64] = {
		0xc4, 0xed, 0x83, 0xc9, 0x92, 0x98, 0xfe, 0x6b, 0xff, 0xbe, 0x65, 0x5c, 0xe5, 0x2c, 0xb9, 0x20,
		0x89, 0x57, 0x16, 0xb3, 0x11, 0xf3, 0x98, 0x06, 0x30, 0x79, 0xc0, 0x97, 0xa8, 0x1a, 0x5d, 0xd5,
		0x2e, 0x01, 0xda, 0x34, 0x73, 0xd5, 0x3b, 0xe8, 0x4b, 0xc2, 0x77, 0x7e, 0xdc, 0x64, 0xac, 0xaf,
		0x6d, 0xa6, 0x02, 0xf1, 0x07, 0x4f, 0xe1, 0x4a, 0xba, 0x30, 0x2f, 0x12, 0x56, 0x8b, 0x44, 0x8d};
	static const Table t = unpack(p);
	return t;
}
inline uint32_t substitute(const Table &t, uint32_t v) {
	uint32_t r = 0;
	for (int i = 7; i >= 0; i--) r = r << 4 | t.pi[i][v >> (4 * i) & 15];
	return r;
}
inline uint32_t rotl11(uint32_t v) { return uint32_t((uint64_t(v) << 11 | uint64_t(v) << 11 >> 32)); }

struct MagmaKey {
	uint32_t k[8];
	uint32_t s[4][256];  // substituted and rotated, per byte
	MagmaKey() {}
	MagmaKey(const uint32_t *key, const Table &t) {
		for (int i = 0; i < 8; i++) k[i] = key[i];
		for (int b = 0; b < 4; b++)
			for (uint32_t v = 0; v < 256; v++) {
				uint32_t x = uint32_t(t.pi[2 * b + 1][v >> 4]) << 4 | t.pi[2 * b][v & 15];
				s[b][v] = rotl11(x << (8 * b));
			}
	}
	uint32_t operator()(uint32_t a, int i) const {
		uint32_t v = a + k[i];
		return s[0][v & 255] | s[1][v >> 8 & 255] | s[2][v >> 16 & 255] | s[3][v >> 24];
	}
	uint64_t enc(uint64_t x) const { return magma_enc(*this, x); }
	uint64_t dec(uint64_t x) const { return magma_dec(*this, x); }
	uint64_t mac16(uint64_t x) const { return magma_16(*this, x); }
};

typedef std::function<uint64_t(uint64_t)> Cipher64;
inline uint64_t load64(const uint8_t *p, size_t n = 8) {
	uint64_t v = 0;
	for (size_t i = 0; i < n && i < 8; i++) v += uint64_t(p[i]) << (8 * i);
	return v;
}
inline void store64(uint8_t *p, uint64_t v) { for (int i = 0; i < 8; i++) p[i] = uint8_t(v >> (8 * i)); }

// CFB with a register of `regs` blocks (1: GOST 28147-89, 2: GOST R 34.13 as goost configures it)
inline Bytes cfb(const Cipher64 &E, std::vector<uint64_t> reg, const Bytes &in, bool decrypt) {
	Bytes out;
	out.reserve(in.size());
	for (size_t at = 0; at < in.size(); at += 8) {
		uint64_t gamma = E(reg[0]);
		uint8_t c[8] = {0};
		size_t n = in.size() - at < 8 ? in.size() - at : 8;
		for (size_t i = 0; i < n; i++) {
			uint8_t o = uint8_t(in[at + i] ^ uint8_t(gamma >> (8 * i)));
			out.push_back(o);
			c[i] = decrypt ? in[at + i] : o;
		}
		for (size_t i = 0; i + 1 < reg.size(); i++) reg[i] = reg[i + 1];
		reg.back() = load64(c);
	}
	return out;
}
inline Bytes ecb(const Cipher64 &E, const Bytes &in) {
	Bytes out(in.size());
	for (size_t at = 0; at + 8 <= in.size(); at += 8) store64(&out[at], E(load64(&in[at])));
	return out;
}
inline uint64_t dbl64(uint64_t v) { return v << 1 ^ (v >> 63 ? 0x1bULL : 0); }
inline uint64_t mac64(const Cipher64 &E, const Bytes &m) {
	uint64_t k1 = dbl64(E(0)), k2 = dbl64(k1), c = 0;
	size_t blocks = m.empty() ? 1 : (m.size() + 7) / 8;
	for (size_t b = 0; b + 1 < blocks; b++) c = E(c ^ load64(&m[b * 8]));
	size_t rest = m.size() - (blocks - 1) * 8;
	uint8_t p[8] = {0};
	for (size_t i = 0; i < rest; i++) p[i] = m[(blocks - 1) * 8 + i];
	if (rest == 8) return E(c ^ load64(p) ^ k1);
	p[rest] = 0x80;
	return E(c ^ load64(p) ^ k2);
}
// GOST 28147-89 imitation insert, all eight bytes
inline uint64_t imit89(const Cipher64 &E16, const Bytes &m) {
	size_t blocks = (m.size() + 7) / 8;
	if (blocks < 2) blocks = 2;
	uint64_t s = 0;
	for (size_t b = 0; b < blocks; b++) {
		uint64_t x = 0;
		for (size_t i = 0; i < 8; i++)
			if (b * 8 + i < m.size()) x |= uint64_t(m[b * 8 + i]) << (8 * i);
		s = E16(s ^ x);
	}
	return s;
}

// ---------------------------------------------------------------- Kuznyechik
struct U128 {
	uint64_t lo, hi;
	bool operator==(const U128 &o) const { return lo == o.lo && hi == o.hi; }
	bool operator!=(const U128 &o) const { return !(*this == o); }
	U128 operator^(const U128 &o) const { return {lo ^ o.lo, hi ^ o.hi}; }
	uint8_t byte(int i) const { return uint8_t(i < 8 ? lo >> (8 * i) : hi >> (8 * (i - 8))); }
	void set(int i, uint8_t v) {
		uint64_t &w = i < 8 ? lo : hi;
		int s = 8 * (i & 7);
		w = (w & ~(0xffULL << s)) | uint64_t(v) << s;
	}
	std::pair<uint64_t, uint64_t> pair() const { return {lo, hi}; }
};
inline U128 u128(const std::pair<uint64_t, uint64_t> &p) { return {p.first, p.second}; }

inline const uint8_t *pi256() {
	static const char *const h =
		"fceedd11cf6e3116fbc4fada23c5044de977f0db932e99ba1736f1bb14cd5fc1f918655ae25cef21811c3c428b018e4f"
		"058402aee36a8fa0060bed987fd4d31feb342c51eac848abf22a68a2fd3aceccb5700e56080c7612bf7213479cb75d87"
		"15a19629107b9ac7f391786f9d9eb2b13275193dff358a7e6d54c680c3bd0d57dff524a93ea843c9d779d6f67c22b903"
		"e00fecde7a94b0bcdce828504e330a4aa79760731e0062441ab83882649f2641ad454692275e552f8ca3a57d69d5953b"
		"0758b34086ac1df730376be488d9e789e11b83494c3ff8fe8d53aa90cad885612071 67a42d2b095bcb9b25d0bee56c52"
		"59a674d2e6f4b4c0d166afc2394b63b6";
	static uint8_t t[256];
	static bool done = false;
	if (!done) {
		int n = 0, v = 0;
		for (const char *p = h; *p; p++) {
			if (*p == ' ') continue;
			int d = *p <= '9' ? *p - '0' : *p - 'a' + 10;
			v = v * 16 + d;
			if (n++ & 1) { t[n / 2 - 1] = uint8_t(v); v = 0; }
		}
		done = true;
	}
	return t;
}
// Product in GF(2)[x] modulo x^8+x^7+x^6+x+1
inline uint8_t gf(uint8_t a, uint8_t b) {
	uint32_t p = 0;
	for (int i = 0; i < 8; i++) if (b >> i & 1) p ^= uint32_t(a) << i;
	for (int i = 14; i >= 8; i--) if (p >> i & 1) p ^= 0x1c3u << (i - 8);
	return uint8_t(p);
}
inline U128 S(U128 x) { U128 r{0, 0}; for (int i = 0; i < 16; i++) r.set(i, pi256()[x.byte(i)]); return r; }
inline U128 R(U128 x) {
	// coefficients of a15, a14, ..., a0
	static const uint8_t c[16] = {148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1};
	uint8_t l = 0;
	for (int i = 0; i < 16; i++) l = uint8_t(l ^ gf(c[i], x.byte(15 - i)));
	return {x.lo >> 8 | x.hi << 56, x.hi >> 8 | uint64_t(l) << 56};
}
inline U128 L(U128 x) { for (int i = 0; i < 16; i++) x = R(x); return x; }
struct LTable {
	U128 t[16][256];
	LTable() {
		for (int i = 0; i < 16; i++)
			for (int v = 0; v < 256; v++) { U128 x{0, 0}; x.set(i, uint8_t(v)); t[i][v] = L(x); }
	}
};
inline U128 fastL(const U128 &x) {
	static const LTable t;
	U128 r{0, 0};
	for (int i = 0; i < 16; i++) r = r ^ t.t[i][x.byte(i)];
	return r;
}
struct KuzKey {
	U128 k[10];
	// hi: K1 (first half of the key text), lo: K2
	KuzKey() {}
	KuzKey(U128 hi, U128 lo) {
		U128 a = hi, b = lo;
		k[0] = a; k[1] = b;
		for (int i = 0; i < 32; i++) {
			U128 c{uint64_t(i + 1), 0};
			U128 t = fastL(S(a ^ fastL(c))) ^ b;
			b = a; a = t;
			if (i % 8 == 7) { k[2 + i / 8 * 2] = a; k[3 + i / 8 * 2] = b; }
		}
	}
	U128 enc(U128 x) const {
		for (int i = 0; i < 9; i++) x = fastL(S(x ^ k[i]));
		return x ^ k[9];
	}
};
typedef std::function<U128(U128)> Cipher128;
inline U128 inc(U128 x) { U128 r{x.lo + 1, x.hi}; if (r.lo == 0) r.hi++; return r; }
inline U128 add(U128 x, uint64_t n) { U128 r{x.lo + n, x.hi}; if (r.lo < n) r.hi++; return r; }
inline U128 shl(U128 x, int n) {
	for (int i = 0; i < n; i++) x = {x.lo << 1, x.hi << 1 | x.lo >> 63};
	return x;
}
inline U128 dbl128(U128 x) { U128 r = shl(x, 1); if (x.hi >> 63) r.lo ^= 0x87; return r; }
// Blocks, of which the last has `last` valid bytes (0..16); at least one block
inline U128 mac128(const Cipher128 &E, const std::vector<U128> &m, size_t last) {
	U128 k1 = dbl128(E({0, 0})), k2 = dbl128(k1), c{0, 0};
	for (size_t b = 0; b + 1 < m.size(); b++) c = E(c ^ m[b]);
	if (last == 16) return E(c ^ m.back() ^ k1);
	U128 p{0, 0};
	for (size_t i = 0; i < last; i++) p.set(int(i), m.back().byte(int(i)));
	p.set(int(last), 0x80);
	return E(c ^ p ^ k2);
}
inline U128 ctr_block(const Cipher128 &E, uint64_t iv, uint64_t i, U128 x) { return x ^ E(add({0, iv}, i)); }

// Compares the model with the examples printed in the standards. Returns what differs.
std::string self_test();
}  // namespace ref
