// C03: Kuznyechik block encryption against the model.
#include "env.h"
using namespace env;
using ref::U128;
const char *const mc::property = "C03";

namespace {
typedef shared_ptr<const gk::Block> Blk;
Blk raw(U128 v) { return make_shared<gk::BlkRaw>(v.lo, v.hi); }
U128 block_of(int i) {
	if (i == 0) return {0xffeeddccbbaa9988ULL, 0x1122334455667700ULL};
	if (i == 1) return {0, 0};
	if (i == 2) return {~0ULL, ~0ULL};
	return {scramble(uint64_t(i) * 2), scramble(uint64_t(i) * 2 + 1)};
}
void same(mc::Run &r, const char *what, U128 x, U128 got, U128 want) {
	if (got != want) r.fail("%s of %s is %s, standard %s", what, hexnum(x).c_str(), hexnum(got).c_str(), hexnum(want).c_str());
	r.state(mc::mix(mc::mix(want.lo, want.hi), x.lo ^ x.hi));
	r.step(); r.trace();
}
void layers(mc::Run &r, int part, int parts) {
	r.begin("layers S, R, L: every byte position, every value");
	for (int base = 0; base < 6; base++)
		for (int pos = 0; pos < 16; pos++)
			for (int v = part; v < 256; v += parts) {
				U128 x = block_of(base);
				x.set(pos, uint8_t(v));
				same(r, "S", x, ref::u128(gk::BlkS(raw(x)).value()), ref::S(x));
				same(r, "R", x, ref::u128(gk::BlkR(raw(x)).value()), ref::R(x));
				same(r, "L", x, ref::u128(gk::BlkL(raw(x)).value()), ref::fastL(x));
			}
	r.begin("layers S, R, L: every pair of bits");
	for (int i = part; i < 128; i += parts)
		for (int j = 0; j <= i; j++)
			for (int inv = 0; inv < 2; inv++) {
				U128 x{inv ? ~0ULL : 0, inv ? ~0ULL : 0};
				x.set(i / 8, uint8_t(x.byte(i / 8) ^ 1 << i % 8));
				if (i != j) x.set(j / 8, uint8_t(x.byte(j / 8) ^ 1 << j % 8));
				same(r, "S", x, ref::u128(gk::BlkS(raw(x)).value()), ref::S(x));
				same(r, "R", x, ref::u128(gk::BlkR(raw(x)).value()), ref::R(x));
				same(r, "L", x, ref::u128(gk::BlkL(raw(x)).value()), ref::fastL(x));
			}
}
// Two bytes, all 65536 values: the shift register and the substitution
void byte_pairs(mc::Run &r, int p, int q) {
	r.begin("R and S: bytes %d and %d take all 65536 values", p, q);
	const int st = 1;
	for (int a = 0; a < 256; a++)
		for (int b = a % st; b < 256; b += st) {
			U128 x{0, 0};
			x.set(p, uint8_t(a)); x.set(q, uint8_t(b));
			same(r, "R", x, ref::u128(gk::BlkR(raw(x)).value()), ref::R(x));
			same(r, "S", x, ref::u128(gk::BlkS(raw(x)).value()), ref::S(x));
			if (r.thorough()) same(r, "L", x, ref::u128(gk::BlkL(raw(x)).value()), ref::fastL(x));
		}
}
struct Keyed { KKey k; ref::KuzKey m; };
Keyed keyed(const std::pair<U128, U128> &w, int kind) {
	Keyed r;
	r.m = ref::KuzKey(w.first, w.second);
	if (kind == 0) r.k = make_shared<gk::Key>(u128_text(w.first) + u128_text(w.second));
	else if (kind == 1) r.k = make_shared<gk::Key>(make_shared<StubKuzData>(w.first, w.second));
	else r.k = make_shared<gk::Key>(shared_ptr<const gk::Key::Data>(make_shared<gk::KeyDataString>(u128_text(w.first) + u128_text(w.second))));
	return r;
}
void one(mc::Run &r, const Keyed &k, U128 x, bool direct = false) {
	U128 got = ref::u128(direct ? k.k->encrypt(raw(x))->value() : gk::BlkEncrypted(raw(x), k.k).value());
	same(r, "encryption", x, got, k.m.enc(x));
}
void onehot_keys(mc::Run &r, int part, int parts) {
	for (int bit = part; bit < 256; bit += parts)
		for (int inv = 0; inv < 2; inv++) {
			U128 h[2];
			h[0] = h[1] = {inv ? ~0ULL : 0, inv ? ~0ULL : 0};
			U128 &t = h[bit / 128];
			t.set(bit % 128 / 8, uint8_t(t.byte(bit % 128 / 8) ^ 1 << bit % 8));
			r.begin("%s key bit %d", inv ? "one-cold" : "one-hot", bit);
			Keyed k = keyed({h[0], h[1]}, bit % 3);
			for (int b = 0; b < 20; b++) one(r, k, block_of(b), b & 1);
		}
	r.sample("key bits %d, %d+%d, ... set or cleared alone, 20 blocks each", part, part, parts);
}
void key_bytes(mc::Run &r, int part, int parts) {
	for (int pos = part; pos < 32; pos += parts)
		for (int v = 0; v < 256; v++) {
			auto w = kuz_words(4);
			(pos < 16 ? w.first : w.second).set(pos % 16, uint8_t(v));
			r.begin("key 4 with byte %d = %02x", pos, v);
			Keyed k = keyed(w, v % 3);
			one(r, k, block_of(3)); one(r, k, block_of(4), true);
		}
}
void keys(mc::Run &r, int part, int parts) {
	int top = r.thorough() ? 20000 : 1500;
	for (int i = part; i < top; i += parts) {
		r.begin("key %d", i);
		Keyed k = keyed(kuz_words(i), i % 3);
		for (int b = 0; b < 4; b++) one(r, k, block_of(b));
	}
}
void blocks(mc::Run &r, int key, int part, int parts) {
	Keyed k = keyed(kuz_words(key), key % 3);
	r.begin("key %d: every byte position, every value", key);
	for (int pos = part; pos < 16; pos += parts)
		for (int v = 0; v < 256; v++)
			for (int base : {0, 1, 5}) { U128 x = block_of(base); x.set(pos, uint8_t(v)); one(r, k, x); }
	r.begin("key %d: every pair of bits", key);
	for (int i = part; i < 128; i += parts)
		for (int j = 0; j <= i; j++) {
			U128 x{0, 0};
			x.set(i / 8, uint8_t(x.byte(i / 8) | 1 << i % 8));
			x.set(j / 8, uint8_t(x.byte(j / 8) | 1 << j % 8));
			one(r, k, x);
		}
}
// Inner states: every byte position of the state takes every value before the S layer of each round,
// and before the final key addition
void inner(mc::Run &r, int round) {
	Keyed k = keyed(kuz_words(0), 0);
	const uint8_t *pi = ref::pi256();
	uint8_t inv[256];
	for (int i = 0; i < 256; i++) inv[pi[i]] = uint8_t(i);
	// inverse of L by solving: L is linear, iterate R backwards
	auto invR = [](U128 y) {
		// y = l || x15..x1 ; find x0 such that R(x) = y
		U128 x{y.lo << 8, y.hi << 8 | y.lo >> 56};
		U128 z = ref::R(x);  // with x0 = 0
		x.set(0, uint8_t(z.byte(15) ^ y.byte(15)));
		return x;
	};
	auto invL = [&](U128 y) { for (int i = 0; i < 16; i++) y = invR(y); return y; };
	auto invS = [&](U128 y) { for (int i = 0; i < 16; i++) y.set(i, inv[y.byte(i)]); return y; };
	r.begin("round %d: every byte position of the state takes every value", round);
	for (int pos = 0; pos < 16; pos++)
		for (int v = 0; v < 256; v++)
			for (int base = 0; base < 3; base++) {
				U128 x = block_of(base);
				x.set(pos, uint8_t(v));   // state after key addition `round`
				for (int i = round; i >= 0; i--) {
					x = x ^ k.m.k[i];
					if (i) x = invS(invL(x));
				}
				one(r, k, x, base == 1);
			}
}
void alternating(mc::Run &r) {
	const int N = 6;
	std::vector<Keyed> ks;
	for (int i = 0; i < N; i++) ks.push_back(keyed(kuz_words(i), i % 3));
	std::vector<U128> xs;
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) xs.push_back({block_of(i).lo, block_of(j).hi});
	for (int a = 0; a < N; a++)
		for (int b = 0; b < N; b++)
			for (auto x : xs)
				for (auto y : xs) {
					r.begin("keys %d and %d in turn, blocks %s and %s", a, b, hexnum(x).c_str(), hexnum(y).c_str());
					auto A = make_shared<gk::BlkEncrypted>(raw(x), ks[size_t(a)].k);
					auto B = make_shared<gk::BlkEncrypted>(raw(y), ks[size_t(b)].k);
					same(r, "encryption", x, ref::u128(A->value()), ks[size_t(a)].m.enc(x));
					same(r, "encryption", y, ref::u128(B->value()), ks[size_t(b)].m.enc(y));
					same(r, "encryption", x, ref::u128(A->value()), ks[size_t(a)].m.enc(x));
				}
}
void longrun(mc::Run &r, int key) {
	Keyed k = keyed(kuz_words(key), key % 3);
	r.begin("chain of encryptions with one key object, key %d", key);
	U128 x{0, 0};
	uint32_t n = r.thorough() ? 1u << 20 : 150000;
	for (uint32_t i = 0; i < n; i++) {
		one(r, k, x, i & 1);
		x = k.m.enc(x);
	}
}
void nested(mc::Run &r) {
	Keyed a = keyed(kuz_words(0), 0), b = keyed(kuz_words(7), 1);
	for (auto lo : words64()) {
		U128 x{lo, scramble(lo)};
		r.begin("nested, block %s", hexnum(x).c_str());
		Blk s = make_shared<StubBlk128>(x);
		same(r, "double encryption", x, ref::u128(gk::BlkEncrypted(make_shared<gk::BlkEncrypted>(s, a.k), b.k).value()), b.m.enc(a.m.enc(x)));
		same(r, "encryption of a sum", x, ref::u128(gk::BlkEncrypted(make_shared<gk::BlkXored>(s, raw(block_of(3))), a.k).value()), a.m.enc(x ^ block_of(3)));
	}
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier) {
	auto S = [](const char *n, int i) { return std::string(n) + "-" + std::to_string(i); };
	for (int i = 0; i < 4; i++) out.push_back({S("layers", i), [i](Run &r) { layers(r, i, 4); }, 3});
	for (int p = 0; p < 16; p++)
		for (int q = p + 1; q < 16; q++)
			out.push_back({S("pairs", p) + "-" + std::to_string(q), [p, q](Run &r) { byte_pairs(r, p, q); }, 1});
	for (int i = 0; i < 8; i++) out.push_back({S("onehot-keys", i), [i](Run &r) { onehot_keys(r, i, 8); }, 4});
	for (int i = 0; i < 8; i++) out.push_back({S("key-bytes", i), [i](Run &r) { key_bytes(r, i, 8); }, 5});
	for (int i = 0; i < 8; i++) out.push_back({S("keys", i), [i](Run &r) { keys(r, i, 8); }, 4});
	for (int k : {0, 2, 5, 6})
		for (int i = 0; i < 2; i++) out.push_back({S("blocks", k) + "-" + std::to_string(i), [k, i](Run &r) { blocks(r, k, i, 2); }, 4});
	for (int i = 0; i < 10; i++) out.push_back({S("inner", i), [i](Run &r) { inner(r, i); }, 3});
	out.push_back({"alternating", alternating, 4});
	for (int i = 0; i < 3; i++) out.push_back({S("long", i), [i](Run &r) { longrun(r, i); }, 6});
	out.push_back({"nested", nested, 1});
}
