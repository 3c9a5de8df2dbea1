// C11 (Kuznyechik MAC), C13 (CTR) and C14 (memory streams) against the model.
#include "env.h"
#include <unistd.h>
using namespace env;
using ref::U128;
#define CAT_(a, b) a #b
#define CAT(a, b) CAT_(a, b)
const char *const mc::property = CAT("C", PROP);

namespace {
typedef std::vector<U128> Blocks;
typedef shared_ptr<const gk::Stream> St;
typedef shared_ptr<const gk::Iterator> It;
std::vector<uint64_t> words(size_t n, uint64_t which) {
	Bytes b = message(n * 8, which);
	std::vector<uint64_t> w(n);
	for (size_t i = 0; i < n; i++) w[i] = ref::load64(&b[i * 8]);
	return w;
}
// A stream as the model sees it
struct Seq { Blocks b; size_t last; };
Seq seq(const std::vector<uint64_t> &w) {
	Seq s;
	for (size_t i = 0; i < w.size(); i += 2) s.b.push_back({w[i], i + 1 < w.size() ? w[i + 1] : 0});
	if (w.empty()) s.b.push_back({0, 0});
	s.last = w.empty() ? 0 : w.size() % 2 ? 8 : 16;
	return s;
}
Seq blocks(size_t n, size_t last, uint64_t which) {
	Seq s{Blocks(n), last};
	Bytes m = message(n * 16, which);
	for (size_t i = 0; i < n; i++) s.b[i] = {ref::load64(&m[i * 16]), ref::load64(&m[i * 16 + 8])};
	return s;
}
St memory(const std::vector<uint64_t> &w) { return make_shared<gk::StMemory>(w); }
St stub(const Seq &s) { return make_shared<StubStream>(s.b, s.last); }
struct Keyed { KKey k; ref::KuzKey m; int n; };
Keyed keyed(int i) { return {kuz_key(kuz_words(i)), ref_kuz(kuz_words(i)), i}; }
Seq ctr(const Keyed &k, uint64_t iv, const Seq &s) {
	Seq r = s;
	for (size_t i = 0; i < s.b.size(); i++) r.b[i] = ref::ctr_block([&](U128 x) { return k.m.enc(x); }, iv, i, s.b[i]);
	return r;
}
uint64_t hash(const Seq &s) { return mc::hash_bytes(s.b.data(), s.b.size() * sizeof(U128), s.last); }
// Visits the stream and compares everything it says with the model
void visit(mc::Run &r, const char *what, const It &start, const Seq &want, int style) {
	It it = start;
	for (size_t i = 0; i < want.b.size(); i++) {
		bool l = i + 1 == want.b.size();
		if (!it) r.fail("%s: the iterator is empty at block %zu of %zu", what, i, want.b.size());
		It nx;
		if (style == 1) nx = it->next();    // moving on first must not matter
		if (it->last() != l) r.fail("%s: block %zu of %zu: last() is %d", what, i, want.b.size(), int(it->last()));
		if (it->size() != (l ? want.last : 16)) r.fail("%s: block %zu of %zu declares %zu bytes", what, i, want.b.size(), it->size());
		U128 v = ref::u128(it->value());
		if (v != want.b[i]) r.fail("%s: block %zu of %zu is %s, expected %s", what, i, want.b.size(), hexnum(v).c_str(), hexnum(want.b[i]).c_str());
		if (style == 2 && (ref::u128(it->value()) != v || it->last() != l)) r.fail("%s: block %zu of %zu differs on a second look", what, i, want.b.size());
		r.step(4);
		if (l && it->next()) r.fail("%s: there is a next block after the last one (%zu)", what, i);
		if (!l) it = style == 1 ? nx : it->next();
	}
	r.trace();
	r.state(hash(want));
}
#if PROP == 11
void mac(mc::Run &r, const char *what, const Keyed &k, const St &st, const Seq &s) {
	U128 want = ref::mac128([&](U128 x) { return k.m.enc(x); }, s.b, s.last);
	gk::Imit im(st, k.k);
	for (int again = 0; again < (s.b.size() > 64 ? 1 : 2); again++) {
		U128 got = ref::u128(im.value());
		if (got != want) r.fail("%s, key %d: MAC of %zu blocks (%zu bytes in the last, %s) is %s, standard %s%s", what, k.n, s.b.size(), s.last, hexnum(s.b.back()).c_str(), hexnum(got).c_str(), hexnum(want).c_str(), again ? " (second evaluation)" : "");
	}
	r.step(); r.trace(); r.state(mc::mix(mc::mix(want.lo, want.hi), hash(s)));
}
int mac_key(int i) { return i < 4 ? kuz_mac_keys()[size_t(i)] : i - 4; }
void lengths(mc::Run &r, int kk) {
	auto k = keyed(mac_key(kk));
	for (size_t n = 0; n <= (r.thorough() ? 300u : 70u); n++)
		for (uint64_t w : {1, 0, 2}) {
			r.begin("key %d, memory stream of %zu words, pattern %d", k.n, n, int(w));
			mac(r, "memory stream", k, memory(words(n, w)), seq(words(n, w)));
		}
	for (size_t n = 1; n <= (r.thorough() ? 12u : 4u); n++)
		for (size_t last = 0; last <= 16; last++)
			for (uint64_t w : {1, 0, 2, 5}) {
				Seq s = blocks(n, last, w);
				r.begin("key %d, %zu blocks, %zu bytes in the last, pattern %d", k.n, n, last, int(w));
				mac(r, "stream", k, stub(s), s);
				// whatever lies beyond the declared bytes
				Seq g = s;
				for (size_t i = last; i < 16; i++) g.b.back().set(int(i), uint8_t(~g.b.back().byte(int(i))));
				mac(r, "stream with garbage", k, stub(g), s);
				for (size_t i = last; i < 16; i++) {
					g = s;
					g.b.back().set(int(i), uint8_t(g.b.back().byte(int(i)) ^ 0x80));
					mac(r, "stream with garbage", k, stub(g), s);
				}
				// over a CTR stream: the MAC of the ciphertext bytes
				auto ck = keyed(5);
				Seq c = ctr(ck, 0x1234567890abcef0ULL, s);
				mac(r, "CTR stream", k, make_shared<gk::StCTREncrypted>(stub(s), ck.k, 0x1234567890abcef0ULL), c);
				c = ctr(k, 7, s);
				mac(r, "CTR stream with the MAC's key", k, make_shared<gk::StCTREncrypted>(stub(s), k.k, 7), c);
			}
	for (size_t n = 0; n <= 9; n++) {
		auto ck = keyed(6);
		r.begin("key %d, CTR over a memory stream of %zu words", k.n, n);
		mac(r, "CTR over memory", k, make_shared<gk::StCTREncrypted>(memory(words(n, 1)), ck.k, 3), ctr(ck, 3, seq(words(n, 1))));
	}
	r.sample("key %d (K1/K2 reductions %s), memory streams up to %d words, streams with 0..16 valid bytes in the last block", k.n, kk < 4 ? "covering all four outcomes" : "as they come", r.thorough() ? 300 : 70);
}
void positions(mc::Run &r, int kk, int pos) {
	auto k = keyed(mac_key(kk));
	for (size_t n : {size_t(1), size_t(2)})
		for (size_t b = 0; b < n; b++)
			for (int v = 0; v < 256; v++)
				for (size_t last : {size_t(16), size_t(pos), size_t(pos + 1), size_t(8)}) {
					if (last > 16) continue;
					Seq s = blocks(n, last, 1);
					s.b[b].set(pos, uint8_t(v));
					r.begin("key %d, byte %d of block %zu is %02x, %zu blocks, %zu valid", k.n, pos, b, v, n, last);
					mac(r, "stream", k, stub(s), s);
				}
}
// All sequences of blocks that steer the chaining value
void sequences(mc::Run &r, int first) {
	for (int kk : {1, 2}) {
		auto k = keyed(mac_key(kk));
		int depth = r.thorough() ? 5 : 4;
		for (int len = 1; len <= depth; len++) {
			std::vector<int> s(size_t(len), 0);
			s[0] = first;
			for (;;) {
				Seq q{{}, 16};
				U128 c{0, 0};
				for (int x : s) {
					U128 b{0, 0};
					if (x == 1) b = {~0ULL, ~0ULL};
					else if (x == 2) b = c;
					else if (x == 3) b = {~c.lo, ~c.hi};
					else if (x == 4) b = c ^ ref::dbl128(k.m.enc({0, 0}));
					else if (x == 5) b = {0x80, 0};
					q.b.push_back(b);
					c = k.m.enc(c ^ b);
				}
				r.begin("key %d, %d steering blocks", k.n, len);
				for (size_t last : {16, 15, 8, 1, 0}) { q.last = last; mac(r, "stream", k, stub(q), q); }
				int i = len - 1;
				while (i > 0 && ++s[size_t(i)] == 6) s[size_t(i--)] = 0;
				if (i == 0) break;
			}
		}
	}
}
void keys(mc::Run &r, int part, int parts) {
	for (int i = part; i < 256; i += parts) {
		U128 h[2] = {{0, 0}, {0, 0}};
		h[i / 128].set(i % 128 / 8, uint8_t(1 << i % 8));
		Keyed k{kuz_key({h[0], h[1]}), ref_kuz({h[0], h[1]}), -1 - i};
		r.begin("key bit %d", i);
		for (size_t n : {0, 1, 2, 3, 4}) mac(r, "memory stream", k, memory(words(n, 1)), seq(words(n, 1)));
	}
	for (int i = part; i < (r.thorough() ? 400 : 64); i += parts) {
		auto k = keyed(i);
		r.begin("key %d", i);
		for (size_t n : {0, 1, 2, 3, 4}) mac(r, "memory stream", k, memory(words(n, 1)), seq(words(n, 1)));
	}
}
void longer(mc::Run &r, int e) {
	auto k = keyed(mac_key(e % 4));
	for (size_t d : {0, 1, 2}) {
		size_t n = (size_t(2) << e) - 1 + d;
		r.begin("key %d, memory stream of %zu words", k.n, n);
		mac(r, "long stream", k, memory(words(n, 1)), seq(words(n, 1)));
	}
}
#elif PROP == 13
const uint64_t ivs[] = {0, 1, ~0ULL, 0x1234567890abcef0ULL, 0x8000000000000000ULL, 0xffffffffULL, 0x00000000ffffffffULL << 32};
void check(mc::Run &r, const char *what, const Keyed &k, uint64_t iv, const St &st, const Seq &s, int style) {
	Seq c = ctr(k, iv, s);
	auto enc = make_shared<gk::StCTREncrypted>(st, k.k, iv);
	visit(r, what, enc->iter(), c, style);
	if (style == 2) visit(r, "second iteration", enc->iter(), c, 0);
	visit(r, "encrypted twice", make_shared<gk::StCTREncrypted>(enc, k.k, iv)->iter(), s, style);
}
void lengths(mc::Run &r, int kk) {
	auto k = keyed(kk);
	for (uint64_t iv : ivs) {
		for (size_t n = 0; n <= (r.thorough() ? 80u : 24u); n++)
			for (int style = 0; style < 3; style++) {
				r.begin("key %d, initial value %016llx, memory stream of %zu words, style %d", kk, (unsigned long long)iv, n, style);
				check(r, "CTR over memory", k, iv, memory(words(n, uint64_t(1 + style))), seq(words(n, uint64_t(1 + style))), style);
			}
		for (size_t n = 1; n <= (r.thorough() ? 6u : 3u); n++)
			for (size_t last = 0; last <= 16; last++) {
				Seq s = blocks(n, last, 1);
				r.begin("key %d, initial value %016llx, %zu blocks, %zu bytes in the last", kk, (unsigned long long)iv, n, last);
				check(r, "CTR over a stream", k, iv, stub(s), s, int(last) % 3);
			}
	}
	r.sample("key %d, seven initial values, every word count, every declared size 0..16", kk);
}
void iv_bits(mc::Run &r, int part, int parts) {
	auto k = keyed(part);
	size_t j = 0;
	for (auto iv : words64())
		if (int(j++ % size_t(parts)) == part) {
			r.begin("initial value %016llx", (unsigned long long)iv);
			Seq s = blocks(3, 16, iv);
			check(r, "CTR", k, iv, stub(s), s, 0);
		}
	for (int i = part; i < 256; i += parts) {
		U128 h[2] = {{0, 0}, {0, 0}};
		h[i / 128].set(i % 128 / 8, uint8_t(1 << i % 8));
		Keyed q{kuz_key({h[0], h[1]}), ref_kuz({h[0], h[1]}), -1 - i};
		r.begin("key bit %d", i);
		Seq s = blocks(2, 16, 1);
		check(r, "CTR", q, 5, stub(s), s, 0);
	}
}
// Two encryptions with different keys and initial values on top of each other
void stacked(mc::Run &r, int n) {
	auto a = keyed(3), b = keyed(4);
	for (uint64_t x : ivs)
		for (uint64_t y : ivs) {
			Seq s = blocks(size_t(n), 16, 1);
			r.begin("stacked CTR %016llx %016llx, %d blocks", (unsigned long long)x, (unsigned long long)y, n);
			auto in = make_shared<gk::StCTREncrypted>(stub(s), a.k, x);
			check(r, "CTR over CTR", b, y, in, ctr(a, x, s), 1);
			check(r, "CTR over CTR with the same key", a, y, in, ctr(a, x, s), 1);
		}
}
void increments(mc::Run &r, int part, int parts) {
	auto one = [&](U128 x) {
		U128 got = ref::u128(gk::BlkIncremented(make_shared<StubBlk128>(x)).value());
		if (got != ref::inc(x)) r.fail("increment of %s is %s", hexnum(x).c_str(), hexnum(got).c_str());
		r.step(); r.trace(); r.state(mc::mix(got.lo, got.hi));
	};
	r.begin("increments of boundary values");
	size_t j = 0;
	for (auto lo : words64())
		if (int(j++ % size_t(parts)) == part)
			for (auto hi : words64()) {
				one({lo, hi}); one({lo - 1, hi}); one({lo + 1, hi}); one({~lo, hi});
			}
	for (int p = part; p < 16; p += parts)
		for (int q = 0; q < p; q++)
			for (int v = 0; v < 65536; v++) {
				U128 x{~0ULL, ~0ULL};
				x.set(p, uint8_t(v)); x.set(q, uint8_t(v >> 8));
				one(x);
			}
}
// Chains of increments across every carry boundary
void chains(mc::Run &r, int part, int parts) {
	for (int bit = part; bit <= 128; bit += parts) {
		U128 x = bit < 64 ? U128{(1ULL << bit) - 3, 5} : bit == 64 ? U128{~0ULL - 2, 5} : bit < 128 ? U128{~0ULL - 2, (1ULL << (bit - 64)) - 1} : U128{~0ULL - 2, ~0ULL};
		r.begin("chain of increments from %s", hexnum(x).c_str());
		shared_ptr<const gk::Block> b = make_shared<gk::BlkRaw>(x.lo, x.hi);
		for (int i = 0; i < 8; i++) {
			b = make_shared<gk::BlkIncremented>(b);
			x = ref::inc(x);
			if (ref::u128(b->value()) != x) r.fail("chain: %s expected, %s found", hexnum(x).c_str(), hexnum(ref::u128(b->value())).c_str());
			r.step(); r.trace();
		}
	}
}
void longer(mc::Run &r, size_t n) {
	auto k = keyed(int(n % 5));
	auto w = words(n, 1);
	r.begin("CTR over %zu words", n);
	Seq s = seq(w);
	uint64_t iv = n % 2 ? ~0ULL : 9;
	visit(r, "long CTR", make_shared<gk::StCTREncrypted>(memory(w), k.k, iv)->iter(), ctr(k, iv, s), 0);
}
// A stream that never ends; its blocks say where they are
class Endless final : public gk::Iterator {
public:
	explicit Endless(uint64_t i) : i(i) {}
	std::pair<uint64_t, uint64_t> value() const override { return {i, ~i}; }
	bool last() const override { return false; }
	size_t size() const override { return 16; }
	shared_ptr<const gk::Iterator> next() const override { return make_shared<Endless>(i + 1); }
private:
	const uint64_t i;
};
class EndlessStream final : public gk::Stream {
public:
	shared_ptr<const gk::Iterator> iter() const override { return make_shared<Endless>(0); }
};
// The counter far from the start: every block around the powers of two and some in between are looked at
void far(mc::Run &r, int e, double seconds) {
	auto k = keyed(e % 5);
	uint64_t iv = 0xfffffffffffffffeULL - uint64_t(e % 2), n = (1ULL << e) + 5;
	r.begin("CTR up to block 2^%d", e);
	It it = make_shared<gk::StCTREncrypted>(make_shared<EndlessStream>(), k.k, iv)->iter();
	double t0 = mc::elapsed();
	for (uint64_t i = 0; i < n; i++) {
		uint64_t low = i + 2, top = 1ULL << (63 - __builtin_clzll(low));
		if (low - top <= 4 || (i & 0xffff) == 0xffff || (i & 0xfffff) <= 1) {
			U128 want = ref::ctr_block([&](U128 x) { return k.m.enc(x); }, iv, i, {i, ~i});
			U128 got = ref::u128(it->value());
			if (got != want) r.fail("CTR: block %llu is %s, expected %s", (unsigned long long)i, hexnum(got).c_str(), hexnum(want).c_str());
			r.state(mc::mix(got.lo, got.hi)); r.trace();
		}
		it = it->next();
		if ((i & 0xfff) == 0) { r.step(4096); if (mc::elapsed() - t0 > seconds) { r.capped("time: counters beyond those reached are left to the increments"); return; } }
	}
}
#else
void contents(mc::Run &r, int part, int parts) {
	for (size_t n = size_t(part); n <= (r.thorough() ? 1200u : 300u); n += size_t(parts))
		for (uint64_t which : {1, 0, 2, 3})
			for (int style = 0; style < 3; style++) {
				r.begin("%zu words, pattern %d, style %d", n, int(which), style);
				auto w = words(n, which);
				auto st = memory(w);
				visit(r, "memory stream", st->iter(), seq(w), style);
				visit(r, "memory stream again", st->iter(), seq(w), 0);
			}
	r.sample("word counts %d, %d+%d, ...", part, part, parts);
}
// The one bit that is set is seen where it belongs
void one_word(mc::Run &r) {
	for (size_t n = 1; n <= 9; n++)
		for (size_t p = 0; p < n; p++)
			for (uint64_t v : words64()) {
				r.begin("word %zu of %zu is %016llx", p, n, (unsigned long long)v);
				auto w = words(n, 1);
				w[p] = v;
				visit(r, "memory stream", memory(w)->iter(), seq(w), 0);
			}
}
// Every history of up to `depth` operations on a stream and three iterators
enum { NEW = 0, ADV = 3, DROP = 6, LOOK = 9, DROPST = 12, OPS = 13 };
bool history(mc::Run &r, size_t n, const std::vector<int> &h, std::string &text) {
	auto w = words(n, 1);
	Seq s = seq(w);
	St st = memory(w);
	It it[3];
	size_t at[3] = {0, 0, 0};
	text.clear();
	auto look = [&](int i) {
		bool l = at[i] + 1 == s.b.size();
		if (it[i]->last() != l || it[i]->size() != (l ? s.last : 16) || ref::u128(it[i]->value()) != s.b[at[i]])
			r.fail("%zu words, %s: iterator %d at block %zu shows %s, size %zu, last %d", n, text.c_str(), i, at[i], hexnum(ref::u128(it[i]->value())).c_str(), it[i]->size(), int(it[i]->last()));
		r.step(3);
	};
	for (size_t k = 0; k < h.size(); k++) {
		int op = h[k], i = op < DROPST ? op % 3 : 0;
		char b[24];
		snprintf(b, sizeof b, "%s%d ", op < ADV ? "new" : op < DROP ? "next" : op < LOOK ? "drop" : op < DROPST ? "look" : "dropstream", i);
		text += b;
		if (op < ADV) {
			if (!st || (i > 0 && !it[0] && !it[i])) return false;   // slots are alike: fill the first one first
			it[i] = st->iter(); at[i] = 0;
		} else if (op < DROP) {
			if (!it[i]) return false;
			auto nx = it[i]->next();
			if (at[i] + 1 == s.b.size()) {
				if (nx) r.fail("%zu words, %s: there is a next block after the last one", n, text.c_str());
				return false;
			}
			if (!nx) r.fail("%zu words, %s: no next block after block %zu of %zu", n, text.c_str(), at[i], s.b.size());
			it[i] = nx; at[i]++;
		} else if (op < LOOK) {
			if (!it[i]) return false;
			it[i].reset();
		} else if (op < DROPST) {
			if (!it[i]) return false;
			look(i);
		} else {
			if (!st) return false;
			st.reset();
		}
		r.step();
	}
	for (int i = 0; i < 3; i++) if (it[i]) look(i);
	// every surviving iterator still reaches the end
	for (int i = 0; i < 3; i++)
		while (it[i] && at[i] + 1 < s.b.size()) { it[i] = it[i]->next(); at[i]++; if (!it[i]) r.fail("%zu words, %s: iterator %d ends early", n, text.c_str(), i); look(i); }
	uint64_t hs = n;
	for (int x : h) hs = mc::mix(hs, uint64_t(x));
	r.state(hs); r.trace();
	return true;
}
void histories(mc::Run &r, size_t n, int first, int second) {
	int depth = r.thorough() ? 7 : 6;
	std::vector<int> h{first, second};
	std::string text;
	h.resize(size_t(depth), 0);
	r.begin("%zu words, histories starting with operations %d %d", n, first, second);
	for (;;) {
		// prune: find the shortest impossible prefix
		bool ok = history(r, n, h, text);
		size_t i = h.size() - 1;
		if (!ok) {
			size_t ops = 0;
			for (char c : text) ops += c == ' ';
			i = ops - 1;      // the operation that was impossible
			if (i < 2) return;
		}
		for (size_t j = i + 1; j < h.size(); j++) h[j] = 0;
		while (i >= 2 && ++h[i] == OPS) h[i--] = 0;
		if (i < 2) return;
	}
}
// Everything is gone except one iterator; also iterators kept at every position
void survivors(mc::Run &r) {
	for (size_t n = 0; n <= 12; n++) {
		auto w = words(n, 1);
		Seq s = seq(w);
		for (size_t keep = 0; keep < s.b.size(); keep++) {
			r.begin("%zu words, only the iterator at block %zu is kept", n, keep);
			It k;
			{
				It it = make_shared<gk::StMemory>(w)->iter();
				for (size_t i = 0; i < keep; i++) it = it->next();
				k = it;
			}
			Seq rest{Blocks(s.b.begin() + long(keep), s.b.end()), s.last};
			visit(r, "kept iterator", k, rest, 2);
			visit(r, "kept iterator again", k, rest, 1);
		}
		r.begin("%zu words, all iterators kept, stream gone", n);
		std::vector<It> all;
		{ It it = make_shared<gk::StMemory>(w)->iter(); for (size_t i = 0; i < s.b.size(); i++) { all.push_back(it); it = it->next(); } }
		for (size_t i = all.size(); i-- > 0;) visit(r, "kept iterators", all[i], {Blocks(s.b.begin() + long(i), s.b.end()), s.last}, 0);
		r.begin("%zu words, the caller's vector changes afterwards", n);
		{
			auto copy = w;
			auto st = memory(copy);
			auto it = st->iter();
			for (auto &x : copy) x = ~x;
			copy.clear();
			copy.shrink_to_fit();
			visit(r, "stream", st->iter(), s, 0);
			visit(r, "iterator", it, s, 0);
		}
	}
}
void longer(mc::Run &r, size_t n) {
	r.begin("%zu words", n);
	auto w = words(n, 1);
	visit(r, "long stream", memory(w)->iter(), seq(w), 0);
}
#endif
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	bool th = tier == Tier::thorough;
	auto S = [](const char *n, size_t i) { return std::string(n) + "-" + std::to_string(i); };
#if PROP == 11
	for (int i = 0; i < (th ? 12 : 8); i++) out.push_back({S("lengths", size_t(i)), [i](Run &r) { lengths(r, i); }, 6});
	for (int k = 0; k < (th ? 4 : 2); k++) for (int p = 0; p < 16; p++) out.push_back({S("positions", size_t(k * 16 + p)), [k, p](Run &r) { positions(r, k, p); }, 4});
	for (int i = 0; i < 6; i++) out.push_back({S("sequences", size_t(i)), [i](Run &r) { sequences(r, i); }, 5});
	for (int i = 0; i < 8; i++) out.push_back({S("keys", size_t(i)), [i](Run &r) { keys(r, i, 8); }, 4});
	for (int e = 6; e <= (th ? 19 : 16); e++) out.push_back({S("long", size_t(e)), [e](Run &r) { longer(r, e); }, e});
#elif PROP == 13
	for (int i = 0; i < (th ? 24 : 8); i++) out.push_back({S("lengths", size_t(i)), [i](Run &r) { lengths(r, i); }, 6});
	for (int i = 0; i < 8; i++) out.push_back({S("bits", size_t(i)), [i](Run &r) { iv_bits(r, i, 8); }, 4});
	for (int n = 1; n <= 6; n++) out.push_back({S("stacked", size_t(n)), [n](Run &r) { stacked(r, n); }, 3});
	for (int i = 0; i < 8; i++) out.push_back({S("increments", size_t(i)), [i](Run &r) { increments(r, i, 8); }, 5});
	for (int i = 0; i < 8; i++) out.push_back({S("chains", size_t(i)), [i](Run &r) { chains(r, i, 8); }, 1});
	for (size_t n : {511, 513, 1024, 131071, 131072, 131080}) out.push_back({S("long", n), [n](Run &r) { longer(r, n); }, n > 10000 ? 20 : 2});
	out.push_back({"far-2^24", [](Run &r) { far(r, r.thorough() ? 32 : 24, r.thorough() ? 5000 : 60); }, 60});
	out.push_back({"far-2^19", [](Run &r) { far(r, 19, 60); }, 3});
	if (th) for (size_t n : {524288, 2000001}) out.push_back({S("long", n), [n](Run &r) { longer(r, n); }, 50});
#else
	for (int i = 0; i < 8; i++) out.push_back({S("contents", size_t(i)), [i](Run &r) { contents(r, i, 8); }, 6});
	out.push_back({"one-word", one_word, 4});
	out.push_back({"survivors", survivors, 2});
	for (size_t n : {0, 1, 2, 3, 4, 5, 7}) for (int b = 0; b < OPS; b++) out.push_back({"histories-" + std::to_string(n) + "-" + std::to_string(b), [n, b](Run &r) { histories(r, n, NEW, b); }, 5});
	for (size_t n : {1000, 65535, 131072, 131073}) out.push_back({S("long", n), [n](Run &r) { longer(r, n); }, n > 10000 ? 9 : 1});
	if (th) for (size_t n : {1048577, 4000000}) out.push_back({S("long", n), [n](Run &r) { longer(r, n); }, 50});
#endif
}
