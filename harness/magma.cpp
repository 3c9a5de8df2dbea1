// C01 (Magma encryption conforms), C02 (decryption inverts), C22 (any key implementation).
#include "env.h"
using namespace env;

#if PROP == 1
const char *const mc::property = "C01";
#elif PROP == 2
const char *const mc::property = "C02";
#else
const char *const mc::property = "C22";
#endif

namespace {
typedef std::array<uint32_t, 8> Words;
typedef shared_ptr<const gm::Block> Blk;

Blk raw(uint64_t v) { return make_shared<gm::BlkRaw>(v); }
uint64_t enc(const LKey &k, uint64_t v) { return num(gm::BlkEncrypted(raw(v), k).value()); }
uint64_t dec(const LKey &k, uint64_t v) { return num(gm::BlkDecrypted(raw(v), k).value()); }

const uint32_t ALPHA[] = {0, 0xffffffff, 1, 0x80000000, 0x0000ffff, 0x5a5a5a5a};
const int NALPHA = 6, NANS = NALPHA + 3;

// Substitution with up to two points changed: every substitution the rounds can see that differs
// from `tab` in those points only. As a round function: g(x, k) = substitution(x + subkey k).
struct Patched {
	Words w;
	ref::MagmaKey tab;  // table under the zero key
	int n = 0;
	uint32_t v[2], a[2];
	Patched() {}
	Patched(const Words &w, const ref::Table &t) : w(w) { Words z; z.fill(0); tab = ref_key(z, t); }
	uint32_t sub(uint32_t s) const {
		for (int j = 0; j < n; j++) if (v[j] == s) return a[j];
		return tab(s, 0);
	}
	uint32_t operator()(uint32_t x, int k) const { return sub(x + w[size_t(k)]); }
	// with the answer of round r of an encryption of x changed to one of the alphabet, or to
	// what makes the new half equal to the other one, zero, or all ones
	Patched with(uint64_t x, int r, int code) const {
		uint32_t a1 = uint32_t(x >> 32), a0 = uint32_t(x);
		for (int q = 0; q < r; q++) { uint32_t t = a1 ^ (*this)(a0, ref::subkey(q)); a1 = a0; a0 = t; }
		uint32_t answer = code < NALPHA ? ALPHA[code] : code == NALPHA ? a1 ^ a0 : code == NALPHA + 1 ? a1 : ~a1;
		Patched h = *this;
		h.v[h.n] = a0 + w[size_t(ref::subkey(r))];
		h.a[h.n++] = answer;
		return h;
	}
};
struct Probe { std::vector<std::pair<uint32_t, int>> seen; };

// Library keys over a stub table (and stub or native key data)
LKey stub_table_key(const Patched &g, bool native) {
	auto sb = make_shared<StubSbox>([g](uint32_t s) { return g.sub(s); });
	auto w = g.w;
	if (native) return make_shared<gm::LazyKey>(std::vector<uint32_t>(w.begin(), w.end()), sb);
	return make_shared<gm::LazyKey>(make_unique<StubKeyData>([w](int i) { return w.at(size_t(i)); }), sb);
}
template <class G> AKey custom_key(const G &g, const shared_ptr<Probe> &p) {
	return make_shared<StubKey>([p, g](uint32_t v, int i) {
		p->seen.push_back({v, i});
		return g(v, i & 7);
	});
}
void order(mc::Run &r, const Probe &p, bool decrypting, const char *what) {
	for (size_t i = 0; i < p.seen.size(); i++) {
		int q = int(i % 32), want = ref::subkey(decrypting ? 31 - q : q);
		if (p.seen[i].second != want)
			r.fail("%s: round %d of a block uses subkey %d, the standard says %d", what, q, p.seen[i].second, want);
	}
	if (p.seen.size() % 32) r.fail("%s: %zu rounds", what, p.seen.size());
}

uint64_t block_of(int i) { return i == 0 ? 0xfedcba9876543210ULL : i == 1 ? 0 : i == 2 ? ~0ULL : scramble(uint64_t(i)); }

void one_patched(mc::Run &r, const Patched &g, uint64_t x, bool native) {
	uint64_t want = ref::magma_enc(g, x);
	LKey k = stub_table_key(g, native);
#if PROP == 1
	uint64_t got = enc(k, x);
	if (got != want) r.fail("block object: encryption of %016llx is %016llx, standard %016llx", (unsigned long long)x, (unsigned long long)got, (unsigned long long)want);
	auto p = make_shared<Probe>();
	got = gm::EncryptionBase(custom_key(g, p)).transform(x);
	if (got != want) r.fail("raw transformation of %016llx is %016llx, standard %016llx", (unsigned long long)x, (unsigned long long)got, (unsigned long long)want);
	order(r, *p, false, "raw transformation");
	got = gm::EncryptionBase(k).transform(x);
	if (got != want) r.fail("raw transformation and block object differ on %016llx", (unsigned long long)x);
	r.step(3); r.trace(3);
#else
	uint64_t e = enc(k, x), d = dec(k, e);
	if (d != x) r.fail("decrypting the encryption of %016llx gives %016llx", (unsigned long long)x, (unsigned long long)d);
	uint64_t d2 = dec(k, x), e2 = enc(k, d2);
	if (e2 != x) r.fail("encrypting the decryption of %016llx gives %016llx", (unsigned long long)x, (unsigned long long)e2);
	if (d2 != ref::magma_dec(g, x)) r.fail("decryption of %016llx is not the standard's", (unsigned long long)x);
	r.step(4); r.trace(3);
#endif
	r.state(mc::mix(want, x));
}
// All substitutions within two changed points along the trace of a block
void environment(mc::Run &r, int which, bool decpath) {
	const Patched g(key_words(which), table(which % 5));
	uint64_t x = block_of(which);
	r.begin("key %d, table %d, unchanged", which, which % 5);
	one_patched(r, g, x, false);
	for (int r1 = 0; r1 < 32; r1++)
		for (int a1 = 0; a1 < NANS; a1++) {
			Patched h = g.with(x, r1, a1);
			r.begin("key %d, table %d with round %d answering %d", which, which % 5, r1, a1);
			one_patched(r, h, x, a1 & 1);
			if (decpath) one_patched(r, h, ref::magma_enc(h, x), false);
			for (int r2 = r1 + 1; r2 < 32; r2++)
				for (int a2 = 0; a2 < NANS; a2++) {
					r.begin("key %d, table %d with rounds %d, %d answering %d, %d", which, which % 5, r1, r2, a1, a2);
					one_patched(r, h.with(x, r2, a2), x, a2 & 1);
				}
		}
	r.sample("key %d: all substitutions with up to 2 of 32 rounds answered from %d values", which, NANS);
}
// Extreme substitutions
void functions(mc::Run &r) {
	typedef std::function<uint32_t(uint32_t)> F;
	std::vector<F> fs;
	for (auto a : ALPHA) fs.push_back([a](uint32_t) { return a; });
	fs.push_back([](uint32_t v) { return v; });
	fs.push_back([](uint32_t v) { return ~v; });
	fs.push_back([](uint32_t v) { return v << 16 | v >> 16; });
	fs.push_back([](uint32_t v) { return v & 0x80000001u; });
	fs.push_back([](uint32_t v) { return v * 3u; });
	fs.push_back([](uint32_t v) { return uint32_t(scramble(v)); });
	for (size_t f = 0; f < fs.size(); f++)
		for (int key = 0; key < 6; key++)
			for (auto x : words64()) {
				r.begin("substitution %zu, key %d, block %016llx", f, key, (unsigned long long)x);
				auto w = key_words(key);
				auto g = [&](uint32_t v, int i) { return fs[f](v + w[size_t(i)]); };
				LKey k = make_shared<gm::LazyKey>(std::vector<uint32_t>(w.begin(), w.end()), make_shared<StubSbox>(fs[f]));
				uint64_t want = ref::magma_enc(g, x), e = enc(k, x);
				if (PROP == 1 && e != want) r.fail("encryption is %016llx, not %016llx", (unsigned long long)e, (unsigned long long)want);
				if (PROP == 1 && gm::EncryptionBase(k).transform(x) != want) r.fail("raw transformation is not %016llx", (unsigned long long)want);
				if (PROP == 2 && (dec(k, e) != x || enc(k, dec(k, x)) != x)) r.fail("decryption does not invert encryption");
				r.step(3); r.trace(); r.state(mc::mix(want, f));
			}
}
void concrete(mc::Run &r, const LKey &k, const ref::MagmaKey &m, uint64_t x) {
	uint64_t want = m.enc(x);
#if PROP == 1
	uint64_t got = enc(k, x);
	if (got != want) r.fail("encryption of %016llx is %016llx, standard %016llx", (unsigned long long)x, (unsigned long long)got, (unsigned long long)want);
	got = gm::EncryptionBase(k).transform(x);
	if (got != want) r.fail("raw transformation of %016llx is %016llx, standard %016llx", (unsigned long long)x, (unsigned long long)got, (unsigned long long)want);
	r.step(2); r.trace(2);
#else
	uint64_t got = dec(k, want);
	if (got != x) r.fail("decryption of %016llx is %016llx, not %016llx", (unsigned long long)want, (unsigned long long)got, (unsigned long long)x);
	got = dec(k, x);
	if (got != m.dec(x)) r.fail("decryption of %016llx is %016llx, not %016llx", (unsigned long long)x, (unsigned long long)got, (unsigned long long)m.dec(x));
	if (enc(k, got) != x) r.fail("encrypting the decryption of %016llx gives another block", (unsigned long long)x);
	r.step(3); r.trace(3);
#endif
	r.state(mc::mix(want, x));
}
LKey make_key(const Words &w, const ref::Table &t, int kind, ref::MagmaKey &m) {
	m = ref_key(w, t);
	switch (kind) {
	case 0: m = ref_key(w); return key_string(w);
	case 1: return key_string(w, t);
	case 2: return key_native(w, t, false);
	case 3: return key_native(w, t, true);
	case 4: m = ref_key(w); return make_shared<gm::LazyKey>(std::vector<uint32_t>(w.begin(), w.end()), make_shared<gm::SboxR3412>());
	default: m = ref_key(w); return make_shared<gm::LazyKey>(make_unique<gm::KeyDataString>(key_text(w)), make_shared<gm::SboxR3412>());
	}
}
void onehot_keys(mc::Run &r, int part, int parts) {
	for (int bit = part; bit < 256; bit += parts)
		for (int inv = 0; inv < 2; inv++)
			for (int kind : {0, 2, 5}) {
				Words w;
				w.fill(inv ? ~0u : 0);
				w[size_t(bit / 32)] ^= 1u << bit % 32;
				ref::MagmaKey m;
				r.begin("%s key bit %d, kind %d", inv ? "one-cold" : "one-hot", bit, kind);
				LKey k = make_key(w, table(1), kind, m);
				for (auto x : words64()) concrete(r, k, m, x);
			}
	r.sample("key bits %d, %d+%d, ...: key with only that bit set / cleared, %zu blocks each", part, part, parts, words64().size());
}
void key_bytes(mc::Run &r, int part, int parts) {
	for (int pos = part; pos < 32; pos += parts)
		for (uint32_t v = 0; v < 256; v++)
			for (int kind : {0, 3}) {
				Words w = key_words(4);
				int sh = pos % 4 * 8;
				w[size_t(pos / 4)] = (w[size_t(pos / 4)] & ~(0xffu << sh)) | v << sh;
				ref::MagmaKey m;
				r.begin("key 4 with byte %d = %02x, kind %d", pos, v, kind);
				LKey k = make_key(w, table(4), kind, m);
				for (int b = 0; b < 12; b++) concrete(r, k, m, block_of(b));
			}
}
void key_words_alphabet(mc::Run &r, int part, int parts) {
	// every subkey position takes every word of a carry-sensitive alphabet
	std::vector<uint32_t> a{0, ~0u};
	for (int i = 0; i < 32; i++) { a.push_back(1u << i); a.push_back((1u << i) - 1); a.push_back(~0u << i); a.push_back(~(1u << i)); }
	for (size_t pos = 0; pos < 8; pos++)
		for (size_t i = size_t(part); i < a.size(); i += size_t(parts)) {
			Words w = key_words(6);
			w[pos] = a[i];
			ref::MagmaKey m;
			r.begin("key 6 with subkey %zu = %08x", pos, a[i]);
			LKey k = make_key(w, table(0), i % 2 ? 0 : 4, m);
			for (size_t j = 0; j < a.size(); j++) {
				concrete(r, k, m, uint64_t(0x13579bdf) << 32 | a[j]);
				concrete(r, k, m, uint64_t(a[j]) << 32 | 0x13579bdf);
			}
		}
}
void key_kinds(mc::Run &r, int part, int parts) {
	int top = r.thorough() ? 400 : 60;
	for (int i = part; i < top; i += parts)
		for (int t = 0; t < 10; t++)
			for (int kind = 0; kind < 6; kind++) {
				ref::MagmaKey m;
				r.begin("key %d, table %d, kind %d", i, t, kind);
				LKey k = make_key(key_words(i), table(t), kind, m);
				for (size_t j = 0; j < words64().size(); j += 5) concrete(r, k, m, words64()[j]);
			}
}
void blocks(mc::Run &r, int part, int parts) {
	for (int key : {0, 2, 3, 7}) {
		ref::MagmaKey m;
		LKey k = make_key(key_words(key), table(key), key == 0 ? 0 : 2, m);
		r.begin("key %d: every byte position, every value", key);
		for (int pos = 0; pos < 8; pos++)
			for (uint64_t v = 0; v < 256; v++)
				for (int b = part; b < 24; b += parts) concrete(r, k, m, (block_of(b) & ~(0xffULL << 8 * pos)) | v << 8 * pos);
		r.begin("key %d: every pair of bits", key);
		for (int i = part; i < 64; i += parts)
			for (int j = 0; j < i; j++) {
				concrete(r, k, m, 1ULL << i | 1ULL << j);
				concrete(r, k, m, ~(1ULL << i | 1ULL << j));
			}
		r.begin("key %d: every 16-bit word in every position", key);
		for (int pos = 0; pos < 4; pos++)
			for (uint64_t v = uint64_t(part); v < 65536; v += uint64_t(parts) * (r.thorough() ? 1 : 4)) concrete(r, k, m, v << 16 * pos);
	}
}
// Objects made from many keys and blocks, used alternately
void alternating(mc::Run &r) {
	const int N = 12;
	std::vector<LKey> ks;
	std::vector<ref::MagmaKey> ms;
	for (int i = 0; i < N; i++) { ref::MagmaKey m; ks.push_back(make_key(key_words(i), table(i % 5), i % 6, m)); ms.push_back(m); }
	std::vector<uint64_t> xs;
	for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) xs.push_back(uint64_t(uint32_t(block_of(i) >> 32)) << 32 | uint32_t(block_of(j)));
	for (int a = 0; a < N; a++)
		for (int b = 0; b < N; b++)
			for (auto x : xs)
				for (auto y : xs) {
					r.begin("keys %d and %d in turn, blocks %016llx and %016llx", a, b, (unsigned long long)x, (unsigned long long)y);
					auto A = make_shared<gm::BlkEncrypted>(raw(x), ks[size_t(a)]);
					auto B = make_shared<gm::BlkEncrypted>(raw(y), ks[size_t(b)]);
					if (num(A->value()) != ms[size_t(a)].enc(x) || num(B->value()) != ms[size_t(b)].enc(y) || num(A->value()) != ms[size_t(a)].enc(x))
						r.fail("results depend on what else is computed");
					if (gm::EncryptionBase(ks[size_t(a)]).transform(x) != ms[size_t(a)].enc(x) || gm::EncryptionBase(ks[size_t(b)]).transform(y) != ms[size_t(b)].enc(y))
						r.fail("raw results depend on what else is computed");
					auto C = make_shared<gm::BlkDecrypted>(raw(x), ks[size_t(a)]);
					auto D = make_shared<gm::BlkDecrypted>(B, ks[size_t(b)]);
					if (num(D->value()) != y || num(C->value()) != ms[size_t(a)].dec(x) || num(D->value()) != y)
						r.fail("decryption depends on what else is computed");
					r.step(8); r.trace(4);
				}
}
// Many evaluations by one key object, against the model
void longrun(mc::Run &r, int key) {
	ref::MagmaKey m;
	LKey k = make_key(key_words(key), table(0), key % 6, m);
	r.begin("chain of encryptions with one key object, key %d", key);
	uint64_t x = 0;
	uint32_t n = r.thorough() ? 8u << 20 : 1u << 20;
	if (key % 6 == 5) n >>= 4;  // undoes the text every time
	gm::EncryptionBase base(k);
	for (uint32_t i = 0; i < n; i++) {
		uint64_t want = m.enc(x), got = PROP == 1 && (i & 1) ? base.transform(x) : enc(k, x);
		if (got != want) r.fail("evaluation %u of %016llx is %016llx, not %016llx", i, (unsigned long long)x, (unsigned long long)got, (unsigned long long)want);
		if (PROP == 2 && dec(k, want) != x) r.fail("evaluation %u: decryption of %016llx is not %016llx", i, (unsigned long long)want, (unsigned long long)x);
		x = want;
		if (i % 4096 == 0) r.tick();
	}
	r.step(n); r.trace(n);
}
// Composition: blocks of any implementation, nested
void nested(mc::Run &r) {
	auto w = key_words(0), w2 = key_words(8);
	LKey k = key_string(w), k2 = key_native(w2, table(1));
	auto m = ref_key(w), m2 = ref_key(w2, table(1));
	for (auto x : words64()) {
		r.begin("nested, block %016llx", (unsigned long long)x);
		Blk s = make_shared<StubBlk64>(x);
		uint64_t a = num(gm::BlkEncrypted(make_shared<gm::BlkEncrypted>(s, k), k2).value());
		uint64_t b = num(gm::BlkDecrypted(make_shared<gm::BlkEncrypted>(s, k), k).value());
		uint64_t c = num(gm::BlkEncrypted(make_shared<gm::BlkDecrypted>(s, k2), k2).value());
		uint64_t d = num(gm::BlkEncrypted(make_shared<gm::BlkDecrypted>(s, k2), k).value());
		if (a != m2.enc(m.enc(x)) || b != x || c != x || d != m.enc(m2.dec(x))) r.fail("nested blocks give a wrong value");
		r.step(4); r.trace(4); r.state(a);
	}
}

// -------------------------------------------------------------------- C22
template <class G> struct Dyn {
	G g;
	uint64_t enc(uint64_t x) const { return ref::magma_enc(g, x); }
	uint64_t dec(uint64_t x) const { return ref::magma_dec(g, x); }
};
typedef std::function<uint32_t(uint32_t, int)> F;
void modes_with(mc::Run &r, const F &g, const char *name, size_t nblocks, size_t tail) {
	Dyn<F> d{g};
	Bytes m = message(nblocks * 8 + tail, 1);
	for (int std : {0, 1}) {
		Cfb c{std, 0x1234567890abcdefULL, 0x234567890abcdef1ULL};
		r.begin("%s, CFB %d, %zu bytes", name, std, m.size());
		Bytes want = c.model(d, m, false);
		auto p = make_shared<Probe>();
		auto out = c.sink(make_shared<RecSink>(), custom_key(g, p))->write(dat(m))->finalize();
		if (!rec(out) || rec(out)->content() != want) r.fail("%s: CFB %d encryption is not the one its round function determines", name, std);
		order(r, *p, false, "CFB sink");
		auto q = make_shared<Probe>();
		Bytes back = drain(c.source(make_shared<MemSource>(want), custom_key(g, q)), 13, m.size() + 100);
		if (back != m) r.fail("%s: CFB %d decryption is not the one its round function determines", name, std);
		order(r, *q, false, "CFB source");
		r.step(4); r.trace(2); r.state(hash(want));
	}
	{
		Bytes w = message(nblocks * 8, 3);
		r.begin("%s, ECB, %zu bytes", name, w.size());
		Bytes want = ref::ecb([&](uint64_t x) { return d.enc(x); }, w);
		auto p = make_shared<Probe>();
		auto out = make_shared<gm::ECBSink>(make_shared<RecSink>(), custom_key(g, p))->write(dat(w))->finalize();
		if (!rec(out) || rec(out)->content() != want) r.fail("%s: ECB encryption is not the one its round function determines", name);
		order(r, *p, false, "ECB sink");
		auto q = make_shared<Probe>();
		Bytes back = drain(make_shared<gm::ECBSource>(make_shared<MemSource>(want), custom_key(g, q)), 8, w.size() + 100);
		if (back != w) r.fail("%s: ECB decryption is not the one its round function determines", name);
		order(r, *q, true, "ECB source");
		// and decryption of what is no ciphertext
		Bytes other = ref::ecb([&](uint64_t x) { return d.dec(x); }, w);
		auto q2 = make_shared<Probe>();
		back = drain(make_shared<gm::ECBSource>(make_shared<MemSource>(w), custom_key(g, q2)), 8, w.size() + 100);
		if (back != other) r.fail("%s: ECB decryption is not the one its round function determines", name);
		r.step(6); r.trace(3); r.state(hash(want));
	}
	for (size_t i = 0; i < nblocks; i++) {
		auto p = make_shared<Probe>();
		uint64_t x = ref::load64(&m[i * 8]);
		if (gm::EncryptionBase(custom_key(g, p)).transform(x) != d.enc(x)) r.fail("%s: raw transformation is not the one its round function determines", name);
		if (p->seen.size() != 32) r.fail("%s: %zu rounds in a raw transformation", name, p->seen.size());
		order(r, *p, false, "raw transformation");
		r.step(); r.trace();
	}
}
void custom_functions(mc::Run &r, int part, int parts) {
	std::vector<std::pair<std::string, F>> fs;
	for (auto a : ALPHA) fs.push_back({"constant " + std::to_string(a), [a](uint32_t, int) { return a; }});
	fs.push_back({"identity", [](uint32_t v, int) { return v; }});
	fs.push_back({"complement", [](uint32_t v, int) { return ~v; }});
	fs.push_back({"index", [](uint32_t, int i) { return uint32_t(i) * 0x11111111u; }});
	fs.push_back({"hash", [](uint32_t v, int i) { return uint32_t(scramble(uint64_t(v) << 8 | uint64_t(i))); }});
	for (int j = 0; j < 8; j++) fs.push_back({"only subkey " + std::to_string(j), [j](uint32_t v, int i) { return i == j ? v * 3 + 1 : 0u; }});
	for (int j = 0; j < 8; j++) fs.push_back({"all but subkey " + std::to_string(j), [j](uint32_t v, int i) { return i == j ? 0u : v * 5 + 7; }});
	for (int k = 0; k < 6; k++) { auto m = ref_key(key_words(k), table(k)); fs.push_back({"table " + std::to_string(k), [m](uint32_t v, int i) { return m(v, i); }}); }
	for (size_t f = size_t(part); f < fs.size(); f += size_t(parts))
		for (size_t n = 0; n <= (r.thorough() ? 40 : 12); n++)
			for (size_t tail = 0; tail < 8; tail++) modes_with(r, fs[f].second, fs[f].first.c_str(), n, tail);
	r.sample("custom round functions (%zu in all), 0..12 blocks, tails 0..7, CFB x2, ECB, raw", fs.size());
}
void custom_environment(mc::Run &r, int which) {
	const Patched g(key_words(which), table(which % 5));
	uint64_t first = 0x1234567890abcdefULL;
	for (int r1 = 0; r1 < 32; r1++)
		for (int a1 = 0; a1 < NANS; a1++) {
			Patched h = g.with(first, r1, a1);
			modes_with(r, F(h), "one round answered from the alphabet", 3, 5);
			for (int r2 = r1 + 1; r2 < 32; r2++)
				for (int a2 : r.thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8} : std::vector<int>{0, 1, 6})
					modes_with(r, F(h.with(first, r2, a2)), "two rounds answered from the alphabet", 1, 2);
		}
}
// Library keys and custom keys are interchangeable, and mixed in one process
void mixed(mc::Run &r) {
	for (int i = 0; i < 8; i++) {
		auto m = ref_key(key_words(i), table(i % 5));
		LKey lib = key_native(key_words(i), table(i % 5));
		AKey cus = make_shared<StubKey>([m](uint32_t v, int k) { return m(v, k); });
		// a custom key that wraps a library key
		AKey wrap = make_shared<StubKey>([lib](uint32_t v, int k) { return lib->transform(v, k); });
		Bytes t = message(43, 1), w = message(40, 1);
		for (int std : {0, 1}) {
			Cfb c{std, 1, 2};
			Bytes want = c.model(m, t, false);
			for (const AKey &k : {AKey(lib), cus, wrap}) {
				r.begin("key %d, CFB %d", i, std);
				auto o = c.sink(make_shared<RecSink>(), k)->write(dat(t))->finalize();
				if (rec(o)->content() != want) r.fail("key implementations give different ciphertexts");
				for (const AKey &k2 : {AKey(lib), cus, wrap})
					if (drain(c.source(make_shared<MemSource>(want), k2), 5, 1000) != t) r.fail("key implementations do not decrypt each other's ciphertext");
				r.step(4); r.trace(4);
			}
		}
		Bytes want = ref::ecb([&](uint64_t x) { return m.enc(x); }, w);
		for (const AKey &k : {AKey(lib), cus, wrap}) {
			r.begin("key %d, ECB", i);
			auto o = make_shared<gm::ECBSink>(make_shared<RecSink>(), k)->write(dat(w))->finalize();
			if (rec(o)->content() != want) r.fail("key implementations give different ciphertexts");
			if (drain(make_shared<gm::ECBSource>(make_shared<MemSource>(want), k), 8, 1000) != w) r.fail("key implementations do not decrypt each other's ciphertext");
			r.step(2); r.trace(2);
		}
	}
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	auto S = [](const char *n, int i) { return std::string(n) + "-" + std::to_string(i); };
#if PROP == 1 || PROP == 2
	int envs = tier == Tier::thorough ? 40 : 8;
	for (int i = 0; i < envs; i++) out.push_back({S("environment", i), [i](Run &r) { environment(r, i, PROP == 2); }, 5});
	out.push_back({"functions", functions, 3});
	for (int i = 0; i < 8; i++) out.push_back({S("onehot-keys", i), [i](Run &r) { onehot_keys(r, i, 8); }, 4});
	for (int i = 0; i < 4; i++) out.push_back({S("key-bytes", i), [i](Run &r) { key_bytes(r, i, 4); }, 3});
	for (int i = 0; i < 4; i++) out.push_back({S("key-words", i), [i](Run &r) { key_words_alphabet(r, i, 4); }, 3});
	for (int i = 0; i < 4; i++) out.push_back({S("key-kinds", i), [i](Run &r) { key_kinds(r, i, 4); }, 3});
	for (int i = 0; i < 8; i++) out.push_back({S("blocks", i), [i](Run &r) { blocks(r, i, 8); }, 4});
	out.push_back({"alternating", alternating, 4});
	for (int i = 0; i < 6; i++) out.push_back({S("long", i), [i](Run &r) { longrun(r, i); }, 6});
	out.push_back({"nested", nested, 1});
#else
	for (int i = 0; i < 8; i++) out.push_back({S("functions", i), [i](Run &r) { custom_functions(r, i, 8); }, 3});
	int envs = tier == Tier::thorough ? 24 : 4;
	for (int i = 0; i < envs; i++) out.push_back({S("environment", i), [i](Run &r) { custom_environment(r, i); }, 5});
	out.push_back({"mixed", mixed, 1});
#endif
}
