// C05 (STD=0, GOST 28147-89) and C06 (STD=1, GOST R 34.13 on Magma): CFB against the model.
#include "env.h"
using namespace env;

#if STD == 0
const char *const mc::property = "C05";
#else
const char *const mc::property = "C06";
#endif

namespace {
const uint64_t IV = 0x1234567890abcdefULL, IV2 = 0x234567890abcdef1ULL;

struct Keyed { AKey k; ref::MagmaKey m; std::string name; };

Keyed keyed(int words, int tab, int kind) {
	auto w = key_words(words);
	auto t = table(tab);
	Keyed r;
	r.m = ref_key(w, t);
	switch (kind) {
	case 0: r.m = ref_key(w); r.k = key_string(w); break;
	case 1: r.k = key_string(w, t); break;
	case 2: r.k = key_native(w, t, false); break;
	case 3: r.k = key_native(w, t, true); break;
	}
	r.name = "key " + std::to_string(words) + "/table " + std::to_string(tab) + "/kind " + std::to_string(kind);
	return r;
}

void differ(mc::Run &r, const char *what, const Keyed &k, const Cfb &c, const Bytes &in, const Bytes &got, const Bytes &want) {
	size_t i = 0;
	while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	r.fail("%s, %s, iv %016llx %016llx: input %s\n got  %s\n want %s\n (%zu and %zu bytes, first difference at %zu)", what, k.name.c_str(),
		(unsigned long long)c.iv, (unsigned long long)c.iv2, hex(in).c_str(), hex(got).c_str(), hex(want).c_str(), got.size(), want.size(), i);
}

// Encrypts msg in writes of `chunk` bytes
Bytes encrypt(mc::Run &r, const Cfb &c, const AKey &k, const Bytes &msg, size_t chunk) {
	SinkP s = c.sink(make_shared<RecSink>(), k);
	for (size_t at = 0; at < msg.size(); at += chunk) {
		s = s->write(dat(msg, at, std::min(chunk, msg.size() - at)));
		r.step();
	}
	s = s->finalize();
	r.step();
	auto x = rec(s);
	if (!x) r.fail("finalize did not return the sink below");
	return x->content();
}
Bytes decrypt(mc::Run &r, const Cfb &c, const AKey &k, const Bytes &text, size_t ask) {
	SourceP s = c.source(make_shared<MemSource>(text), k);
	Bytes out;
	for (;;) {
		auto x = s->read(ask);
		r.step();
		s = x.second;
		if (x.first.empty()) break;
		for (auto b : x.first) out.push_back(uint8_t(b));
		if (out.size() > text.size() + 64) break;
	}
	if (!s->read(ask).first.empty()) r.fail("data after the end of data");
	return out;
}
void check(mc::Run &r, const Cfb &c, const Keyed &k, const Bytes &msg, size_t chunk = SIZE_MAX, size_t ask = 64) {
	r.begin("%s iv %016llx %016llx length %zu chunk %zu ask %zu message %s", k.name.c_str(), (unsigned long long)c.iv,
		(unsigned long long)c.iv2, msg.size(), chunk, ask, hex(msg).c_str());
	Bytes want = c.model(k.m, msg, false);
	Bytes got = encrypt(r, c, k.k, msg, chunk);
	if (got != want) differ(r, "encryption", k, c, msg, got, want);
	Bytes back = decrypt(r, c, k.k, got, ask);
	if (back != msg) differ(r, "decryption", k, c, got, back, msg);
	r.state(mc::mix(hash(got, c.iv), hash(msg)));
	r.trace(2);
}
// Arbitrary data taken as ciphertext
void check_dec(mc::Run &r, const Cfb &c, const Keyed &k, const Bytes &text, size_t ask = 64) {
	r.begin("decryption %s iv %016llx %016llx ciphertext %s", k.name.c_str(), (unsigned long long)c.iv, (unsigned long long)c.iv2, hex(text).c_str());
	Bytes want = c.model(k.m, text, true);
	Bytes got = decrypt(r, c, k.k, text, ask);
	if (got != want) differ(r, "decryption", k, c, text, got, want);
	r.state(mc::mix(hash(got, c.iv), hash(text, 7)));
	r.trace();
}

// The message whose ciphertext is `text`
Bytes preimage(const Cfb &c, const Keyed &k, const Bytes &text) { return c.model(k.m, text, true); }

void lengths(mc::Run &r, int part, int parts) {
	size_t top = r.thorough() ? 2100 : 400;
	for (size_t n = size_t(part); n <= top; n += size_t(parts)) {
		size_t asks[] = {1, 7, 8, 9, 64, n + 1};
		size_t chunks[] = {SIZE_MAX, 1, 7, 8, 9, 64};
		for (size_t i = 0; i < 6; i++) {
			auto k = keyed(int(i), int(i) % 5, int(i) % 4);
			check(r, Cfb{STD, IV + i, IV2}, k, message(n, i), chunks[i], asks[i]);
		}
	}
	r.sample("message lengths %d, %d+%d, ... up to %zu, six keys, six chunk and request sizes each", part, part, parts, top);
}
void ivs(mc::Run &r, int part, int parts) {
	auto k = keyed(0, 1, 2), k2 = keyed(3, 0, 0);
	const auto &w = words64();
	for (size_t i = size_t(part); i < w.size(); i += size_t(parts)) {
		for (size_t n : {size_t(1), size_t(5), size_t(8), size_t(9), size_t(16), size_t(23), size_t(32)}) {
			check(r, Cfb{STD, w[i], IV2}, k, message(n, 1));
			if (STD) check(r, Cfb{STD, IV, w[i]}, k, message(n, 1));
			if (STD) check(r, Cfb{STD, w[i], w[i]}, k, message(n, 3));
			check(r, Cfb{STD, w[i], w[(i * 7 + 3) % w.size()]}, k2, message(n, 0));
		}
		if (STD)
			for (size_t j = 0; j < w.size(); j += r.thorough() ? 1 : 9) check(r, Cfb{STD, w[i], w[j]}, k, message(20, 1));
	}
}
void positions(mc::Run &r, int part, int parts) {
	auto k = keyed(0, 1, 2);
	Cfb c{STD, IV, IV2};
	for (size_t n : {size_t(24), size_t(29), size_t(31), size_t(33)}) {
		Bytes base = message(n, 1);
		for (size_t p = size_t(part); p < n; p += size_t(parts))
			for (int v = 0; v < 256; v++) {
				Bytes m = base;
				m[p] = uint8_t(v);
				check(r, c, k, m);
				check_dec(r, c, k, m);
				check(r, c, k, preimage(c, k, m));
			}
	}
	r.sample("every byte position of messages of 24, 29, 31, 33 bytes takes all 256 values, in the message and in the ciphertext");
}
void pairs(mc::Run &r, int part, int parts) {
	// two byte positions, all pairs of extreme values
	static const uint8_t vals[] = {0, 1, 0x7f, 0x80, 0xff, 0x0a, 0x0d, 0x1a, 0x20};
	auto k = keyed(4, 1, 3);
	Cfb c{STD, IV, IV2};
	for (size_t n : {size_t(16), size_t(21)}) {
		Bytes base = message(n, 5);
		for (size_t p = size_t(part); p < n; p += size_t(parts))
			for (size_t q = p + 1; q < n; q++)
				for (auto a : vals)
					for (auto b : vals) {
						Bytes m = base;
						m[p] = a; m[q] = b;
						check(r, c, k, m);
						check_dec(r, c, k, m);
					}
	}
}
// All sequences of blocks from an alphabet that makes plaintext and ciphertext blocks coincide
// with zero, all ones, the initial value, the previous and the last but one ciphertext block.
void sequences(mc::Run &r, int first) {
	auto k = keyed(0, 1, 2);
	Cfb c{STD, IV, IV2};
	const int A = 8;
	int depth = r.thorough() ? 6 : 5;
	std::vector<int> seq(size_t(depth), 0);
	for (int len = 1; len <= depth; len++) {
		std::vector<int> s(size_t(len), 0);
		s[0] = first;
		for (;;) {
			for (size_t tail : {size_t(0), size_t(3)}) {
				Bytes text, msg;
				for (int i = 0; i < len; i++) {
					Bytes zero(8, 0), t = text;
					t.insert(t.end(), 8, 0);
					Bytes g = c.model(k.m, t, true);  // its last block is the gamma
					uint64_t gamma = ref::load64(&g[text.size()]);
					auto prev = [&](size_t back) {
						if (text.size() >= 8 * back) return ref::load64(&text[text.size() - 8 * back]);
						return STD ? (text.size() + 16 >= 8 * back && text.size() + 8 < 8 * back ? IV : IV2) : IV;
					};
					uint64_t ct;
					switch (s[size_t(i)]) {
					case 0: ct = gamma; break;              // plaintext zero
					case 1: ct = ~gamma; break;             // plaintext all ones
					case 2: ct = 0; break;                  // ciphertext zero
					case 3: ct = ~0ULL; break;
					case 4: ct = IV; break;
					case 5: ct = prev(1); break;            // equals the previous ciphertext block
					case 6: ct = prev(2); break;
					default: ct = 0x00000000ffffffffULL ^ gamma; break;
					}
					uint8_t b[8];
					ref::store64(b, ct);
					text.insert(text.end(), b, b + 8);
				}
				for (size_t i = 0; i < tail; i++) text.push_back(uint8_t(i * 0x55));
				check(r, c, k, c.model(k.m, text, true));
			}
			int i = len - 1;
			while (i > 0 && ++s[size_t(i)] == A) s[size_t(i--)] = 0;
			if (i == 0) break;
		}
	}
	r.sample("all sequences of up to %d blocks over 8 block kinds starting with kind %d, tails of 0 and 3 bytes", depth, first);
}
void keys(mc::Run &r, int part, int parts) {
	Cfb c{STD, IV, IV2};
	Bytes m = message(29, 1);
	for (int bit = part; bit < 256; bit += parts)
		for (int inv = 0; inv < 2; inv++) {
			std::array<uint32_t, 8> w;
			w.fill(inv ? ~0u : 0);
			w[size_t(bit / 32)] ^= 1u << bit % 32;
			Keyed k{key_string(w), ref_key(w), "one-hot key bit " + std::to_string(bit)};
			check(r, c, k, m);
			Keyed k2{key_native(w, table(1)), ref_key(w, table(1)), "native one-hot key bit " + std::to_string(bit)};
			check(r, c, k2, m);
		}
	for (int i = part; i < 60; i += parts)
		for (int t = 0; t < 8; t++)
			for (int kind = 0; kind < 4; kind++) check(r, c, keyed(i, t, kind), m);
}
void longer(mc::Run &r, int e, size_t chunk, size_t ask) {
	auto k = keyed(5, 0, 0);
	for (long d : {-1L, 0L, 1L}) {
		size_t n = size_t((1L << e) + d) * 8 + (d == 0 ? 0 : 3);
		check(r, Cfb{STD, IV, IV2}, k, message(n, 1), chunk, ask);
	}
	r.sample("2^%d-1, 2^%d, 2^%d+1 blocks, written by %zu, read by %zu", e, e, e, chunk, ask);
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	bool th = tier == Tier::thorough;
	for (int i = 0; i < 8; i++) out.push_back({"lengths-" + std::to_string(i), [i](Run &r) { lengths(r, i, 8); }, 5});
	for (int i = 0; i < 4; i++) out.push_back({"ivs-" + std::to_string(i), [i](Run &r) { ivs(r, i, 4); }, 4});
	for (int i = 0; i < 8; i++) out.push_back({"positions-" + std::to_string(i), [i](Run &r) { positions(r, i, 8); }, 6});
	for (int i = 0; i < 4; i++) out.push_back({"pairs-" + std::to_string(i), [i](Run &r) { pairs(r, i, 4); }, 3});
	for (int i = 0; i < 8; i++) out.push_back({"sequences-" + std::to_string(i), [i](Run &r) { sequences(r, i); }, 8});
	for (int i = 0; i < 4; i++) out.push_back({"keys-" + std::to_string(i), [i](Run &r) { keys(r, i, 4); }, 4});
	for (int e = 6; e <= (th ? 20 : 16); e++) {
		out.push_back({"long-whole-2^" + std::to_string(e), [e](Run &r) { longer(r, e, SIZE_MAX, size_t(1) << 32 | 5); }, e - 4});
		out.push_back({"long-pieces-2^" + std::to_string(e), [e](Run &r) { longer(r, e, 65536, 4096); }, e - 4});
		out.push_back({"long-odd-2^" + std::to_string(e), [e](Run &r) { longer(r, e, 1000003, 65537); }, e - 4});
	}
}
