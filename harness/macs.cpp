// C10 (Magma MAC) and C12 (GOST 28147-89 MAC) against the model.
#include "env.h"
using namespace env;
#if PROP == 10
const char *const mc::property = "C10";
#else
const char *const mc::property = "C12";
#endif

namespace {
typedef std::array<uint32_t, 8> Words;
struct Keyed { LKey k; ref::MagmaKey m; std::string name; };
Keyed keyed(int words, int tab, int kind) {
	auto w = key_words(words);
	auto t = table(tab);
	Keyed r{nullptr, ref_key(w, t), "key " + std::to_string(words) + " table " + std::to_string(tab) + " kind " + std::to_string(kind)};
	switch (kind) {
	case 0: r.m = ref_key(w); r.k = key_string(w); break;
	case 1: r.k = key_string(w, t); break;
	case 2: r.k = key_native(w, t, false); break;
	default: r.k = key_native(w, t, true); break;
	}
	return r;
}
uint64_t model(const Keyed &k, const Bytes &m) {
#if PROP == 10
	return ref::mac64([&](uint64_t x) { return k.m.enc(x); }, m);
#else
	return ref::imit89([&](uint64_t x) { return k.m.mac16(x); }, m);
#endif
}
void check(mc::Run &r, const Keyed &k, const Bytes &m) {
	r.begin("%s, %zu bytes %s", k.name.c_str(), m.size(), hex(m).c_str());
	uint64_t want = model(k, m);
#if PROP == 10
	gm::Imit i(make_shared<MemSource>(m), k.k);
	for (int again = 0; again < 2; again++) {
		uint64_t got = num(i.value());
		if (got != want) r.fail("%s: MAC of %zu bytes %s is %016llx, standard %016llx%s", k.name.c_str(), m.size(), hex(m).c_str(), (unsigned long long)got, (unsigned long long)want, again ? " (second evaluation)" : "");
		if (m.size() > 4096) break;
	}
#else
	std::vector<uint8_t> in = m;
	g89::DataImit i(in, k.k);
	for (int again = 0; again < 2; again++) {
		std::vector<uint8_t> got = i.value();
		if (got.size() != 8) r.fail("MAC has %zu bytes", got.size());
		if (ref::load64(&got[0]) != want) r.fail("%s: MAC of %zu bytes %s is %016llx, standard %016llx%s", k.name.c_str(), m.size(), hex(m).c_str(), (unsigned long long)ref::load64(&got[0]), (unsigned long long)want, again ? " (second evaluation)" : "");
		if (m.size() > 4096) break;
	}
	if (in != m) r.fail("the message was altered");
#endif
	r.step(); r.trace();
	r.state(mc::mix(want, hash(m)));
}
int key_of(int i) { return i < 4 ? magma_mac_keys()[size_t(i)] : i - 4; }
void lengths(mc::Run &r, int part, int parts) {
	size_t top = r.thorough() ? 4200 : 1100;
	for (size_t n = size_t(part); n <= top; n += size_t(parts))
		for (int k = 0; k < 8; k++) check(r, keyed(key_of(k), k % 5, k < 4 ? 0 : k % 4), message(n, uint64_t(k < 5 ? k : 1)));
	r.sample("lengths %d, %d+%d, ... up to %zu, eight keys (all four K1/K2 reduction outcomes)", part, part, parts, top);
}
void positions(mc::Run &r, size_t n) {
	for (int kk = 0; kk < 4; kk++) {
		auto k = keyed(key_of(kk), kk % 2, kk == 3 ? 2 : 0);
		for (size_t p = 0; p < n; p++)
			for (int v = 0; v < 256; v++) {
				Bytes m = message(n, 1);
				m[p] = uint8_t(v);
				check(r, k, m);
			}
		// tails that look like padding, and runs of zero bytes
		for (size_t z = 0; z <= n; z++) {
			Bytes m = message(n, 1);
			for (size_t i = n - z; i < n; i++) m[i] = 0;
			check(r, k, m);
			if (z) { m[n - z] = 0x80; check(r, k, m); m[n - z] = 1; check(r, k, m); }
		}
	}
}
// Blocks that make the chaining value zero, all ones, equal to K1, ... : all sequences
void sequences(mc::Run &r, int first) {
	int depth = r.thorough() ? 6 : 5;
	const int A = 6;
	for (int kk : {1, 2}) {
		auto k = keyed(key_of(kk), 0, 0);
		auto E = [&](uint64_t x) { return PROP == 10 ? k.m.enc(x) : k.m.mac16(x); };
		for (int len = 1; len <= depth; len++) {
			std::vector<int> s(size_t(len), 0);
			s[0] = first;
			for (;;) {
				Bytes m;
				uint64_t c = 0;
				for (int i = 0; i < len; i++) {
					uint64_t b;
					switch (s[size_t(i)]) {
					case 0: b = 0; break;
					case 1: b = ~0ULL; break;
					case 2: b = c; break;                 // input of the cipher is zero
					case 3: b = ~c; break;
					case 4: b = c ^ ref::dbl64(k.m.enc(0)); break;
					default: b = 0x80; break;
					}
					uint8_t t[8];
					ref::store64(t, b);
					m.insert(m.end(), t, t + 8);
					c = E(c ^ b);
				}
				check(r, k, m);
				if (len < depth) for (size_t tail : {size_t(1), size_t(4), size_t(7)}) { Bytes q = m; q.insert(q.end(), tail, uint8_t(s[size_t(len) - 1] == 1 ? 0xff : 0)); check(r, k, q); }
				int i = len - 1;
				while (i > 0 && ++s[size_t(i)] == A) s[size_t(i--)] = 0;
				if (i == 0) break;
			}
		}
	}
}
// All messages over a small alphabet of bytes
void tiny(mc::Run &r, int kk) {
	auto k = keyed(key_of(kk), kk % 2, kk % 2 ? 2 : 0);
	static const uint8_t a[] = {0, 0x80, 0xff};
	for (size_t n = 0; n <= (r.thorough() ? 10u : 8u); n++) {
		size_t total = 1;
		for (size_t i = 0; i < n; i++) total *= 3;
		for (size_t x = 0; x < total; x++) {
			Bytes m(n);
			size_t y = x;
			for (size_t i = 0; i < n; i++) { m[i] = a[y % 3]; y /= 3; }
			check(r, k, m);
		}
	}
	for (size_t n = 9; n <= 24; n++)     // the same at the end of longer messages
		for (size_t x = 0; x < 243; x++) {
			Bytes m = message(n, 1);
			size_t y = x;
			for (size_t i = 0; i < 5; i++) { m[n - 1 - i] = a[y % 3]; y /= 3; }
			check(r, k, m);
		}
}
void keys(mc::Run &r, int part, int parts) {
	for (int bit = part; bit < 256; bit += parts)
		for (int inv = 0; inv < 2; inv++) {
			Words w;
			w.fill(inv ? ~0u : 0);
			w[size_t(bit / 32)] ^= 1u << bit % 32;
			Keyed a{key_string(w), ref_key(w), "text key bit " + std::to_string(bit)}, b{key_native(w, table(1)), ref_key(w, table(1)), "native key bit " + std::to_string(bit)};
			for (size_t n : {size_t(0), size_t(3), size_t(8), size_t(16), size_t(21), size_t(24)}) { check(r, a, message(n, 1)); check(r, b, message(n, 1)); }
		}
	for (int i = part; i < (r.thorough() ? 400 : 80); i += parts)
		for (int t = 0; t < 8; t++)
			for (int kind = 0; kind < 4; kind++)
				for (size_t n : {size_t(0), size_t(7), size_t(8), size_t(16), size_t(20)}) check(r, keyed(i, t, kind), message(n, 1));
}
void longer(mc::Run &r, int e) {
	for (long d : {-1L, 0L, 1L})
		for (size_t tail : {size_t(0), size_t(5)}) check(r, keyed(key_of(e % 4), 0, 0), message(size_t((1L << e) + d) * 8 + tail, 1));
}
#if PROP == 12
void block16(mc::Run &r, int kk) {
	auto k = keyed(kk, kk % 5, kk % 4);
	auto one = [&](uint64_t x) {
		uint64_t got = num(g89::ImitedBlock(gm::BlkRaw(x), k.k).value().value());
		if (got != k.m.mac16(x)) r.fail("16 rounds of %016llx give %016llx, standard %016llx", (unsigned long long)x, (unsigned long long)got, (unsigned long long)k.m.mac16(x));
		r.step(); r.trace(); r.state(got);
	};
	r.begin("key %d: 16-round transformation", kk);
	for (auto x : words64()) one(x);
	for (int pos = 0; pos < 8; pos++) for (uint64_t v = 0; v < 256; v++) one((0x0123456789abcdefULL & ~(0xffULL << 8 * pos)) | v << 8 * pos);
}
#endif
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	auto S = [](const char *n, size_t i) { return std::string(n) + "-" + std::to_string(i); };
	for (int i = 0; i < 8; i++) out.push_back({S("lengths", size_t(i)), [i](Run &r) { lengths(r, i, 8); }, 5});
	for (size_t n : {1, 2, 4, 7, 8, 9, 15, 16, 17, 20, 24, 31}) out.push_back({S("positions", n), [n](Run &r) { positions(r, n); }, 4});
	for (int i = 0; i < 6; i++) out.push_back({S("sequences", size_t(i)), [i](Run &r) { sequences(r, i); }, 4});
	for (int i = 0; i < 4; i++) out.push_back({S("tiny", size_t(i)), [i](Run &r) { tiny(r, i); }, 4});
	for (int i = 0; i < 8; i++) out.push_back({S("keys", size_t(i)), [i](Run &r) { keys(r, i, 8); }, 4});
	for (int e = 7; e <= (tier == Tier::thorough ? 19 : 16); e++) out.push_back({S("long", size_t(e)), [e](Run &r) { longer(r, e); }, e - 6});
#if PROP == 12
	for (int i = 0; i < 8; i++) out.push_back({S("block16", size_t(i)), [i](Run &r) { block16(r, i); }, 1});
#endif
}
