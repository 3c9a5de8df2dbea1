// Long messages (PROP 5, 6, 9, 10, 11, 12, 13, 14), optimised build: numbers of bytes and blocks about 2^17 and beyond.
#include "env.h"
#include <unistd.h>
using namespace env;
using ref::U128;
#define STR2(x) #x
#define STR(x) STR2(x)
#if PROP < 10
const char *const mc::property = "C0" STR(PROP);
#else
const char *const mc::property = "C" STR(PROP);
#endif

namespace {
// A message that is made up on the way; every byte depends on its place
uint8_t at(size_t i) { uint64_t x = scramble(i / 8 + 77); return uint8_t(x >> i % 8 * 8); }
Bytes text(size_t n) {
	Bytes b(n);
	for (size_t i = 0; i < n; i += 8) {
		uint64_t x = scramble(i / 8 + 77);
		for (size_t j = i; j < n && j < i + 8; j++) { b[j] = uint8_t(x); x >>= 8; }
	}
	return b;
}
class Made final : public goost::Source {
public:
	Made(size_t pos, size_t end, size_t piece) : pos(pos), end(end), piece(piece) {}
	std::pair<Data, SourceP> read(size_t n) const override {
		size_t k = std::min(std::min(n, piece), end - pos);
		Data d(k);
		for (size_t i = 0; i < k; i++) d[i] = std::byte(at(pos + i));
		return {d, make_shared<Made>(pos + k, end, piece)};
	}
private:
	const size_t pos, end, piece;
};
void same(mc::Run &r, const char *what, const Bytes &got, const Bytes &want) {
	if (got == want) return;
	size_t i = 0;
	while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	r.fail("%s: %zu and %zu bytes, first difference at byte %zu", what, got.size(), want.size(), i);
}
Bytes put(mc::Run &r, SinkP s, const Bytes &m, size_t chunk) {
	for (size_t p = 0; p < m.size(); p += std::min(chunk, m.size() - p)) { s = s->write(dat(m, p, std::min(chunk, m.size() - p))); r.step(); }
	s = s->finalize();
	auto x = rec(s);
	if (!x) r.fail("finalize did not return the sink below");
	return x->content();
}
Bytes get(mc::Run &r, SourceP s, size_t ask, size_t limit) {
	Bytes out;
	out.reserve(limit);
	for (;;) {
		auto x = s->read(ask);
		r.step();
		s = x.second;
		if (x.first.empty()) break;
		for (auto b : x.first) out.push_back(uint8_t(b));
		if (out.size() > limit) r.fail("more data than there are");
	}
	return out;
}
const std::array<uint32_t, 8> W = key_words(5);


#if PROP == 5 || PROP == 6 || PROP == 9
// The mode's model, block by block
struct Model {
	ref::MagmaKey m = ref_key(W);
	std::array<uint64_t, 2> reg{{0x1234567890abcdefULL, 0x234567890abcdef1ULL}};
	uint64_t operator()(uint64_t plain) {
		if (PROP == 9) return m.enc(plain);
		uint64_t c = m.enc(reg[0]) ^ plain;
		if (PROP == 5) reg[0] = c; else { reg[0] = reg[1]; reg[1] = c; }
		return c;
	}
};
Cfb cfb() { return {PROP == 6, 0x1234567890abcdefULL, 0x234567890abcdef1ULL}; }
SinkP mode_sink(const SinkP &s, const AKey &k) { return PROP == 9 ? SinkP(make_shared<gm::ECBSink>(s, k)) : cfb().sink(s, k); }
SourceP mode_source(const SourceP &s, const AKey &k) { return PROP == 9 ? SourceP(make_shared<gm::ECBSource>(s, k)) : cfb().source(s, k); }
uint64_t plain_block(size_t i) { return scramble(i + 77); }

// n: whole blocks, tail: bytes after them
void one(mc::Run &r, size_t n, size_t tail, size_t chunk, size_t ask) {
	if (PROP == 9) tail = 0;
	r.begin("%zu blocks and %zu bytes, by %zu and %zu", n, tail, chunk, ask);
	auto k = key_string(W);
	Bytes p = text(n * 8 + tail), want(p.size());
	Model m;
	for (size_t i = 0; i * 8 < p.size(); i++) {
		uint64_t c = m(plain_block(i));
		for (size_t j = i * 8; j < p.size() && j < i * 8 + 8; j++) { want[j] = uint8_t(c); c >>= 8; }
	}
	same(r, "encryption", put(r, mode_sink(make_shared<RecSink>(), k), p, chunk), want);
	same(r, "decryption", get(r, mode_source(make_shared<MemSource>(want), k), ask, p.size()), p);
	r.step(n); r.trace(); r.state(mc::mix(mc::mix(n, tail), mc::mix(chunk, ask)));
}
// Compares what is written with the model and forgets it
struct Check { mc::Run &r; Model m; uint64_t c; };
class CheckSink final : public goost::Sink {
public:
	CheckSink(Check &c, size_t pos) : pos(pos), c(c) {}
	SinkP write(const Data &d) const override {
		for (size_t i = 0; i < d.size(); i++) {
			size_t p = pos + i;
			if (p % 8 == 0) { c.c = c.m(plain_block(p / 8)); if (p % (1 << 20) == 0) { c.r.step(1 << 17); c.r.state(c.c); } }
			if (uint8_t(d[i]) != uint8_t(c.c >> p % 8 * 8)) c.r.fail("ciphertext byte %zu is wrong", p);
		}
		return make_shared<CheckSink>(c, pos + d.size());
	}
	SinkP finalize() const override { return make_shared<CheckSink>(c, pos); }
	const size_t pos;
private:
	Check &c;
};
// The ciphertext of the made-up message, for those who read it once
class CipherSource final : public goost::Source {
public:
	CipherSource(Check &c, size_t pos, size_t end) : c(c), pos(pos), end(end) {}
	std::pair<Data, SourceP> read(size_t n) const override {
		n = std::min(n, end - pos);
		Data d(n);
		for (size_t i = 0; i < n; i++) {
			size_t p = pos + i;
			if (p % 8 == 0) { c.c = c.m(plain_block(p / 8)); if (p % (1 << 20) == 0) { c.r.step(1 << 17); c.r.state(c.c); } }
			d[i] = std::byte(c.c >> p % 8 * 8);
		}
		return {d, make_shared<CipherSource>(c, pos + n, end)};
	}
private:
	Check &c;
	const size_t pos, end;
};
void far_sink(mc::Run &r, size_t n) {
	r.begin("%zu bytes written by 1 MB", n);
	Check c{r, {}, 0};
	SinkP s = mode_sink(make_shared<CheckSink>(c, 0), key_string(W));
	for (size_t p = 0; p < n;) {
		Data d(std::min(n - p, size_t(1) << 20));
		for (size_t i = 0; i < d.size(); i++) d[i] = std::byte(at(p + i));
		s = s->write(d);
		p += d.size();
	}
	auto e = std::dynamic_pointer_cast<const CheckSink>(s->finalize());
	if (!e || e->pos != n) r.fail("%zu bytes arrived of %zu", e ? e->pos : 0, n);
	r.trace();
}
void far_source(mc::Run &r, size_t n) {
	r.begin("%zu bytes read by 1 MB", n);
	Check c{r, {}, 0};
	SourceP s = mode_source(make_shared<CipherSource>(c, 0, n), key_string(W));
	size_t p = 0;
	for (;;) {
		auto x = s->read(1 << 20);
		s = x.second;
		if (x.first.empty()) break;
		for (auto b : x.first) { if (uint8_t(b) != at(p)) r.fail("plaintext byte %zu is wrong", p); p++; }
	}
	if (p != n) r.fail("%zu bytes arrived of %zu", p, n);
	r.trace();
}
#elif PROP == 10 || PROP == 12
class Beating final : public goost::Source {
public:
	Beating(mc::Run &r, const SourceP &s, size_t pos) : r(r), s(s), pos(pos) {}
	std::pair<Data, SourceP> read(size_t n) const override {
		auto x = s->read(n);
		if (pos >> 20 != (pos + x.first.size()) >> 20) { r.step(1 << 17); r.state(pos); }
		return {x.first, make_shared<Beating>(r, x.second, pos + x.first.size())};
	}
private:
	mc::Run &r;
	const SourceP s;
	const size_t pos;
};
uint64_t model(size_t n) {
	auto m = ref_key(W);
	auto E = [&](uint64_t x) { return PROP == 10 ? m.enc(x) : m.mac16(x); };
	size_t blocks = n / 8, tail = n % 8;
	uint64_t c = 0, last = tail ? scramble(blocks + 77) & ((1ULL << tail * 8) - 1) : 0;
	if (PROP == 12) {
		for (size_t i = 0; i < blocks; i++) c = E(c ^ scramble(i + 77));
		return tail ? E(c ^ last) : c;
	}
	uint64_t k1 = ref::dbl64(E(0)), k2 = ref::dbl64(k1);
	for (size_t i = 0; i + (tail ? 0 : 1) < blocks; i++) c = E(c ^ scramble(i + 77));
	return tail ? E(c ^ last ^ 0x80ULL << tail * 8 ^ k2) : E(c ^ scramble(blocks - 1 + 77) ^ k1);
}
void one(mc::Run &r, size_t n, size_t tail, size_t piece, size_t) {
	size_t len = n * 8 + tail;
	r.begin("%zu bytes, in pieces of %zu", len, piece);
	auto k = key_string(W);
	uint64_t want = model(len), got;
	if (PROP == 10) got = num(gm::Imit(make_shared<Beating>(r, make_shared<Made>(0, len, piece), 0), k).value());
	else {
		auto t = text(len);
		r.step();
		got = ref::load64(&g89::DataImit(t, k).value()[0]);
	}
	if (got != want) r.fail("MAC %016llx, standard %016llx", (unsigned long long)got, (unsigned long long)want);
	r.step(n); r.trace(); r.state(got);
}
#elif PROP == 11 || PROP == 13
// n made-up blocks, `tail` bytes of the last one are valid
class Gen final : public gk::Stream {
public:
	class I final : public gk::Iterator {
	public:
		I(mc::Run &r, size_t i, size_t n, size_t tail) : r(r), i(i), n(n), tail(tail) { if (i % 16384 == 0) r.step(16384); }
		std::pair<uint64_t, uint64_t> value() const override { return {scramble(i), ~i}; }
		bool last() const override { return i + 1 == n; }
		size_t size() const override { return i + 1 == n ? tail : 16; }
		shared_ptr<const gk::Iterator> next() const override { if (i + 1 == n) return {}; return make_shared<I>(r, i + 1, n, tail); }
	private:
		mc::Run &r;
		const size_t i, n, tail;
	};
	Gen(mc::Run &r, size_t n, size_t tail) : r(r), n(n), tail(tail) {}
	shared_ptr<const gk::Iterator> iter() const override { return make_shared<I>(r, 0, n, tail); }
private:
	mc::Run &r;
	const size_t n, tail;
};
void one(mc::Run &r, size_t n, size_t tail, size_t, size_t) {
	auto kw = kuz_words(3);
	auto k = kuz_key(kw);
	auto m = ref_kuz(kw);
	if (!tail) tail = 16;
	r.begin("%zu blocks, %zu bytes in the last one", n, tail);
	auto block = [](size_t i) { return U128{scramble(i), ~i}; };
#if PROP == 11
	U128 k1 = ref::dbl128(m.enc({0, 0})), k2 = ref::dbl128(k1), c{0, 0};
	for (size_t i = 0; i + 1 < n; i++) c = m.enc(c ^ block(i));
	U128 l = block(n - 1), p{0, 0};
	for (size_t i = 0; i < tail; i++) p.set(int(i), l.byte(int(i)));
	if (tail < 16) p.set(int(tail), 0x80);
	U128 want = m.enc(c ^ p ^ (tail < 16 ? k2 : k1));
	U128 got = ref::u128(gk::Imit(make_shared<Gen>(r, n, tail), k).value());
	if (got != want) r.fail("MAC %s, standard %s", hexnum(got).c_str(), hexnum(want).c_str());
	r.state(got.lo);
#else
	const uint64_t iv = 0xfedcba9876543210ULL;
	auto it = make_shared<gk::StCTREncrypted>(make_shared<Gen>(r, n, tail), k, iv)->iter();
	for (size_t i = 0; i < n; i++) {
		if (!it) r.fail("no block %zu of %zu", i, n);
		U128 want = ref::ctr_block([&](U128 x) { return m.enc(x); }, iv, i, block(i)), got = ref::u128(it->value());
		if (got != want) r.fail("CTR: block %zu is %s, expected %s", i, hexnum(got).c_str(), hexnum(want).c_str());
		if (it->last() != (i + 1 == n) || it->size() != (i + 1 == n ? tail : 16)) r.fail("block %zu of %zu: last or size is wrong", i, n);
		it = it->next();
		if (i % 4096 == 0) { r.step(4096); r.state(got.lo); }
	}
	if (it) r.fail("more than %zu blocks", n);
#endif
	r.step(n); r.trace();
}
#else
// Memory streams of n words; none of them are held twice longer than the library does
void one(mc::Run &r, size_t n) {
	r.begin("a memory stream of %zu words", n);
	size_t pages = size_t(sysconf(_SC_AVPHYS_PAGES)) * size_t(sysconf(_SC_PAGESIZE));
	if (pages < n * 16 + (size_t(8) << 30)) { r.capped("memory: no stream of 4 GB"); return; }
	shared_ptr<const gk::Iterator> it;
	{
		std::vector<uint64_t> w(n);
		for (size_t i = 0; i < n; i++) w[i] = i * 0x9e3779b97f4a7c15ULL;
		r.step();
		it = make_shared<gk::StMemory>(w)->iter();
		r.step();
	}
	for (size_t i = 0; i < n; i += 2) {
		auto v = it->value();
		bool l = i + 2 >= n;
		// last() of a very long stream is asked for about the powers of two only
		bool look = n < 1 << 24 || ((i & (i + 2)) & 0xfffff) == 0 || i + 64 > n;
		if (v.first != i * 0x9e3779b97f4a7c15ULL || v.second != (i + 1 < n ? (i + 1) * 0x9e3779b97f4a7c15ULL : 0) || it->size() != (i + 1 < n ? 16u : 8u) || (look && it->last() != l))
			r.fail("%zu words: block %zu is wrong", n, i / 2);
		auto nx = it->next();
		if (bool(nx) == l) r.fail("%zu words: block %zu %s", n, i / 2, l ? "has a next one" : "has no next one");
		it = nx;
		if ((i & 0xffffe) == 0) { r.step(1 << 20); r.trace(); r.state(i); }
	}
}
#endif
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	bool th = tier == Tier::thorough;
	auto add = [&](const std::string &name, const std::function<void(Run &)> &f, int cost, size_t mb = 5000) { out.push_back({name, f, cost, mb}); };
#if PROP == 14
	for (int e = 18; e <= (th ? 26 : 22); e++)
		for (long d = -1; d <= 1; d++) { size_t n = size_t((1L << e) + d); add("words-" + std::to_string(n), [n](Run &r) { one(r, n); }, e); }
	add("4GB", [](Run &r) { one(r, (size_t(1) << 29) + 7); }, 60, 20000);
#else
	const int top = PROP == 11 || PROP == 13 ? (th ? 22 : 18) : (th ? 25 : 21);
	for (int e = 17; e <= top; e++)
		for (long d = -1; d <= 1; d++) {
			size_t n = size_t((1L << e) + d), big = e < 23 ? SIZE_MAX : size_t(1) << 24;
			add("blocks-" + std::to_string(n), [=](Run &r) { one(r, n, d ? 0 : 5, d ? big : PROP == 9 ? 1000000 : 1000003, d ? big : 65537); }, e);
		}
#if PROP == 5 || PROP == 6 || PROP == 9
	size_t huge = th ? (size_t(1) << 32) + 64 : (size_t(1) << 24) + 64;
	add("far-sink", [=](Run &r) { far_sink(r, huge); }, 60);
	add("far-source", [=](Run &r) { far_source(r, huge); }, 60);
#elif PROP == 10
	if (th) add("4GB", [](Run &r) { one(r, (size_t(1) << 29) + 1, 3, SIZE_MAX, 0); }, 60);
#elif PROP == 12
	if (th) add("2GB", [](Run &r) { one(r, (size_t(1) << 28) + 1, 3, SIZE_MAX, 0); }, 60, 20000);
#endif
#endif
}
