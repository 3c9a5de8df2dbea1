// C21: stack depth independent of the length, evaluations and allocations proportional to it.
// C25: memory held independent of the length, and given back.
#include "env.h"
#include <pthread.h>
#include <sys/mman.h>
using namespace env;
using ref::U128;
#if PROP == 25
const char *const mc::property = "C25";
#else
const char *const mc::property = "C21";
#endif

namespace {
uint64_t transforms;    // evaluations of the round function / of the stream's blocks
AKey counting_key() {
	return make_shared<StubKey>([](uint32_t v, int i) { transforms++; return v * 2654435761u + uint32_t(i); });
}
LKey counting_lazy_key() {
	return make_shared<gm::LazyKey>(std::unique_ptr<const gm::KeyData>(make_unique<StubKeyData>([](int i) { return uint32_t(i) * 77u; })),
		make_shared<StubSbox>([](uint32_t v) { transforms++; return v * 2654435761u; }));
}
// A source that makes up its bytes and records nothing
class Endless final : public goost::Source {
public:
	Endless(size_t pos, size_t end, size_t piece) : pos(pos), end(end), piece(piece) {}
	std::pair<Data, SourceP> read(size_t n) const override {
		size_t k = std::min(std::min(n, piece), end - pos);
		Data d(k);
		for (size_t i = 0; i < k; i++) d[i] = std::byte((pos + i) * 13);
		return {d, make_shared<Endless>(pos + k, end, piece)};
	}
private:
	const size_t pos, end, piece;
};
// Forgets what is written to it
class Hole final : public goost::Sink {
public:
	explicit Hole(size_t n) : n(n) {}
	SinkP write(const Data &d) const override { return make_shared<Hole>(n + d.size()); }
	SinkP finalize() const override { return make_shared<Hole>(n); }
	const size_t n;
};
// A stream of n made-up blocks
class Gen final : public gk::Stream {
public:
	class I final : public gk::Iterator {
	public:
		I(size_t i, size_t n) : i(i), n(n) {}
		std::pair<uint64_t, uint64_t> value() const override { transforms++; return {i * 3, ~i}; }
		bool last() const override { return i + 1 == n; }
		size_t size() const override { return 16; }
		shared_ptr<const gk::Iterator> next() const override { if (i + 1 == n) return {}; return make_shared<I>(i + 1, n); }
	private:
		const size_t i, n;
	};
	explicit Gen(size_t n) : n(n) {}
	shared_ptr<const gk::Iterator> iter() const override { return make_shared<I>(0, n); }
private:
	const size_t n;
};
const Cfb modes[2] = {{0, 0x1234567890abcdefULL, 0}, {1, 0x1234567890abcdefULL, 0x234567890abcdef1ULL}};
SinkP any_sink(int mode, const AKey &k) { auto h = make_shared<Hole>(0); return mode == 2 ? SinkP(make_shared<gm::ECBSink>(h, k)) : modes[mode].sink(h, k); }
SourceP any_source(int mode, const SourceP &s, const AKey &k) { return mode == 2 ? SourceP(make_shared<gm::ECBSource>(s, k)) : modes[mode].source(s, k); }

// f(number of blocks); held: bytes per block that are handed over in a single call (or kept by the workload itself)
struct Work { std::string name; std::function<void(size_t)> f; int heavy; size_t held = 0; };
const size_t ALL = size_t(1) << 20;
std::vector<Work> &works() {
	static std::vector<Work> w;
	if (!w.empty()) return w;
	static const char *const mn[] = {"28147-89 CFB", "R 34.13 CFB", "ECB"};
	for (int m = 0; m < 3; m++) {
		std::string n = mn[m];
		w.push_back({n + " sink, one write", [m](size_t b) {
			auto s = any_sink(m, counting_key())->write(Data(b * 8 + (m == 2 ? 0 : 5), std::byte(7)))->finalize();
		}, 0, 8});
		w.push_back({n + " sink, a write per block", [m](size_t b) {
			auto s = any_sink(m, counting_key());
			for (size_t i = 0; i < b; i++) s = s->write(Data(8, std::byte(i)));
			s = s->finalize();
		}, 0});
		if (m < 2) w.push_back({n + " sink, a write per byte", [m](size_t b) {
			auto s = any_sink(m, counting_key());
			for (size_t i = 0; i < b * 8 + 3; i++) s = s->write(Data(1, std::byte(i)));
			s = s->finalize();
		}, 0});
		w.push_back({n + " sink, writes of 24 bytes, all objects kept", [m](size_t b) {
			std::vector<SinkP> keep{any_sink(m, counting_key())};
			for (size_t i = 0; i < b; i += 3) keep.push_back(keep.back()->write(Data(24, std::byte(i))));
			keep.push_back(keep.back()->finalize());
			SinkP last = keep.back();
			keep.clear();
		}, 0, ALL});
		if (m < 2) w.push_back({n + " source, one read", [m](size_t b) {
			auto s = any_source(m, make_shared<Endless>(0, b * 8 + 5, SIZE_MAX), counting_key());
			auto x = s->read(b * 8 + 5);
			if (x.first.size() != b * 8 + 5) throw std::runtime_error("short read");
		}, 0, 8});
		w.push_back({n + " source, a read per block", [m](size_t b) {
			auto s = any_source(m, make_shared<Endless>(0, b * 8, SIZE_MAX), counting_key());
			for (;;) { auto x = s->read(8); if (x.first.empty()) break; s = x.second; }
		}, 0});
		w.push_back({n + " source over single bytes", [m](size_t b) {
			auto s = any_source(m, make_shared<Endless>(0, b * 8, 1), counting_key());
			for (;;) { auto x = s->read(8); if (x.first.empty()) break; s = x.second; }
		}, 0});
		if (m < 2) w.push_back({n + " source, one read over single bytes", [m](size_t b) {
			auto s = any_source(m, make_shared<Endless>(0, b * 8 + 5, 1), counting_key());
			s->read(b * 8 + 9);
		}, 0, 8});
		if (m < 2) w.push_back({n + " source, reads of single bytes", [m](size_t b) {
			auto s = any_source(m, make_shared<Endless>(0, b * 8, SIZE_MAX), counting_key());
			for (;;) { auto x = s->read(1); if (x.first.empty()) break; s = x.second; }
		}, 0});
	}
	w.push_back({"Magma MAC", [](size_t b) { gm::Imit(make_shared<Endless>(0, b * 8, SIZE_MAX), counting_lazy_key()).value(); }, 0});
	w.push_back({"Magma MAC, incomplete end, single bytes", [](size_t b) { gm::Imit(make_shared<Endless>(0, b * 8 + 3, 1), counting_lazy_key()).value(); }, 0});
	w.push_back({"Magma MAC of decrypted data", [](size_t b) {
		auto k = counting_lazy_key();
		gm::Imit(modes[1].source(make_shared<Endless>(0, b * 8 + 3, SIZE_MAX), k), k).value();
	}, 0});
	w.push_back({"GOST 28147-89 MAC", [](size_t b) { g89::DataImit(std::vector<uint8_t>(b * 8 + 3, 5), counting_lazy_key()).value(); }, 0, 8});
	static KKey kk;
	auto key = [] { if (!kk) { kk = kuz_key(kuz_words(3)); kk->encrypt(make_shared<gk::BlkRaw>(1, 2))->value(); } return kk; };
	w.push_back({"Kuznyechik MAC", [key](size_t b) { gk::Imit(make_shared<Gen>(b), key()).value(); }, 1});
	w.push_back({"Kuznyechik MAC of a memory stream", [key](size_t b) { gk::Imit(make_shared<gk::StMemory>(std::vector<uint64_t>(b * 2 + 1, 5)), key()).value(); }, 1, 16});
	w.push_back({"Kuznyechik MAC of a CTR stream", [key](size_t b) { gk::Imit(make_shared<gk::StCTREncrypted>(make_shared<Gen>(b), key(), 5), key()).value(); }, 2});
	w.push_back({"CTR, every block", [key](size_t b) {
		auto it = make_shared<gk::StCTREncrypted>(make_shared<Gen>(b), key(), 5)->iter();
		for (;;) { it->value(); if (it->last()) break; it = it->next(); }
	}, 1});
	w.push_back({"CTR, only the last block", [key](size_t b) {
		auto it = make_shared<gk::StCTREncrypted>(make_shared<Gen>(b), key(), 5)->iter();
		while (!it->last()) it = it->next();
		it->value();
	}, 0});
	w.push_back({"CTR over a memory stream, all iterators kept", [key](size_t b) {
		std::vector<shared_ptr<const gk::Iterator>> keep{make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(std::vector<uint64_t>(b * 2, 5)), key(), 5)->iter()};
		while (!keep.back()->last()) keep.push_back(keep.back()->next());
		keep.back()->value();
		auto l = keep.back();
		keep.clear();
	}, 0, ALL});
	w.push_back({"memory stream", [](size_t b) {
		auto it = make_shared<gk::StMemory>(std::vector<uint64_t>(b * 2, 5))->iter();
		for (;;) { it->value(); if (it->last()) break; it = it->next(); }
	}, 0, 16});
	return w;
}
// ---------------------------------------------------------------- stack
const size_t STACK = size_t(1) << 30;
struct Arg { const std::function<void(size_t)> *f; size_t n; std::string err; };
void *body(void *p) {
	auto *a = static_cast<Arg *>(p);
	try { (*a->f)(a->n); } catch (const std::exception &e) { a->err = e.what(); } catch (...) { a->err = "an error"; }
	return nullptr;
}
// Bytes of stack the operation used: fresh zero pages, the lowest touched word tells
size_t stack_of(mc::Run &r, const Work &w, size_t n) {
	char *s = static_cast<char *>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (s == MAP_FAILED) { fprintf(stderr, "no memory for a stack\n"); abort(); }
	mprotect(s, 4096, PROT_NONE);
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstack(&at, s, STACK);
	Arg a{&w.f, n, ""};
	pthread_t t;
	if (pthread_create(&t, &at, body, &a)) { fprintf(stderr, "no thread\n"); abort(); }
	pthread_join(t, nullptr);
	pthread_attr_destroy(&at);
	if (!a.err.empty()) r.fail("%s, %zu blocks: %s", w.name.c_str(), n, a.err.c_str());
	std::vector<unsigned char> core(STACK / 4096);
	if (mincore(s, STACK, core.data())) { fprintf(stderr, "mincore\n"); abort(); }
	size_t low = STACK;
	for (size_t p = 1; p < core.size(); p++)
		if (core[p] & 1) {
			bool dirty = false;
			for (size_t i = 0; i < 4096 && !dirty; i += 8) if (*reinterpret_cast<uint64_t *>(s + p * 4096 + i)) { dirty = true; low = p * 4096 + i; }
			if (dirty) break;
		}
	munmap(s, STACK);
	return STACK - low;
}
void stack(mc::Run &r, const Work &w) {
	size_t base = 0;
	std::vector<size_t> ns{2, 17, 64, 1000, 16384, 65537};
	if (w.heavy == 0) ns.push_back(300000);
	if (r.thorough()) { ns.push_back(262145); if (w.heavy == 0) ns.push_back(2000003); }
	for (size_t n : ns) {
		r.begin("%s: stack for %zu blocks", w.name.c_str(), n);
		size_t d = stack_of(r, w, n);
		if (n <= 64) base = std::max(base, d);
		else if (d > base + 16384) r.fail("%s: %zu bytes of stack for %zu blocks, %zu for up to 64 blocks", w.name.c_str(), d, n, base);
		r.step(); r.trace(); r.state(mc::mix(mc::hash_bytes(w.name.data(), w.name.size()), n));
	}
	r.sample("%s: %zu bytes of stack at any length", w.name.c_str(), base);
}
void counts(mc::Run &r, const Work &w) {
	uint64_t pt = 0, pa = 0, pv = 0;
	size_t pn = 0;
	int top = w.heavy ? (r.thorough() ? 15 : 12) : (r.thorough() ? 17 : 14);
	w.f(4);
	// every number of blocks up to 64, then doubling
	uint64_t t64 = 0, a64 = 0, v64 = 0;
	std::vector<size_t> ns;
	for (size_t n = 1; n <= 64; n++) ns.push_back(n);
	for (int e = 7; e <= top; e++) ns.push_back(size_t(1) << e);
	for (size_t n : ns) {
		r.begin("%s: evaluations and allocations for %zu blocks", w.name.c_str(), n);
		transforms = 0;
		uint64_t a = mc::Alloc::count(), v = mc::Alloc::volume();
		w.f(n);
		a = mc::Alloc::count() - a;
		v = mc::Alloc::volume() - v;
		uint64_t t = transforms;
		if (n == 64) { t64 = t; a64 = a; v64 = v; }
		if (n > 64) {
			// 64 blocks set the price per block
			if (double(t) > 2.0 * double(t64) * double(n) / 64 + 500) r.fail("%s: %llu evaluations for %zu blocks, %llu for 64", w.name.c_str(), (unsigned long long)t, n, (unsigned long long)t64);
			if (double(a) > 2.0 * double(a64) * double(n) / 64 + 500) r.fail("%s: %llu allocations for %zu blocks, %llu for 64", w.name.c_str(), (unsigned long long)a, n, (unsigned long long)a64);
			if (double(v) > 2.0 * double(v64) * double(n) / 64 + 65536 || (n / 2 == pn && double(v) > 2.5 * double(pv) + 65536))
				r.fail("%s: %llu bytes allocated in all for %zu blocks, %llu for %zu, %llu for 64", w.name.c_str(), (unsigned long long)v, n, (unsigned long long)pv, pn, (unsigned long long)v64);
			if (n / 2 == pn && (double(t) > 2.3 * double(pt) + 500 || double(a) > 2.3 * double(pa) + 500))
				r.fail("%s: from %zu to %zu blocks evaluations grow from %llu to %llu, allocations from %llu to %llu", w.name.c_str(), pn, n, (unsigned long long)pt, (unsigned long long)t, (unsigned long long)pa, (unsigned long long)a);
		}
		pt = t; pa = a; pv = v; pn = n;
		r.step(); r.trace(); r.state(mc::mix(mc::hash_bytes(w.name.data(), w.name.size()), n + 1000000));
	}
	// within the first 64 blocks, too: no sudden growth
	transforms = 0; uint64_t a8 = mc::Alloc::count(); w.f(8); a8 = mc::Alloc::count() - a8;
	uint64_t t8 = transforms;
	if (double(t64) > 9.0 * double(t8) + 500 || double(a64) > 9.0 * double(a8) + 500)
		r.fail("%s: %llu evaluations and %llu allocations for 8 blocks, %llu and %llu for 64", w.name.c_str(), (unsigned long long)t8, (unsigned long long)a8, (unsigned long long)t64, (unsigned long long)a64);
}
#if PROP == 25
// Held at most while the workload runs
void held(mc::Run &r, const Work &w) {
	w.f(4);
	using mc::Alloc;
	int64_t base = 0, most = 0;
	std::vector<size_t> ns{1, 2, 3, 5, 8, 16, 33, 64, 100, 255, 256, 257, 1000, 4096, 4097};
	ns.push_back(16385);
	if (!w.heavy || r.thorough()) ns.push_back(65537);
	if (r.thorough() && !w.heavy) { ns.push_back(262145); ns.push_back(1000003); }
	for (size_t n : ns) {
		r.begin("%s: memory held for %zu blocks", w.name.c_str(), n);
		Alloc::track();
		w.f(n);
		Alloc::untrack();
		int64_t p = Alloc::peak();
		if (n <= 64) base = std::max(base, p);
		else if (p > base + 65536 + int64_t(8 * w.held * n))
			r.fail("%s: %lld bytes held at once for %zu blocks, %lld for up to 64 blocks", w.name.c_str(), (long long)p, n, (long long)base);
		most = std::max(most, p);
		r.step(); r.trace(); r.state(mc::mix(mc::hash_bytes(w.name.data(), w.name.size()), n));
	}
	r.sample("%s: at most %lld bytes held, %lld for up to 64 blocks", w.name.c_str(), (long long)most, (long long)base);
}
void given_back(mc::Run &r, const std::string &name, const std::function<void(size_t)> &f, size_t first, size_t second) {
	r.begin("%s: memory given back", name.c_str());
	using mc::Alloc;
	Alloc::track();
	size_t i = 0;
	for (; i < first; i++) { f(i); r.step(); }
	int64_t a = Alloc::bytes();
	for (; i < first + second; i++) { f(i); r.step(); }
	int64_t b = Alloc::bytes();
	Alloc::untrack();
	if (b > a + 4096) r.fail("%s: after %zu uses %lld bytes are still held, after %zu uses %lld", name.c_str(), first, (long long)a, i, (long long)b);
	r.trace(); r.state(mc::hash_bytes(name.data(), name.size()));
}
#endif
}  // namespace

#if PROP == 25
namespace {
// Every kind of object, made from ever other parameters and used
std::vector<std::pair<std::string, std::function<void(size_t)>>> &uses() {
	static std::vector<std::pair<std::string, std::function<void(size_t)>>> u;
	if (!u.empty()) return u;
	auto kw = [](size_t i) { std::array<uint32_t, 8> k; for (size_t j = 0; j < 8; j++) k[j] = uint32_t(scramble(i * 8 + j)); return k; };
	auto kz = [](size_t i) { return std::make_pair(U128{scramble(i), i}, U128{~i, scramble(i + 7)}); };
	u.push_back({"text keys", [=](size_t i) { gm::BlkEncrypted(make_shared<gm::BlkRaw>(uint64_t(i)), key_string(kw(i))).value(); }});
	u.push_back({"native keys", [=](size_t i) { gm::BlkDecrypted(make_shared<gm::BlkRaw>(uint64_t(i)), key_native(kw(i), table(0))).value(); }});
	u.push_back({"tables of nibbles", [=](size_t i) { auto s = sbox_nibble(table(int(i) + 4)); s->transform(uint32_t(scramble(i))); }});
	u.push_back({"tables of bytes", [=](size_t i) { auto s = sbox_byte(table(int(i) + 4)); s->transform(uint32_t(scramble(i))); }});
	u.push_back({"one key, many blocks", [k = LKey()](size_t i) mutable {
		if (!k) k = key_string(key_words(5));
		gm::EncryptionBase(k).transform(scramble(i));
		gm::BlkEncrypted(make_shared<gm::BlkRaw>(uint64_t(i)), k).value();
		gm::BlkDecrypted(make_shared<gm::BlkRaw>(scramble(i)), k).value();
	}});
	u.push_back({"one source read again and again", [s = SourceP()](size_t i) mutable {
		if (!s) s = modes[0].source(make_shared<MemSource>(message(1000)), key_string(key_words(5)));
		s->read(i % 900);
	}});
	u.push_back({"one sink written again and again", [s = SinkP()](size_t i) mutable {
		if (!s) s = modes[1].sink(make_shared<Hole>(0), key_string(key_words(5)));
		s->write(Data(i % 100, std::byte(i)))->finalize();
	}});
	u.push_back({"containers", [=](size_t i) {
		make_shared<gm::ECBSource>(make_shared<MemSource>(message(64, i)), make_shared<StubContainer>(message(32, i), message(64, i)))->read(8);
	}});
	u.push_back({"malformed key text", [=](size_t i) {
		std::string t = key_text(kw(i)); t[i % 64] = 'g';
		try { gm::BlkEncrypted(make_shared<gm::BlkRaw>(uint64_t(i)), make_shared<gm::LazyKey>(t)).value(); } catch (...) {}
		try { make_shared<gk::Key>(t)->encrypt(make_shared<gk::BlkRaw>(i, i))->value(); } catch (...) {}
	}});
	u.push_back({"block text", [=](size_t i) { gm::BlkString(hexnum(scramble(i))).value(); gk::BlkString(hexnum(U128{i, scramble(i)})).value(); }});
	u.push_back({"Kuznyechik keys", [=](size_t i) { kuz_key(kz(i))->encrypt(make_shared<gk::BlkRaw>(i, i))->value(); }});
	u.push_back({"Kuznyechik layers", [=](size_t i) {
		auto b = make_shared<gk::BlkRaw>(i, scramble(i));
		gk::BlkL(b).value(); gk::BlkR(b).value(); gk::BlkS(b).value(); gk::BlkIncremented(b).value();
		gk::BlkCached c(b); c.value(); c.value();
	}});
	u.push_back({"one Kuznyechik key, many blocks", [k = KKey()](size_t i) mutable {
		if (!k) k = kuz_key(kuz_words(5));
		k->encrypt(make_shared<gk::BlkRaw>(i, scramble(i)))->value();
	}});
	u.push_back({"one MAC object used again and again", [m = shared_ptr<gm::Imit>(), k = shared_ptr<gk::Imit>()](size_t) mutable {
		if (!m) {
			m = make_shared<gm::Imit>(make_shared<MemSource>(message(100)), key_string(key_words(5)));
			k = make_shared<gk::Imit>(make_shared<gk::StMemory>(std::vector<uint64_t>(5, 5)), kuz_key(kuz_words(5)));
		}
		m->value(); k->value();
	}});
	u.push_back({"one stream walked again and again", [s = shared_ptr<const gk::Stream>()](size_t) mutable {
		if (!s) s = make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(std::vector<uint64_t>(9, 5)), kuz_key(kuz_words(5)), 7);
		auto it = s->iter();
		for (;;) { it->value(); if (it->last()) break; it = it->next(); }
	}});
	return u;
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	for (size_t i = 0; i < works().size(); i++) {
		if (works()[i].held < ALL) out.push_back({"held-" + std::to_string(i), [i](Run &r) { held(r, works()[i]); }, 2 + works()[i].heavy});
		out.push_back({"back-" + std::to_string(i), [i](Run &r) { given_back(r, works()[i].name, [i](size_t k) { works()[i].f(1 + k % 7); }, 150, 250); }, 1 + works()[i].heavy});
	}
	size_t m = tier == Tier::thorough ? 20 : 1;
	for (size_t i = 0; i < 15; i++) out.push_back({"uses-" + std::to_string(i), [i, m](Run &r) { given_back(r, uses()[i].first, uses()[i].second, 300 * m, 400 * m); }, 2});
}
#else
void mc::jobs(std::vector<Job> &out, Tier) {
	for (size_t i = 0; i < works().size(); i++) {
		out.push_back({"stack-" + std::to_string(i), [i](Run &r) { stack(r, works()[i]); }, 2 + works()[i].heavy});
		out.push_back({"counts-" + std::to_string(i), [i](Run &r) { counts(r, works()[i]); }, 1 + works()[i].heavy});
	}
}
#endif
