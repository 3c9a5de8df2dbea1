// C08: decrypting sources and the Magma MAC, every fragmentation below and every read size above.
#include "env.h"
using namespace env;
const char *const mc::property = "C08";

namespace {
struct Sys {
	Cfb c;
	LKey key;
	ref::MagmaKey m;
	Bytes text, msg;
	Sys(int std, int k, size_t n, uint64_t which = 1) : c{std, 0x1234567890abcdefULL, 0x234567890abcdef1ULL},
		key(key_native(key_words(k), table(k % 2))), m(ref_key(key_words(k), table(k % 2))) {
		text = message(n, which);
		msg = c.model(m, text, true);
	}
};
std::string cuts(const Tape &t) {
	std::string s = "pieces ";
	size_t p = 0, shown = 0;
	for (size_t i = 0; i < t.bytes.size() && shown < 40; i++)
		if (i + 1 == t.bytes.size() || t.cut[i]) { s += std::to_string(i + 1 - p) + " "; p = i + 1; shown++; }
	return s;
}
// One read and everything the property says about it. Returns the next source.
SourceP get(mc::Run &r, const Sys &y, const Tape &t, const SourceP &s, size_t at, size_t asked, size_t n, const std::string &how) {
	t.reached = 0;
	auto x = s->read(n);
	r.step();
	size_t want = std::min(n, y.msg.size() - at);
	if (x.first.size() != want)
		r.fail("CFB %d, %s, reads %s%zu: %zu bytes returned, %zu expected (%zu of %zu read before)", y.c.std, cuts(t).c_str(), how.c_str(), n, x.first.size(), want, at, y.msg.size());
	for (size_t i = 0; i < want; i++)
		if (uint8_t(x.first[i]) != y.msg[at + i])
			r.fail("CFB %d, %s, reads %s%zu: byte %zu is %02x, plaintext %02x", y.c.std, cuts(t).c_str(), how.c_str(), n, at + i, unsigned(x.first[i]), y.msg[at + i]);
	if (!x.second) r.fail("CFB %d, %s, reads %s%zu: no next source", y.c.std, cuts(t).c_str(), how.c_str(), n);
	size_t reach = std::min(asked, y.msg.size()) + std::min(n, SIZE_MAX / 2);
	if (t.reached > reach + 8)
		r.fail("CFB %d, %s, reads %s%zu: %zu bytes were taken for %zu asked", y.c.std, cuts(t).c_str(), how.c_str(), n, t.reached, reach);
	return x.second;
}
// All read sequences: sizes 1..rest, at the end also larger and repeated reads
void tree(mc::Run &r, const Sys &y, const Tape &t, const SourceP &s, size_t at, int zeros, std::string &how) {
	size_t l = how.size(), rest = y.msg.size() - at;
	r.state(mc::mix(hash(Bytes(how.begin(), how.end())), hash(Bytes(t.cut.begin(), t.cut.end()))));
	if (rest == 0) {
		SourceP e = get(r, y, t, s, at, at, 1, how);
		e = get(r, y, t, e, at, at + 1, 9, how + "1 ");
		get(r, y, t, e, at, at + 10, 8, how + "1 9 ");
		r.trace();
		return;
	}
	if (zeros > 0) {
		SourceP e = get(r, y, t, s, at, at, 0, how);
		how += "0 ";
		tree(r, y, t, e, at, zeros - 1, how);
		how.resize(l);
	}
	for (size_t n = 1; n <= rest; n++) {
		SourceP e = get(r, y, t, s, at, at, n, how);
		how += std::to_string(n) + " ";
		tree(r, y, t, e, at + n, zeros, how);
		how.resize(l);
	}
	SourceP e = get(r, y, t, s, at, at, rest + 1, how);
	get(r, y, t, e, y.msg.size(), at + rest + 1, 3, how + std::to_string(rest + 1) + " ");
	e = get(r, y, t, s, at, at, rest + 20, how);
	get(r, y, t, e, y.msg.size(), at + rest + 20, 8, how + std::to_string(rest + 20) + " ");
}
void all(mc::Run &r, int std, size_t n, int zeros, unsigned part, unsigned parts) {
	Sys y(std, int(n) % 4, n);
	unsigned masks = n ? 1u << (n - 1) : 1;
	for (unsigned m = part; m < masks; m += parts) {
		auto t = MemSource::make_tape(y.text);
		t->cut.assign(n, false);
		for (size_t i = 0; i + 1 < n; i++) t->cut[i] = m >> i & 1;
		r.begin("CFB %d, %zu bytes in %s, all read sequences", std, n, cuts(*t).c_str());
		std::string how;
		tree(r, y, *t, y.c.source(make_shared<MemSource>(t), y.key), 0, zeros, how);
	}
	r.sample("CFB %d: %zu bytes, fragmentations %u, %u+%u, ... of %u, all read sequences", std, n, part, part, parts, masks);
}
// Fragmentations with at most `k` cuts, and those with at most `k` joins
template <class F> void few_cuts(size_t n, int k, const F &f) {
	std::vector<size_t> c;
	std::function<void(size_t)> rec = [&](size_t from) {
		for (int inv = 0; inv < 2; inv++) {
			std::vector<bool> v(n, inv);
			for (auto i : c) v[i] = !inv;
			if (n) v[n - 1] = false;
			f(v);
		}
		if (int(c.size()) == k) return;
		for (size_t i = from; i + 1 < n; i++) { c.push_back(i); rec(i + 1); c.pop_back(); }
	};
	rec(0);
}
// Reads of a, then b, a, b, ...
void alternate(mc::Run &r, const Sys &y, const shared_ptr<Tape> &t, size_t a, size_t b) {
	SourceP s = y.c.source(make_shared<MemSource>(t), y.key);
	size_t at = 0, asked = 0, i = 0;
	std::string how = std::to_string(a) + "," + std::to_string(b) + " in turn: ";
	while (at < y.msg.size()) {
		size_t n = i++ % 2 ? b : a;
		s = get(r, y, *t, s, at, asked, n, how);
		at += std::min(n, y.msg.size() - at);
		asked = asked + n < asked ? SIZE_MAX : asked + n;
	}
	get(r, y, *t, s, at, asked, 8, how);
	r.trace();
	r.state(mc::mix(mc::mix(a, b), hash(Bytes(t->cut.begin(), t->cut.end()), y.msg.size())));
}
void bounded(mc::Run &r, int std, size_t n, int k) {
	Sys y(std, int(n) % 4, n);
	few_cuts(n, k, [&](const std::vector<bool> &c) {
		auto t = MemSource::make_tape(y.text);
		t->cut = c;
		r.begin("CFB %d, %zu bytes in %s", std, n, cuts(*t).c_str());
		static const std::pair<size_t, size_t> asks[] = {{1, 1}, {7, 7}, {8, 8}, {9, 9}, {3, 13}, {16, 1}, {1000, 1}, {5, 8}, {8, 3}};
		for (auto &a : asks) alternate(r, y, t, a.first, a.second);
	});
}
void read_pairs(mc::Run &r, int std, size_t n) {
	Sys y(std, 1, n);
	for (int f = 0; f < 6; f++) {
		auto t = MemSource::make_tape(y.text);
		t->cut.assign(n, false);
		for (size_t i = 0; i + 1 < n; i++) t->cut[i] = f == 0 ? false : f == 1 ? true : f == 2 ? i % 8 == 7 : f == 3 ? i % 8 == 3 : f == 4 ? i % 3 == 2 : scramble(i) & 1;
		r.begin("CFB %d, %zu bytes in %s, reads alternating", std, n, cuts(*t).c_str());
		for (size_t a = 1; a <= n + 2; a++)
			for (size_t b = 1; b <= n + 2; b += a > 20 ? 5 : 1) alternate(r, y, t, a, b);
	}
}
void large(mc::Run &r, int std, int e) {
	for (long d : {-1L, 0L, 1L, 5L}) {
		size_t n = size_t((1L << e) + d);
		Sys y(std, 0, n);
		for (int f = 0; f < 4; f++) {
			auto t = MemSource::make_tape(y.text);
			t->cut.assign(n, false);
			for (size_t i = 0; i + 1 < n; i++) t->cut[i] = f == 0 ? false : f == 1 ? i % 5 == 4 : f == 2 ? i % 8 == 7 : scramble(i) & 1;
			r.begin("CFB %d, %zu bytes, fragmentation %d", std, n, f);
			alternate(r, y, t, n, 1);
			alternate(r, y, t, n + 1, 1);
			alternate(r, y, t, 1000, 24);
			alternate(r, y, t, 13, 4099);
			alternate(r, y, t, (size_t(1) << 32) + 5, 1);
			alternate(r, y, t, n / 2, n);
			if (f == 0 || r.thorough()) for (size_t a : {SIZE_MAX, SIZE_MAX - 6, SIZE_MAX / 2 + 1}) alternate(r, y, t, a, 1);
		}
	}
}
// ECB source: whole blocks, any fragmentation, requests of 8 and more
void ecb_one(mc::Run &r, const Bytes &text, const Bytes &msg, const shared_ptr<Tape> &t, const LKey &k, size_t ask) {
	SourceP s = make_shared<gm::ECBSource>(make_shared<MemSource>(t), k);
	Bytes out;
	while (out.size() < msg.size()) {
		auto x = s->read(ask);
		r.step();
		if (x.first.empty()) r.fail("ECB, %s: end of data after %zu of %zu bytes", cuts(*t).c_str(), out.size(), msg.size());
		if (x.first.size() > ask || x.first.size() % 8) r.fail("ECB, %s: %zu bytes for a request of %zu", cuts(*t).c_str(), x.first.size(), ask);
		for (auto b : x.first) out.push_back(uint8_t(b));
		s = x.second;
	}
	if (out != msg) r.fail("ECB, %s, requests of %zu: plaintext\n     %s\n not %s", cuts(*t).c_str(), ask, hex(out).c_str(), hex(msg).c_str());
	for (int i = 0; i < 3; i++) {
		auto x = s->read(ask);
		r.step();
		if (!x.first.empty()) r.fail("ECB, %s: data after the end", cuts(*t).c_str());
		s = x.second;
	}
	r.trace();
	(void)text;
	r.state(mc::mix(ask, hash(Bytes(t->cut.begin(), t->cut.end()), msg.size())));
}
void ecb(mc::Run &r, size_t n, int k, unsigned part, unsigned parts) {
	auto w = key_words(int(n) % 3);
	LKey key = key_string(w);
	auto m = ref_key(w);
	Bytes text = message(n, 1), msg = ref::ecb([&](uint64_t x) { return m.dec(x); }, text);
	auto with = [&](const std::vector<bool> &c) {
		auto t = MemSource::make_tape(text);
		t->cut = c;
		r.begin("ECB, %zu bytes in %s", n, cuts(*t).c_str());
		for (size_t ask : {size_t(8), size_t(9), size_t(16), size_t(1000)}) ecb_one(r, text, msg, t, key, ask);
	};
	if (k < 0) {
		for (unsigned mk = part; mk < 1u << (n - 1); mk += parts) {
			std::vector<bool> c(n, false);
			for (size_t i = 0; i + 1 < n; i++) c[i] = mk >> i & 1;
			with(c);
		}
	} else few_cuts(n, k, with);
}
// Magma MAC over any fragmentation
void mac(mc::Run &r, size_t n, int k, unsigned part, unsigned parts) {
	auto w = key_words(magma_mac_keys()[n % 4]);
	LKey key = key_string(w);
	auto m = ref_key(w);
	Bytes msg = message(n, 1);
	uint64_t want = ref::mac64([&](uint64_t x) { return m.enc(x); }, msg);
	auto with = [&](const std::vector<bool> &c) {
		auto t = MemSource::make_tape(msg);
		t->cut = c;
		r.begin("MAC, %zu bytes in %s", n, cuts(*t).c_str());
		uint64_t got = num(gm::Imit(make_shared<MemSource>(t), key).value());
		if (got != want) r.fail("MAC of %zu bytes in %s is %016llx, not %016llx", n, cuts(*t).c_str(), (unsigned long long)got, (unsigned long long)want);
		r.step(); r.trace(); r.state(hash(Bytes(c.begin(), c.end()), n));
	};
	if (k < 0) {
		for (unsigned mk = part; mk < (n ? 1u << (n - 1) : 1u); mk += parts) {
			std::vector<bool> c(n, false);
			for (size_t i = 0; i + 1 < n; i++) c[i] = mk >> i & 1;
			with(c);
		}
	} else few_cuts(n, k, with);
}
// Sources on sources
void stacked(mc::Run &r, int a, int b) {
	for (size_t n = 0; n <= 40; n++) {
		Sys lower(b, 1, n);
		Sys upper(a, 2, 0);
		Bytes want = upper.c.model(upper.m, lower.msg, true);
		for (int f = 0; f < 3; f++)
			for (size_t ask : {size_t(1), size_t(5), size_t(8), size_t(11), size_t(100)}) {
				auto t = MemSource::make_tape(lower.text);
				t->cut.assign(n, false);
				for (size_t i = 0; i + 1 < n; i++) t->cut[i] = f == 0 ? false : f == 1 ? true : i % 5 == 4;
				r.begin("CFB %d over CFB %d, %zu bytes, fragmentation %d, reads of %zu", a, b, n, f, ask);
				Bytes got = drain(upper.c.source(lower.c.source(make_shared<MemSource>(t), lower.key), upper.key), ask, n + 100);
				if (got != want) r.fail("stacked sources give a wrong plaintext");
				auto m = ref_key(key_words(0));
				uint64_t mac = num(gm::Imit(lower.c.source(make_shared<MemSource>(t), lower.key), key_string(key_words(0))).value());
				if (mac != ref::mac64([&](uint64_t x) { return m.enc(x); }, lower.msg)) r.fail("MAC of a decrypting source is wrong");
				r.step(2); r.trace(2); r.state(mc::mix(mc::mix(n, ask), unsigned(f)));
			}
	}
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	bool th = tier == Tier::thorough;
	auto N = [](const std::string &a, size_t b) { return a + "-" + std::to_string(b); };
	for (int s = 0; s < 2; s++) {
		std::string M = s ? "cfbm" : "cfb89";
		size_t top = th ? 11 : 10;
		for (size_t n = 0; n <= top; n++) {
			unsigned parts = n < 8 ? 1 : n < 10 ? 4 : 16;
			for (unsigned p = 0; p < parts; p++) out.push_back({N(N(M + "-all", n), p), [=](Run &r) { all(r, s, n, 0, p, parts); }, int(n)});
		}
		for (size_t n = 1; n <= (th ? 9u : 8u); n++) out.push_back({N(M + "-zero-reads", n), [=](Run &r) { all(r, s, n, 1, 0, 1); }, 4});
		for (size_t n : {12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40}) out.push_back({N(M + "-cuts", n), [=](Run &r) { bounded(r, s, n, th ? 4 : n > 26 ? 2 : 3); }, 6});
		for (size_t n : {8, 9, 17, 33, 64}) out.push_back({N(M + "-reads", n), [=](Run &r) { read_pairs(r, s, n); }, 3});
		for (int e = 6; e <= (th ? 17 : 14); e++) out.push_back({N(M + "-large", size_t(e)), [=](Run &r) { large(r, s, e); }, e - 6});
		for (int b = 0; b < 2; b++) out.push_back({N(M + "-over", size_t(b)), [=](Run &r) { stacked(r, s, b); }, 2});
	}
	out.push_back({"ecb-all-8", [](Run &r) { ecb(r, 8, -1, 0, 1); }, 1});
	for (unsigned p = 0; p < 8; p++) out.push_back({N("ecb-all-16", p), [p](Run &r) { ecb(r, 16, -1, p, 8); }, 4});
	for (size_t n : {24, 32, 48}) out.push_back({N("ecb-cuts", n), [=](Run &r) { ecb(r, n, th ? 4 : n > 32 ? 2 : 3, 0, 1); }, 4});
	size_t mt = th ? 20 : 17;
	for (size_t n = 0; n <= mt; n++) {
		unsigned parts = n < 15 ? 1 : 4;
		for (unsigned p = 0; p < parts; p++) out.push_back({N(N("mac-all", n), p), [=](Run &r) { mac(r, n, -1, p, parts); }, 3});
	}
	for (size_t n : {23, 24, 25, 32, 33, 40, 47, 64}) out.push_back({N("mac-cuts", n), [=](Run &r) { mac(r, n, th ? 4 : n > 32 ? 2 : 3, 0, 1); }, 4});
}
