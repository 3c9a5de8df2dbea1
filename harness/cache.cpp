// C16: cached blocks and cached key data, every history of uses, failures and changes below.
#include "env.h"
using namespace env;
using ref::U128;
const char *const mc::property = "C16";

namespace {
// What lies below a cache: delivers the value of the current epoch, fails when told to.
struct Under {
	int epoch = 0;
	int fail_in = -1;      // the consultation after so many fails
	int kind = 0;          // how it fails
	uint64_t consults = 0;
	void touch() {
		consults++;
		if (fail_in < 0) return;
		if (fail_in-- == 0) {
			if (kind == 1) throw std::runtime_error("under");
			if (kind == 2) throw 42;
			throw Boom{consults};
		}
	}
};
U128 block_value(int set, int epoch) {
	static const U128 special[] = {{0, 0}, {~0ULL, ~0ULL}, {0, 1}, {1, 0}, {0x8000000000000000ULL, 0}};
	if (epoch == 0 && set < 5) return special[set];
	return {scramble(uint64_t(set * 100 + epoch)), scramble(uint64_t(set * 100 + epoch + 50))};
}
uint32_t key_value(int set, int epoch, int i) {
	if (epoch == 0 && set == 0) return 0;
	if (epoch == 0 && set == 1) return 0xffffffffu;
	if (epoch == 0 && set == 2) return i == 0 ? 0 : uint32_t(i);
	return uint32_t(scramble(uint64_t(set * 1000 + epoch * 10 + i)));
}
enum Outcome { VALUE, THROWN };
template <class F> Outcome attempt(mc::Run &r, const F &f, int kind, const char *text) {
	try { f(); return VALUE; }
	catch (const Boom &) { if (kind != 0) r.fail("%s: another error arrived", text); }
	catch (const std::runtime_error &e) { if (kind != 1 || strcmp(e.what(), "under")) r.fail("%s: another error arrived (%s)", text, e.what()); }
	catch (int x) { if (kind != 2 || x != 42) r.fail("%s: another error arrived", text); }
	return THROWN;
}
// Operations on a cached block: use (of one of two objects over the same underlying block),
// change what lies below, let the next consultation fail
void block_history(mc::Run &r, const std::vector<int> &h, int set, int kind, bool nested) {
	auto u = make_shared<Under>();
	u->kind = kind;
	auto below = make_shared<StubBlk128>([u, set] { u->touch(); return block_value(set, u->epoch); });
	shared_ptr<const gk::Block> c[2];
	for (auto &x : c) { x = make_shared<gk::BlkCached>(below); if (nested) x = make_shared<gk::BlkCached>(x); }
	int fixed[2] = {-1, -1};
	std::string text;
	for (int op : h) {
		static const char *const names[] = {"use0 ", "use1 ", "change ", "break "};
		text += names[op];
		if (op < 2) {
			uint64_t before = u->consults;
			U128 v{0, 0};
			bool breaks = fixed[op] < 0 && u->fail_in == 0;
			Outcome o = attempt(r, [&] { v = ref::u128(c[op]->value()); }, kind, text.c_str());
			if (breaks != (o == THROWN)) r.fail("%s(value set %d%s): %s", text.c_str(), set, nested ? ", nested" : "", breaks ? "the failure below was hidden" : "an error without a failure below");
			if (fixed[op] >= 0 && u->consults != before) r.fail("%s(value set %d%s): the underlying block was consulted again", text.c_str(), set, nested ? ", nested" : "");
			if (o == VALUE) {
				if (fixed[op] < 0) fixed[op] = u->epoch;
				if (v != block_value(set, fixed[op])) r.fail("%s(value set %d%s): %s instead of %s", text.c_str(), set, nested ? ", nested" : "", hexnum(v).c_str(), hexnum(block_value(set, fixed[op])).c_str());
			}
		} else if (op == 2) u->epoch++;
		else u->fail_in = 0;
		r.step();
	}
	r.trace();
}
void key_history(mc::Run &r, const std::vector<int> &h, int set, int kind, int mode) {
	auto u = make_shared<Under>();
	u->kind = kind;
	auto data = make_unique<StubKeyData>([u, set](int i) { u->touch(); return key_value(set, u->epoch, i); });
	auto c = make_unique<gm::KeyCachedData>(std::move(data));
	if (mode == 2) c = make_unique<gm::KeyCachedData>(std::move(c));    // a cache over a cache
	shared_ptr<gm::LazyKey> lk;
	const gm::KeyData *kd = c.get();
	if (mode == 1) lk = make_shared<gm::LazyKey>(std::unique_ptr<const gm::KeyData>(std::move(c)), make_shared<StubSbox>([](uint32_t v) { return v; }));
	int fixed = -1;
	std::string text;
	for (int op : h) {
		// 0..3: use index; 4: change below; 5..8: fail at the 1st, 2nd, 5th, 8th consultation
		static const int index[] = {0, 3, 7, 4}, at[] = {0, 1, 4, 7};
		if (op < 4) {
			text += "use" + std::to_string(index[op]) + " ";
			uint64_t before = u->consults;
			bool breaks = fixed < 0 && u->fail_in >= 0 && u->fail_in < 8;
			uint32_t v = 0;
			Outcome o = attempt(r, [&] { v = mode == 1 ? lk->transform(5, index[op]) - 5 : kd->key(index[op]); }, kind, text.c_str());
			if (breaks != (o == THROWN)) r.fail("%s(set %d): %s", text.c_str(), set, breaks ? "the failure below was hidden" : "an error without a failure below");
			if (fixed >= 0 && u->consults != before) r.fail("%s(set %d): the underlying key data was consulted again", text.c_str(), set);
			if (o == VALUE) {
				if (fixed < 0) fixed = u->epoch;
				if (v != key_value(set, fixed, index[op])) r.fail("%s(set %d): %08x instead of %08x", text.c_str(), set, v, key_value(set, fixed, index[op]));
			}
		} else if (op == 4) { text += "change "; u->epoch++; }
		else { text += "break" + std::to_string(at[op - 5]) + " "; u->fail_in = at[op - 5]; }
		r.step();
	}
	// at the end all eight words belong together
	u->fail_in = -1;
	uint64_t before = u->consults;
	int e = fixed < 0 ? u->epoch : fixed;
	for (int i = 7; i >= 0; i--) {
		uint32_t v = mode == 1 ? lk->transform(0, i) : kd->key(i);
		if (v != key_value(set, e, i)) r.fail("%s(set %d): word %d is %08x, not %08x", text.c_str(), set, i, v, key_value(set, e, i));
	}
	if (fixed >= 0 && u->consults != before) r.fail("%s(set %d): consulted again", text.c_str(), set);
	r.trace();
}
// A whole Kuznyechik key: after the first encryption nothing below matters any more
void kuz_history(mc::Run &r, const std::vector<int> &h, int kind) {
	auto u = make_shared<Under>();
	u->kind = kind;
	struct Data final : gk::Key::Data {
		explicit Data(const shared_ptr<Under> &u) : u(u) {}
		shared_ptr<const gk::Block> half(bool lo) const {
			auto q = u;
			return make_shared<StubBlk128>([q, lo] { q->touch(); auto w = kuz_words(q->epoch); return lo ? w.second : w.first; });
		}
		shared_ptr<const gk::Block> low() const override { return half(true); }
		shared_ptr<const gk::Block> high() const override { return half(false); }
		const shared_ptr<Under> u;
	};
	gk::Key k(make_shared<Data>(u));
	bool fixed = false;
	std::string text;
	for (int op : h) {
		// 0, 1: encrypt; 2: change below (only once the key is in use); 3, 4: fail at the first, second consultation
		if (op < 2) {
			text += "encrypt ";
			uint64_t before = u->consults;
			U128 x{uint64_t(op) + 5, 7}, v{0, 0};
			bool armed = u->fail_in >= 0;
			Outcome o = attempt(r, [&] { v = ref::u128(k.encrypt(make_shared<gk::BlkRaw>(x.lo, x.hi))->value()); }, kind, text.c_str());
			if (fixed && u->consults != before) r.fail("%s: the key data was consulted again", text.c_str());
			if (o == THROWN && (fixed || !armed)) r.fail("%s: an error without a failure below", text.c_str());
			if (o == VALUE) {
				fixed = true;
				if (v != ref_kuz(kuz_words(0)).enc(x)) r.fail("%s: wrong result %s", text.c_str(), hexnum(v).c_str());
			}
		} else if (op == 2) { text += "change "; if (fixed) u->epoch++; }
		else { text += "break "; u->fail_in = op - 3; }
		r.step();
	}
	r.trace();
}
// Fails again and again, then is used again and again, with what lies below changing every time
void many(mc::Run &r, int what, uint64_t fails, uint64_t uses) {
	static const char *const names[] = {"cached block", "cached block over a cached block", "cached key data", "key over cached key data", "cached key data over cached key data", "Kuznyechik key"};
	r.begin("%s: %llu failures, then %llu uses", names[what], (unsigned long long)fails, (unsigned long long)uses);
	auto u = make_shared<Under>();
	std::function<std::string()> use;
	std::function<std::string(int)> want;
	if (what < 2) {
		auto c = make_shared<gk::BlkCached>(make_shared<StubBlk128>([u] { u->touch(); return block_value(9, u->epoch); }));
		if (what == 1) c = make_shared<gk::BlkCached>(c);
		use = [c] { return hexnum(ref::u128(c->value())); };
		want = [](int e) { return hexnum(block_value(9, e)); };
	} else if (what < 5) {
		auto c = make_unique<gm::KeyCachedData>(make_unique<StubKeyData>([u](int i) { u->touch(); return key_value(9, u->epoch, i); }));
		if (what == 4) c = make_unique<gm::KeyCachedData>(std::move(c));
		if (what == 3) {
			auto k = make_shared<gm::LazyKey>(std::unique_ptr<const gm::KeyData>(std::move(c)), make_shared<StubSbox>([](uint32_t v) { return v; }));
			use = [k] { return hexnum(k->transform(0, 5)); };
		} else {
			shared_ptr<gm::KeyCachedData> k = std::move(c);
			use = [k] { return hexnum(k->key(5)); };
		}
		want = [](int e) { return hexnum(key_value(9, e, 5)); };
	} else {
		struct Data final : gk::Key::Data {
			explicit Data(const shared_ptr<Under> &u) : u(u) {}
			shared_ptr<const gk::Block> half(bool lo) const {
				auto q = u;
				return make_shared<StubBlk128>([q, lo] { q->touch(); auto w = kuz_words(q->epoch ? 1 : 0); return lo ? w.second : w.first; });
			}
			shared_ptr<const gk::Block> low() const override { return half(true); }
			shared_ptr<const gk::Block> high() const override { return half(false); }
			const shared_ptr<Under> u;
		};
		auto k = make_shared<gk::Key>(make_shared<Data>(u));
		auto x = make_shared<gk::BlkRaw>(5, 7);
		use = [k, x] { return hexnum(ref::u128(k->encrypt(x)->value())); };
		want = [](int) { return hexnum(ref_kuz(kuz_words(0)).enc({5, 7})); };
	}
	for (uint64_t i = 0; i < fails; i++) {
		u->fail_in = 0;
		if (attempt(r, use, 0, "failing") == VALUE) r.fail("failure %llu was hidden", (unsigned long long)i);
		if (what < 5) u->epoch++;
		r.step();
	}
	const std::string w = want(u->epoch);
	u->fail_in = -1;
	uint64_t before = 0;
	for (uint64_t i = 0; i < uses; i++) {
		std::string v = use();
		if (v != w) r.fail("use %llu yields %s, not %s", (unsigned long long)i, v.c_str(), w.c_str());
		if (i && u->consults != before) r.fail("use %llu: the underlying object was consulted again", (unsigned long long)i);
		before = u->consults;
		u->epoch++;
		r.step();
	}
	r.trace();
	r.state(mc::mix(uint64_t(what), mc::mix(fails, uses)));
}
template <class F> void sequences(mc::Run &r, int ops, int depth, int first, const F &f) {
	std::vector<int> h(size_t(depth), 0);
	h[0] = first;
	for (;;) {
		f(h);
		uint64_t s = 77;
		for (int x : h) s = mc::mix(s, uint64_t(x));
		r.state(s);
		int i = depth - 1;
		while (i > 0 && ++h[size_t(i)] == ops) h[size_t(i--)] = 0;
		if (i == 0) return;
	}
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	bool th = tier == Tier::thorough;
	for (int set = 0; set < 6; set++)
		for (int nested = 0; nested < 2; nested++)
			out.push_back({"block-" + std::to_string(set) + (nested ? "-nested" : ""), [=](Run &r) {
				for (int f = 0; f < 4; f++) {
					r.begin("cached block, value set %d%s, histories starting with %d", set, nested ? ", nested" : "", f);
					sequences(r, 4, th ? 9 : 7, f, [&](const std::vector<int> &h) { block_history(r, h, set, set % 3, nested); });
				}
			}, 3});
	for (int set = 0; set < 4; set++)
		for (int f = 0; f < 9; f++)
			for (int mode = 0; mode < 3; mode++)
				out.push_back({"key-" + std::to_string(set) + "-" + std::to_string(f) + "-" + std::to_string(mode), [=](Run &r) {
					r.begin("cached key data, value set %d, histories starting with %d", set, f);
					sequences(r, 9, th ? 6 : 5, f, [&](const std::vector<int> &h) { key_history(r, h, set, set % 3, mode); });
				}, 4});
	for (int f = 0; f < 5; f++)
		out.push_back({"kuznyechik-" + std::to_string(f), [=](Run &r) {
			r.begin("Kuznyechik key, histories starting with %d", f);
			sequences(r, 5, th ? 6 : 5, f, [&](const std::vector<int> &h) { kuz_history(r, h, f % 3); });
		}, 4});
	for (int what = 0; what < 6; what++)
		for (uint64_t fails : {0, 1, 255, 256, 257, 65535, 65536, 65537})
			out.push_back({"many-" + std::to_string(what) + "-" + std::to_string(fails), [=](Run &r) {
				if (what == 5 && fails > 1000) return;
				many(r, what, fails, what == 5 ? (fails ? 70 : 65540) : th ? 1u << 24 : 66000);
			}, what == 5 ? 6 : 2});
}
