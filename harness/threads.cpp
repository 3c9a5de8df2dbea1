// C17: threads sharing objects, every schedule within the bounds, under the controlled scheduler.
// C16 (PROP=16): the same, those scenarios only that are about caches and what lies below them.
// This file is compiled like the library (with -fsanitize=thread); collaborators here are immutable or atomic.
#include "env.h"
#include "explore.h"
#include <atomic>
using namespace env;
using ref::U128;
#ifndef PROP
#define PROP 17
#endif
#define STR_(x) #x
#define STR(x) STR_(x)
const char *const mc::property = "C" STR(PROP);
#undef STR
#undef STR_

namespace {
typedef shared_ptr<const gk::Block> B128;
typedef shared_ptr<const gm::Block> B64;
typedef shared_ptr<const gk::Stream> St;
typedef shared_ptr<const gk::Iterator> It;

class PureSink final : public goost::Sink {
public:
	explicit PureSink(const Bytes &b = Bytes()) : b(b) {}
	SinkP write(const Data &d) const override { Bytes n = b; for (auto x : d) n.push_back(uint8_t(x)); return make_shared<PureSink>(n); }
	SinkP finalize() const override { return make_shared<PureSink>(b); }
	const Bytes b;
};
class PureSource final : public goost::Source {
public:
	explicit PureSource(const Bytes &b, size_t piece = 1000) : b(make_shared<const Bytes>(b)), pos(0), piece(piece) {}
	PureSource(const shared_ptr<const Bytes> &b, size_t pos, size_t piece) : b(b), pos(pos), piece(piece) {}
	std::pair<Data, SourceP> read(size_t n) const override {
		size_t k = std::min(std::min(n, piece), b->size() - pos);
		return {dat(*b, pos, k), make_shared<PureSource>(b, pos + k, piece)};
	}
	const shared_ptr<const Bytes> b;
	const size_t pos, piece;
};
class PureBlk final : public gk::Block {
public:
	explicit PureBlk(U128 v) : v(v) {}
	std::pair<uint64_t, uint64_t> value() const override { return {v.lo, v.hi}; }
	const U128 v;
};
class PureBlk64 final : public gm::Block {
public:
	explicit PureBlk64(uint64_t v) : v(v) {}
	std::pair<uint32_t, uint32_t> value() const override { return {uint32_t(v), uint32_t(v >> 32)}; }
	const uint64_t v;
};
class PureKD final : public gm::KeyData {
public:
	explicit PureKD(const std::array<uint32_t, 8> &w) : w(w) {}
	uint32_t key(int i) const override { return w[size_t(i)]; }
	const std::array<uint32_t, 8> w;
};
class PureKuzData final : public gk::Key::Data {
public:
	explicit PureKuzData(const std::pair<U128, U128> &k) : k(k) {}
	B128 low() const override { return make_shared<PureBlk>(k.second); }
	B128 high() const override { return make_shared<PureBlk>(k.first); }
	const std::pair<U128, U128> k;
};
class PureContainer final : public gm::Container {
public:
	PureContainer(const Bytes &k, const Bytes &s) : k(k), s(s) {}
	Data key() const override { return dat(k); }
	Data mask() const override { return dat(Bytes(32)); }
	Data sbox() const override { return dat(s); }
private:
	const Bytes k, s;
};
// Fail a number of times, then deliver. Each consultation is a schedule point of its own.
struct Trouble { std::atomic<int> left; std::atomic<int> consults; explicit Trouble(int n) : left(n), consults(0) {} };
void consult(const Trouble &ct) {
	Trouble &t = const_cast<Trouble &>(ct);
	t.consults.fetch_add(2);
	int l = t.left.load();
	while (l > 0 && !t.left.compare_exchange_strong(l, l - 1)) {}
	if (l > 0) throw std::runtime_error("trouble");
}
class TroubleBlk final : public gk::Block {
public:
	TroubleBlk(U128 v, const shared_ptr<Trouble> &t) : v(v), t(t) {}
	std::pair<uint64_t, uint64_t> value() const override { consult(*t); return {v.lo, v.hi}; }
	const U128 v;
	const shared_ptr<Trouble> t;
};
class TroubleKD final : public gm::KeyData {
public:
	TroubleKD(const std::array<uint32_t, 8> &w, const shared_ptr<Trouble> &t, int at) : w(w), t(t), at(at) {}
	uint32_t key(int i) const override { if (i == at) consult(*t); return w[size_t(i)]; }
	const std::array<uint32_t, 8> w;
	const shared_ptr<Trouble> t;
	const int at;
};
// Deliver something else at every consultation.
class MovingBlk final : public gk::Block {
public:
	MovingBlk() : n(make_shared<std::atomic<uint64_t>>(5)) {}
	std::pair<uint64_t, uint64_t> value() const override { uint64_t v = n->fetch_add(2); return {v, v + 1}; }
	const shared_ptr<std::atomic<uint64_t>> n;
};
class MovingKD final : public gm::KeyData {
public:
	explicit MovingKD(const std::array<uint32_t, 8> &w) : w(w), n(make_shared<std::atomic<uint32_t>>(0)) {}
	uint32_t key(int i) const override { return w[size_t(i)] + (i == 0 || i == 6 ? n->fetch_add(2) : 0); }
	const std::array<uint32_t, 8> w;
	const shared_ptr<std::atomic<uint32_t>> n;
};
class IdSbox final : public gm::Sbox {
public:
	uint32_t transform(uint32_t v) const override { return v; }
};

std::string str(uint64_t v) { return hexnum(v); }
std::string str(const U128 &v) { return hexnum(v); }
std::string str(const Bytes &b) { return mc::hex(b.data(), b.size()); }
std::string str(const Data &d) { return str(bytes(d)); }
std::string str(const std::pair<uint32_t, uint32_t> &p) { return hexnum(num(p)); }
std::string str(const std::pair<uint64_t, uint64_t> &p) { return hexnum(ref::u128(p)); }
std::string content(const SinkP &s) { auto *p = dynamic_cast<const PureSink *>(s.get()); return p ? str(p->b) : "another sink"; }

typedef std::function<std::string()> Body;
typedef std::vector<std::string> Strings;
// A scenario: what to set up in a fresh process (cold), giving each thread's work; what each has to find.
struct Scenario {
	std::string name;
	std::function<std::vector<Body>()> make;
	Strings want;
	// 0: everything above; 1: only short ones are explored with more preemptions
	int deep;
	std::function<std::string(const Strings &)> judge;   // instead of want
	bool c16 = false;    // also explored for C16
};
sched::Case one(const Scenario &s) {
	auto got = make_shared<Strings>(s.want.size());
	auto bodies = s.make();
	sched::Case c;
	for (size_t i = 0; i < bodies.size(); i++) {
		auto b = make_shared<Body>(bodies[i]);
		std::string *slot = &(*got)[i];
		c.threads.push_back([b, slot] {
			try { *slot = (*b)(); }
			catch (const std::exception &e) { *slot = std::string("error: ") + e.what(); }
			catch (...) { *slot = "error"; }
			*b = nullptr;     // what it refers to is dropped by this thread
		});
	}
	const Scenario *sp = &s;
	c.judge = [got, sp] {
		if (sp->judge) return sp->judge(*got);
		for (size_t i = 0; i < got->size(); i++)
			if ((*got)[i] != sp->want[i])
				return "thread " + std::to_string(i) + " got " + (*got)[i] + ", alone it gets " + sp->want[i];
		return std::string();
	};
	return c;
}

std::vector<Scenario> build(bool thorough) {
	std::vector<Scenario> s;
	auto w = key_words(4);
	auto t = table(1);
	auto m = ref_key(w), mt = ref_key(w, t);
	auto kw = kuz_words(3);
	auto km = ref_kuz(kw);
	for (int n = 2; n <= 3; n++) {
		std::string th = ", " + std::to_string(n) + " threads";
		// ---- Magma keys, cold
		{
			Strings want;
			for (int i = 0; i < n; i++) want.push_back(str(i % 2 ? m.dec(77 + uint64_t(i)) : m.enc(77 + uint64_t(i))));
			s.push_back({"Magma: first use of a key from text" + th, [=] {
				LKey k = key_string(w);
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([k, i] {
					auto x = make_shared<PureBlk64>(77 + uint64_t(i));
					return i % 2 ? str(gm::BlkDecrypted(x, k).value()) : str(gm::BlkEncrypted(x, k).value());
				});
				return b;
			}, want, 1, nullptr});
			s.push_back({"Magma: first use of a key from text through the raw transformation" + th, [=] {
				LKey k = key_string(w);
				auto e = make_shared<gm::EncryptionBase>(k);
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([e, k, i] { return i % 2 ? str(gm::BlkDecrypted(make_shared<PureBlk64>(77 + uint64_t(i)), k).value()) : str(e->transform(77 + uint64_t(i))); });
				return b;
			}, want, 0, nullptr});
		}
		{
			Strings want;
			for (int i = 0; i < n; i++) want.push_back(str(mt.enc(5)));
			for (int kind = 0; kind < 3; kind++)
				s.push_back({"Magma: one block object evaluated by all, key kind " + std::to_string(kind) + th, [=] {
					LKey k = kind == 0 ? key_string(w, t) : key_native(w, t, kind == 1);
					auto x = make_shared<gm::BlkEncrypted>(make_shared<PureBlk64>(5), k);
					std::vector<Body> b;
					for (int i = 0; i < n; i++) b.push_back([x] { return str(x->value()); });
					return b;
				}, want, 1, nullptr});
		}
		{
			Strings want;
			for (int i = 0; i < n; i++) {
				std::string q;
				for (int j : {i, 7, 0}) q += str(uint64_t(w[size_t(j)]));
				want.push_back(q);
			}
			for (int kind = 0; kind < 2; kind++)
				s.push_back({std::string("Magma: key words of a cold cache") + (kind ? " over text" : "") + th, [=] {
					auto c = kind ? make_shared<gm::KeyCachedData>(make_unique<gm::KeyDataString>(key_text(w))) : make_shared<gm::KeyCachedData>(make_unique<PureKD>(w));
					std::vector<Body> b;
					for (int i = 0; i < n; i++) b.push_back([c, i] { std::string q; for (int j : {i, 7, 0}) q += str(uint64_t(c->key(j))); return q; });
					return b;
				}, want, kind ? 1 : 3, nullptr});
			Strings wt;
			for (int i = 0; i < n; i++) { auto words = w; uint32_t x = uint32_t(i) + words[size_t(i)]; x = x << 11 | x >> 21; (void)x; wt.push_back(str(uint64_t(uint32_t(i) + words[size_t(i)]))); }
			s.push_back({"Magma: a key over a cached key, rounds in parallel" + th, [=] {
				auto k = make_shared<gm::LazyKey>(std::unique_ptr<const gm::KeyData>(make_unique<gm::KeyCachedData>(make_unique<gm::KeyCachedData>(make_unique<PureKD>(w)))), make_shared<IdSbox>());
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([k, i] { return str(uint64_t(k->transform(uint32_t(i), i))); });
				return b;
			}, wt, 3, nullptr});
		}
		// ---- cached blocks
		{
			Strings want;
			for (int i = 0; i < n; i++) want.push_back(str(U128{5, 6}) + str(U128{5, 6}));
			s.push_back({"Kuznyechik: a cold cached block" + th, [=] {
				auto c = make_shared<gk::BlkCached>(make_shared<PureBlk>(U128{5, 6}));
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([c] { std::string q = str(c->value()); return q + str(c->value()); });
				return b;
			}, want, 3, nullptr});
			s.push_back({"Kuznyechik: a cached block over a cached block" + th, [=] {
				auto d = make_shared<gk::BlkCached>(make_shared<PureBlk>(U128{5, 6}));
				auto c = make_shared<gk::BlkCached>(d);
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([c, d, i] { std::string q = str(i ? c->value() : d->value()); return q + str(c->value()); });
				return b;
			}, want, 3, nullptr});
			// two cached blocks that use each other's underlying block: no order of locks may deadlock
			s.push_back({"Kuznyechik: two cached blocks over one, used in opposite order" + th, [=] {
				auto d = make_shared<gk::BlkCached>(make_shared<PureBlk>(U128{5, 6}));
				auto a = make_shared<gk::BlkCached>(d), c = make_shared<gk::BlkCached>(d);
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([a, c, i] { std::string q = str(i % 2 ? c->value() : a->value()); return q + str(i % 2 ? a->value() : c->value()); });
				return b;
			}, want, 3, nullptr});
		}
		// ---- caches whose computation fails at first
		for (int fails = 1; fails < n; fails++) {
			auto judge = [=](const std::string &good) {
				return [=](const Strings &got) {
					int bad = 0;
					for (size_t i = 0; i < got.size(); i++) {
						if (got[i] == "error: trouble") bad++;
						else if (got[i] != good) return "thread " + std::to_string(i) + " got " + got[i] + ", not " + good;
					}
					if (bad != fails) return std::to_string(bad) + " threads got an error, the computation failed " + std::to_string(fails) + " times";
					return std::string();
				};
			};
			s.push_back({"Kuznyechik: a cached block whose computation fails " + std::to_string(fails) + " times" + th, [=] {
				auto c = make_shared<gk::BlkCached>(make_shared<TroubleBlk>(U128{5, 6}, make_shared<Trouble>(fails)));
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([c] { return str(c->value()); });
				return b;
			}, Strings(size_t(n)), 3, judge(str(U128{5, 6})), true});
			for (int at : {0, 5})
				s.push_back({"Magma: cached key words, computing word " + std::to_string(at) + " fails " + std::to_string(fails) + " times" + th, [=] {
					auto c = make_shared<gm::KeyCachedData>(make_unique<TroubleKD>(w, make_shared<Trouble>(fails), at));
					std::vector<Body> b;
					for (int i = 0; i < n; i++) b.push_back([c] { return str(uint64_t(c->key(3))); });
					return b;
				}, Strings(size_t(n)), 3, judge(str(uint64_t(w[3]))), true});
		}
		// ---- caches over what delivers something else every time: one answer for all, whoever computed it
		{
			auto judge = [=](const Strings &got) {
				for (size_t i = 0; i < got.size(); i++)
					if (got[i] != got[0]) return "thread " + std::to_string(i) + " got " + got[i] + ", thread 0 got " + got[0];
				return std::string();
			};
			s.push_back({"Kuznyechik: a cached block over one that never says the same twice" + th, [=] {
				auto c = make_shared<gk::BlkCached>(make_shared<MovingBlk>());
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([c] { std::string q = str(c->value()); return q == str(c->value()) ? q : "two values: " + q; });
				return b;
			}, Strings(size_t(n)), 3, judge, true});
			s.push_back({"Magma: cached key words over data that never say the same twice" + th, [=] {
				auto c = make_shared<gm::KeyCachedData>(make_unique<MovingKD>(w));
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([c, i] {
					uint32_t v[2];
					for (int j = 0; j < 2; j++) v[(i + j) % 2] = c->key((i + j) % 2 ? 6 : 0);
					return str(uint64_t(v[0])) + str(uint64_t(v[1]));
				});
				return b;
			}, Strings(size_t(n)), 3, judge, true});
			s.push_back({"Magma: a key over cached data that never say the same twice" + th, [=] {
				auto k = make_shared<gm::LazyKey>(std::unique_ptr<const gm::KeyData>(make_unique<gm::KeyCachedData>(make_unique<MovingKD>(w))), make_shared<IdSbox>());
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([k, i] {
					uint32_t v[2];
					for (int j = 0; j < 2; j++) v[(i + j) % 2] = k->transform(0, (i + j) % 2 ? 6 : 0);
					return str(uint64_t(v[0])) + str(uint64_t(v[1]));
				});
				return b;
			}, Strings(size_t(n)), 3, judge, true});
		}
		// ---- Kuznyechik keys
		if (n == 2 || thorough) {
			Strings want, same;
			for (int i = 0; i < n; i++) { want.push_back(str(km.enc({uint64_t(i), 9}))); same.push_back(str(km.enc({0, 9}))); }
			for (int kind = 0; kind < 2; kind++)
				s.push_back({std::string("Kuznyechik: first use of a key") + (kind ? " from text" : "") + th, [=] {
					KKey k = kind ? kuz_key(kw) : make_shared<gk::Key>(make_shared<PureKuzData>(kw));
					std::vector<Body> b;
					for (int i = 0; i < n; i++) b.push_back([k, i] { return str(k->encrypt(make_shared<PureBlk>(U128{uint64_t(i), 9}))->value()); });
					return b;
				}, want, -1, nullptr});
			s.push_back({"Kuznyechik: one encrypted block evaluated by all, key in use" + th, [=] {
				KKey k = kuz_key(kw);
				k->encrypt(make_shared<PureBlk>(U128{1, 1}))->value();
				auto x = make_shared<gk::BlkEncrypted>(make_shared<PureBlk>(U128{0, 9}), k);
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([x] { return str(x->value()); });
				return b;
			}, same, -1, nullptr});
		}
		// ---- sinks and sources
		for (int mode = 0; mode < 3; mode++) {
			static const char *const names[] = {"GOST 28147-89 CFB", "GOST R 34.13 CFB", "ECB"};
			Cfb cfb{mode, 0x1234567890abcdefULL, 0x234567890abcdef1ULL};
			auto E = [=](uint64_t x) { return m.enc(x); };
			auto D = [=](uint64_t x) { return m.dec(x); };
			auto enc = [=](const Bytes &b) { return mode == 2 ? ref::ecb(E, b) : cfb.model(m, b, false); };
			auto dec = [=](const Bytes &b) { return mode == 2 ? ref::ecb(D, b) : cfb.model(m, b, true); };
			auto sink = [=](const SinkP &below, const LKey &k) { return mode == 2 ? SinkP(make_shared<gm::ECBSink>(below, k)) : cfb.sink(below, k); };
			auto source = [=](const SourceP &below, const LKey &k) { return mode == 2 ? SourceP(make_shared<gm::ECBSource>(below, k)) : cfb.source(below, k); };
			Strings want, fin, rd;
			for (int i = 0; i < n; i++) {
				Bytes a = message(mode == 2 ? 8 : 11, 5), x = message(mode == 2 ? 16 : size_t(9 + i), 20 + uint64_t(i));
				a.insert(a.end(), x.begin(), x.end());
				want.push_back(str(enc(a)));
				rd.push_back(str(dec(message(24, 3))));
			}
			s.push_back({std::string(names[mode]) + ": writes to one sink, key cold" + th, [=] {
				LKey k = key_string(w);
				SinkP q = sink(make_shared<PureSink>(), k);
				if (mode != 2) q = q->write(dat(message(3, 5)));   // begun, with a remainder
				std::vector<Body> b;
				for (int i = 0; i < n; i++) {
					Data first = mode == 2 ? dat(message(8, 5)) : dat(message(11, 5), 3, 8), x = dat(message(mode == 2 ? 16 : size_t(9 + i), 20 + uint64_t(i)));
					b.push_back([q, first, x] { return content(q->write(first)->write(x)->finalize()); });
				}
				return b;
			}, want, 0, nullptr});
			s.push_back({std::string(names[mode]) + ": one sink finalized by all" + th, [=] {
				LKey k = key_string(w);
				SinkP q = sink(make_shared<PureSink>(), k)->write(dat(message(mode == 2 ? 8 : 11, 5)));
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([q] { return content(q->finalize()); });
				return b;
			}, Strings(size_t(n), str(enc(message(mode == 2 ? 8 : 11, 5)))), 1, nullptr});
			s.push_back({std::string(names[mode]) + ": reads from one source, key cold" + th, [=] {
				LKey k = key_string(w);
				SourceP q = source(make_shared<PureSource>(message(24, 3), 5), k);
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([q, i] { return str(drain(q, size_t(8 + i), 100)); });
				return b;
			}, rd, 0, nullptr});
		}
		// ---- MACs
		{
			Strings want(size_t(n), str(ref::mac64([=](uint64_t x) { return m.enc(x); }, message(19, 1))));
			s.push_back({"Magma MAC: one object evaluated by all, key cold" + th, [=] {
				auto i = make_shared<gm::Imit>(make_shared<PureSource>(message(19, 1), 7), key_string(w));
				std::vector<Body> b;
				for (int j = 0; j < n; j++) b.push_back([i] { return str(i->value()); });
				return b;
			}, want, 0, nullptr});
			Strings w89(size_t(n), str(ref::imit89([=](uint64_t x) { return mt.mac16(x); }, message(19, 1))));
			s.push_back({"GOST 28147-89 MAC: one object evaluated by all, key cold" + th, [=] {
				auto i = make_shared<g89::DataImit>(message(19, 1), key_string(w, t));
				std::vector<Body> b;
				for (int j = 0; j < n; j++) b.push_back([i] { auto v = i->value(); return v.size() == 8 ? str(ref::load64(&v[0])) : std::string("size"); });
				return b;
			}, w89, 0, nullptr});
		}
		// ---- streams
		{
			auto walk = [](It it) {
				std::string q;
				for (;;) {
					q += str(it->value()) + "/" + std::to_string(it->size()) + " ";
					if (it->last()) return q;
					it = it->next();
				}
			};
			std::vector<U128> blocks{{1, 2}, {3, 4}, {5, 0}};
			std::string plain = str(blocks[0]) + "/16 " + str(blocks[1]) + "/16 " + str(blocks[2]) + "/8 ";
			s.push_back({"memory stream: iterators and one shared iterator" + th, [=] {
				auto st = make_shared<gk::StMemory>(std::vector<uint64_t>{1, 2, 3, 4, 5});
				It it = st->iter();
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([st, it, walk, i] { return i == 0 ? walk(st->iter()) : walk(it); });
				return b;
			}, Strings(size_t(n), plain), 1, nullptr});
			s.push_back({"memory stream: never used before, walked by all" + th, [=] {
				auto st = make_shared<gk::StMemory>(std::vector<uint64_t>{1, 2, 3, 4, 5});
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([st, walk] { return walk(st->iter()); });
				return b;
			}, Strings(size_t(n), plain), 1, nullptr});
			s.push_back({"memory stream: the stream is dropped while iterators live on" + th, [=] {
				auto st = make_shared<gk::StMemory>(std::vector<uint64_t>{1, 2, 3, 4, 5});
				std::vector<Body> b;
				auto keep = make_shared<shared_ptr<gk::StMemory>>(st);
				b.push_back([keep, plain] { keep->reset(); return plain; });
				for (int i = 1; i < n; i++) { It it = st->iter(); b.push_back([it, walk] { return walk(it); }); }
				return b;
			}, Strings(size_t(n), plain), 1, nullptr});
			if (n == 2 || thorough) {
				std::string c;
				std::vector<U128> cb;
				for (size_t i = 0; i < 2; i++) { cb.push_back(ref::ctr_block([=](U128 x) { return km.enc(x); }, 7, i, blocks[i])); c += str(cb[i]) + "/16 "; }
				std::string mac = str(ref::mac128([=](U128 x) { return km.enc(x); }, {blocks[0], blocks[1]}, 16)), macc = str(ref::mac128([=](U128 x) { return km.enc(x); }, cb, 16));
				Strings want{c, c, c};
				want.resize(size_t(n));
				s.push_back({"CTR: a stream never used before, walked by all, key in use" + th, [=] {
					KKey k = kuz_key(kw);
					k->encrypt(make_shared<PureBlk>(U128{1, 1}))->value();
					auto st = make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(std::vector<uint64_t>{1, 2, 3, 4}), k, 7);
					std::vector<Body> b;
					for (int i = 0; i < n; i++) b.push_back([st, walk] { return walk(st->iter()); });
					return b;
				}, want, -1, nullptr});
				s.push_back({"CTR: stream and one shared iterator, key in use" + th, [=] {
					KKey k = kuz_key(kw);
					k->encrypt(make_shared<PureBlk>(U128{1, 1}))->value();
					auto st = make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(std::vector<uint64_t>{1, 2, 3, 4}), k, 7);
					It it = st->iter();
					std::vector<Body> b;
					for (int i = 0; i < n; i++) b.push_back([st, it, walk, i] { return i == 1 ? walk(st->iter()) : walk(it); });
					return b;
				}, want, -1, nullptr});
				Strings wm{mac, macc, mac};
				wm.resize(size_t(n));
				s.push_back({"Kuznyechik MAC: of a stream and of its encryption, one key" + th, [=] {
					KKey k = kuz_key(kw);
					k->encrypt(make_shared<PureBlk>(U128{1, 1}))->value();
					auto st = make_shared<gk::StMemory>(std::vector<uint64_t>{1, 2, 3, 4});
					auto i1 = make_shared<gk::Imit>(st, k), i2 = make_shared<gk::Imit>(make_shared<gk::StCTREncrypted>(st, k, 7), k);
					std::vector<Body> b;
					for (int i = 0; i < n; i++) b.push_back([i1, i2, i] { return str(i == 1 ? i2->value() : i1->value()); });
					return b;
				}, wm, -1, nullptr});
			}
		}
		// ---- unrelated objects: nothing is shared but the code
		{
			Strings want;
			for (int i = 0; i < n; i++) {
				auto wi = key_words(4 + i);
				auto mi = ref_key(wi), mj = ref_key(wi, t);
				std::string q = str(mi.enc(77)) + str(mj.dec(78)) + str(mj.enc(79));
				q += str(ref::cfb([&](uint64_t x) { return mi.enc(x); }, {uint64_t(i)}, message(13, 1), false));
				q += str(ref::cfb([&](uint64_t x) { return mi.enc(x); }, {1, 2}, message(13, 1), true));
				q += str(ref::ecb([&](uint64_t x) { return mi.enc(x); }, message(8, 1)));
				q += str(ref::mac64([&](uint64_t x) { return mi.enc(x); }, message(9, 1)));
				q += str(ref::imit89([&](uint64_t x) { return mj.mac16(x); }, message(9, 1)));
				want.push_back(q);
			}
			s.push_back({"unrelated Magma objects in each thread" + th, [=] {
				std::vector<Body> b;
				for (int i = 0; i < n; i++) {
					auto wi = key_words(4 + i);
					Data msg = dat(message(13, 1)), msg8 = dat(message(8, 1));
					Bytes by = message(13, 1), by9 = message(9, 1);
					b.push_back([wi, t, i, msg, msg8, by, by9] {
						LKey k = key_string(wi), kn = key_native(wi, t), kt = key_native(wi, t, true);
						std::string q = str(gm::BlkEncrypted(make_shared<PureBlk64>(77), k).value());
						q += str(gm::BlkDecrypted(make_shared<PureBlk64>(78), kn).value());
						q += str(gm::EncryptionBase(kt).transform(79));
						q += content(make_shared<g89::CFBSink>(make_shared<PureSink>(), k, uint64_t(i))->write(msg)->finalize());
						q += str(drain(make_shared<gm::CFBSource>(make_shared<PureSource>(by), k, 1, 2), 8, 100));
						q += content(make_shared<gm::ECBSink>(make_shared<PureSink>(), k)->write(msg8)->finalize());
						q += str(gm::Imit(make_shared<PureSource>(by9), k).value());
						auto v = g89::DataImit(by9, kn).value();
						return q + str(ref::load64(&v[0]));
					});
				}
				return b;
			}, want, -1, nullptr});
			if (n == 2 || thorough) {
				Strings wk;
				for (int i = 0; i < n; i++) wk.push_back(str(ref_kuz(kuz_words(3 + i)).enc({1, 2})));
				s.push_back({"unrelated Kuznyechik keys in each thread" + th, [=] {
					std::vector<Body> b;
					for (int i = 0; i < n; i++) {
						auto kk = kuz_words(3 + i);
						b.push_back([kk] { return str(kuz_key(kk)->encrypt(make_shared<PureBlk>(U128{1, 2}))->value()); });
					}
					return b;
				}, wk, -1, nullptr});
			}
		}
		// ---- tables, key data and elementary blocks: nothing of theirs may be written to by using them
		for (int kind = 0; kind < 5; kind++) {
			static const char *const names[] = {"packed", "of rows", "default", "packed, rotated", "of rows, rotated"};
			auto make = [=]() -> shared_ptr<const gm::Sbox> {
				switch (kind) {
				case 0: return make_shared<gm::SboxByte>(ref::pack(t));
				case 1: return make_shared<gm::SboxNibble>(row(t, 0), row(t, 1), row(t, 2), row(t, 3), row(t, 4), row(t, 5), row(t, 6), row(t, 7));
				case 2: return make_shared<gm::SboxR3412>();
				case 3: return sbox_byte(t);
				default: return make_shared<gm::SboxTwisted>(make_unique<gm::SboxNibble>(row(t, 0), row(t, 1), row(t, 2), row(t, 3), row(t, 4), row(t, 5), row(t, 6), row(t, 7)));
				}
			};
			// each thread goes to and fro between two values, in an order of its own
			static const uint32_t vs[2] = {0x01234567, 0xfedcba98};
			Strings want;
			std::string o[2];
			for (int v = 0; v < 2; v++) { uint32_t q = ref::substitute(kind == 2 ? ref::table_r3412() : t, vs[v]); o[v] = str(uint64_t(kind >= 2 ? q << 11 | q >> 21 : q)) + " "; }
			for (int i = 0; i < n; i++) want.push_back(o[i % 2] + o[1 - i % 2] + o[i % 2]);
			s.push_back({std::string("Magma: one table (") + names[kind] + ")" + th, [=] {
				auto x = make();
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([x, i] {
					std::string q;
					for (int j = 0; j < 3; j++) q += str(uint64_t(x->transform(vs[(i + j) % 2]))) + " ";
					return q;
				});
				return b;
			}, want, n == 2 ? 3 : 1, nullptr});
		}
		{
			Strings want;
			for (int i = 0; i < n; i++) { auto wi = key_words(4 + i); want.push_back(str(ref_key(wi, t).enc(5)) + str(ref_key(wi, t).dec(6))); }
			s.push_back({"Magma: keys of their own over one table" + th, [=] {
				shared_ptr<const gm::Sbox> x = sbox_byte(t);
				std::vector<Body> b;
				for (int i = 0; i < n; i++) {
					auto k = make_shared<gm::LazyKey>(std::vector<uint32_t>(key_words(4 + i).begin(), key_words(4 + i).end()), x);
					b.push_back([k, i] { return str(gm::EncryptionBase(k).transform(5)) + str(gm::BlkDecrypted(make_shared<PureBlk64>(6), k).value()); });
				}
				return b;
			}, want, 1, nullptr});
			Strings words;
			for (int i = 0; i < n; i++) { std::string q; for (int j = 0; j < 3; j++) q += str(uint64_t(w[size_t(i * 3 + j) % 8])) + " "; words.push_back(q + q + str(kw.second) + str(kw.first)); }
			s.push_back({"key data from text and native, different words" + th, [=] {
				std::string text, kt = hexnum(kw.first) + hexnum(kw.second);
				for (auto x : w) { char b8[12]; snprintf(b8, sizeof b8, "%08x", x); text += b8; }
				auto d = make_shared<gm::KeyDataString>(text);
				auto e = make_shared<gm::KeyDataNative>(std::vector<uint32_t>(w.begin(), w.end()));
				auto f = make_shared<gk::KeyDataString>(kt);
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([d, e, f, i] {
					std::string q;
					for (int j = 0; j < 3; j++) q += str(uint64_t(d->key((i * 3 + j) % 8))) + " ";
					for (int j = 0; j < 3; j++) q += str(uint64_t(e->key((i * 3 + j) % 8))) + " ";
					return q + str(f->low()->value()) + str(f->high()->value());
				});
				return b;
			}, words, n == 2 ? 1 : 0, nullptr});
		}
		{
			U128 x{0x0123456789abcdefULL, 0xfedcba9876543210ULL}, y{0x1111111122222222ULL, 0x3333333344444444ULL};
			std::vector<std::string> o{
				str(uint64_t(x.lo << 5)), str(x.lo ^ y.lo), str(x.lo << 32 | x.lo >> 32), str(uint64_t(0xfedcba9876543210ULL)), str(x.lo),
				str(ref::shl(x, 67)), str(U128{x.lo ^ y.lo, x.hi ^ y.hi}), str(x), str(ref::inc(x)), str(y)};
			Strings want;
			for (int i = 0; i < n; i++) { std::string q; for (size_t j = 0; j < o.size(); j++) q += o[(j + size_t(i) * 3) % o.size()] + " "; want.push_back(q); }
			s.push_back({"elementary blocks" + th, [=] {
				auto px = make_shared<PureBlk64>(x.lo), py = make_shared<PureBlk64>(y.lo);
				auto qx = make_shared<PureBlk>(x), qy = make_shared<PureBlk>(y);
				auto m64 = make_shared<std::vector<B64>>(std::vector<B64>{make_shared<gm::BlkShifted>(px, 5), make_shared<gm::BlkXored>(px, py), make_shared<gm::BlkSwapped>(px),
					make_shared<gm::BlkString>("fedcba9876543210"), make_shared<gm::BlkRaw>(x.lo)});
				auto k128 = make_shared<std::vector<B128>>(std::vector<B128>{make_shared<gk::BlkShifted>(qx, 67), make_shared<gk::BlkXored>(qx, qy),
					make_shared<gk::BlkString>(hexnum(x)), make_shared<gk::BlkIncremented>(qx), make_shared<gk::BlkRaw>(y.lo, y.hi)});
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([m64, k128, i] {
					std::string q;
					for (size_t j = 0; j < 10; j++) { size_t a = (j + size_t(i) * 3) % 10; q += (a < 5 ? str((*m64)[a]->value()) : str((*k128)[a - 5]->value())) + " "; }
					return q;
				});
				return b;
			}, want, n == 2 ? 1 : 0, nullptr});
			Strings layers(size_t(n), str(ref::S(x)) + str(ref::R(x)) + str(ref::L(x)));
			s.push_back({"Kuznyechik layers" + th, [=] {
				auto qx = make_shared<PureBlk>(x);
				auto a = make_shared<gk::BlkS>(qx); auto c = make_shared<gk::BlkR>(qx); auto d = make_shared<gk::BlkL>(qx);
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([a, c, d] { return str(a->value()) + str(c->value()) + str(d->value()); });
				return b;
			}, layers, 1, nullptr});
		}
		{
			Bytes kb = message(32, 1);
			std::array<uint32_t, 8> cw;
			for (size_t i = 0; i < 8; i++) cw[i] = uint32_t(kb[i * 4]) << 24 | uint32_t(kb[i * 4 + 1]) << 16 | uint32_t(kb[i * 4 + 2]) << 8 | kb[i * 4 + 3];
			auto cm = ref_key(cw, t);
			Strings want(size_t(n), str(ref::ecb([=](uint64_t v) { return cm.dec(v); }, message(16, 3))));
			s.push_back({"ECB source from a container, read by all" + th, [=] {
				SourceP q = make_shared<gm::ECBSource>(make_shared<PureSource>(message(16, 3), 5), make_shared<PureContainer>(kb, ref::pack(t)));
				std::vector<Body> b;
				for (int i = 0; i < n; i++) b.push_back([q] { return str(drain(q, 8, 100)); });
				return b;
			}, want, 1, nullptr});
		}
		// ---- the last reference goes away in one of the threads
		{
			Strings want;
			for (int i = 0; i < n; i++) want.push_back(str(m.enc(uint64_t(i))));
			s.push_back({"the last user of a key drops it" + th, [=] {
				auto k = make_shared<LKey>(key_string(w));
				std::vector<Body> b;
				for (int i = 0; i < n; i++) {
					auto mine = make_shared<LKey>(*k);
					b.push_back([mine, i] { std::string q = str(gm::EncryptionBase(*mine).transform(uint64_t(i))); mine->reset(); return q; });
				}
				return b;
			}, want, 1, nullptr});
		}
	}
	return s;
}
const std::vector<Scenario> &scenarios(bool thorough) { static const std::vector<Scenario> s = build(thorough); return s; }

void run(mc::Run &r, const Scenario &s, int bound, bool refcounts, int part, int parts) {
	r.begin("%s: at most %d preemptions, %s", s.name.c_str(), bound, refcounts ? "reference counting included" : "locks and other atomics");
	double limit = r.thorough() ? 20000 : 500;
	auto o = sched::explore({bound, refcounts, true, part, parts}, [&] { return one(s); }, [&](uint64_t h) { r.state(h); r.trace(); r.tick(); }, [&] { return mc::elapsed() > limit; });
	r.step(o.points);
	if (o.failed) r.fail("%s: %s", s.name.c_str(), o.message.c_str());
	if (o.capped) r.capped(o.message.empty() ? "time: not all schedules of the slowest scenarios" : o.message.c_str());
	r.sample("%s: %d schedules, %llu schedule points, %llu memory accesses", s.name.c_str(), o.executions, (unsigned long long)o.points, (unsigned long long)o.accesses);
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	bool th = tier == Tier::thorough;
	auto &all = scenarios(th);
	for (size_t i = 0; i < all.size(); i++) {
		if (PROP == 16 && !all[i].c16) continue;
		// preemptions by the weight of the scenario: 3 tiny, 1 one encryption, 0 a few, -1 a Kuznyechik key
		int d = all[i].deep, n = int(all[i].want.size());
		int locks = d == 3 ? (n == 2 ? 3 : 2) : d == 1 && n == 2 ? 2 : 1;
		int every = d == 3 ? 2 : 1;
		if (th) { locks += d == 3 ? 2 : d == 1 ? 1 : d == 0 && n == 2 ? 1 : 0; every += d == 3 ? 1 : d == 1 && n == 2 ? 1 : 0; }
		int parts = d < 0 ? 8 : d == 3 && !th ? 1 : 4;
		for (int p = 0; p < parts; p++) {
			std::string nm = "s" + std::to_string(i) + "-" + std::to_string(p);
			out.push_back({nm + "-locks", [=](Run &r) { run(r, scenarios(r.thorough())[i], locks, false, p, parts); }, d < 0 ? 6 : 3});
			out.push_back({nm + "-all", [=](Run &r) { run(r, scenarios(r.thorough())[i], every, true, p, parts); }, d < 0 ? 7 : 4});
		}
	}
}
