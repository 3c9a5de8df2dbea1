// C15: values. Every branching history of operations over a pool of objects.
#include "env.h"
using namespace env;
using ref::U128;
const char *const mc::property = "C15";

namespace {
typedef shared_ptr<const gk::Stream> St;
typedef shared_ptr<const gk::Iterator> It;
const Cfb modes[2] = {{0, 0x1234567890abcdefULL, 0}, {1, 0x1234567890abcdefULL, 0x234567890abcdef1ULL}};
const int CFB89 = 0, CFBR = 1, ECB = 2;

struct Keys {
	std::array<uint32_t, 8> w = key_words(4);
	ref::MagmaKey m = ref_key(w, table(1));
	LKey k = key_native(w, table(1));
	SinkP sink(int mode, const SinkP &below) const { return mode == ECB ? SinkP(make_shared<gm::ECBSink>(below, k)) : modes[mode].sink(below, k); }
	SourceP source(int mode, const SourceP &below) const { return mode == ECB ? SourceP(make_shared<gm::ECBSource>(below, k)) : modes[mode].source(below, k); }
	Bytes enc(int mode, const Bytes &b) const { return mode == ECB ? ref::ecb([this](uint64_t x) { return m.enc(x); }, b) : modes[mode].model(m, b, false); }
	Bytes dec(int mode, const Bytes &b) const { return mode == ECB ? ref::ecb([this](uint64_t x) { return m.dec(x); }, b) : modes[mode].model(m, b, true); }
};
// ---------------------------------------------------------------- sinks
// One history: a list of (object to continue from, chunk). Object 0 is the fresh sink.
struct Op { int from, what; };
std::vector<size_t> chunks(int mode) { return mode == ECB ? std::vector<size_t>{0, 8, 16, 24} : std::vector<size_t>{0, 1, 7, 8, 11, 17}; }
std::string show(const std::vector<Op> &h, const std::vector<size_t> &ch, const char *verb) {
	std::string s;
	for (size_t i = 0; i < h.size(); i++) s += std::to_string(i + 1) + " := " + std::to_string(h[i].from) + "." + verb + "(" + std::to_string(ch[size_t(h[i].what)]) + "); ";
	return s;
}
void sink_history(mc::Run &r, const Keys &k, int mode, const std::vector<Op> &h, const std::vector<size_t> &ch, int how) {
	auto text = [&] { return show(h, ch, "write"); };
	std::vector<SinkP> pool;
	std::vector<Bytes> plain;
	Bytes prefix = message(3, 9);
	SinkP below = make_shared<RecSink>()->write(dat(prefix));
	pool.push_back(k.sink(mode, below));
	plain.push_back({});
	auto look = [&](size_t i) {
		auto f = pool[i]->finalize();
		auto *c = rec(f);
		Bytes want = prefix, e = k.enc(mode, plain[i]);
		want.insert(want.end(), e.begin(), e.end());
		if (!c || c->content() != want)
			r.fail("mode %d: %sfinalizing object %zu gives %s, expected %s", mode, text().c_str(), i, c ? hex(c->content()).c_str() : "no sink of ours", hex(want).c_str());
		r.step();
	};
	for (size_t n = 0; n < h.size(); n++) {
		size_t len = ch[size_t(h[n].what)];
		Bytes b = message(len, 10 + n);
		Data d = dat(b), copy = d;
		auto s = pool[size_t(h[n].from)]->write(d);
		if (d != copy) r.fail("mode %d: %sthe caller's data was modified by write %zu", mode, text().c_str(), n);
		std::fill(d.begin(), d.end(), std::byte(0x55));    // the caller goes on using his buffer
		d.clear(); d.shrink_to_fit();
		pool.push_back(s);
		Bytes p = plain[size_t(h[n].from)];
		p.insert(p.end(), b.begin(), b.end());
		plain.push_back(p);
		r.step();
		if (how == 1) look(size_t(h[n].from));       // observed on the way
		if (how == 2) look(n + 1);
	}
	if (how < 3) {
		for (size_t i = pool.size(); i-- > 0;) look(i);
		for (size_t i = 0; i < pool.size(); i++) look(i);
	} else {     // everything the newest object came from is gone before it is used
		for (size_t i = 0; i + 1 < pool.size(); i++) pool[i].reset();
		below.reset();
		look(pool.size() - 1);
		look(pool.size() - 1);
	}
	r.trace();
}
uint64_t hash(const std::vector<Op> &h, uint64_t s) { for (auto &o : h) s = mc::mix(s, uint64_t(o.from * 16 + o.what)); return s; }
template <class F> void histories(mc::Run &r, int kinds, int depth, int first, uint64_t salt, const F &f) {
	std::vector<Op> h(size_t(depth), Op{0, 0});
	h[0].what = first;
	for (;;) {
		f(h);
		r.state(hash(h, salt));
		int i = depth - 1;
		for (; i > 0; i--) {
			if (++h[size_t(i)].what < kinds) break;
			h[size_t(i)].what = 0;
			if (++h[size_t(i)].from <= i) break;
			h[size_t(i)].from = 0;
		}
		if (i == 0) return;
	}
}
void sinks(mc::Run &r, int mode, int first, int depth, int how) {
	Keys k;
	auto ch = chunks(mode);
	r.begin("mode %d, sink histories of depth %d starting with write(%zu), observed in way %d", mode, depth, ch[size_t(first)], how);
	histories(r, int(ch.size()), depth, first, uint64_t(mode * 10 + how), [&](const std::vector<Op> &h) { sink_history(r, k, mode, h, ch, how); });
	r.sample("mode %d: every branching history of %d writes from any earlier object", mode, depth);
}
// ---------------------------------------------------------------- sources
void source_history(mc::Run &r, const Keys &k, int mode, const Bytes &cipher, const Bytes &plain, const std::vector<Op> &h, const std::vector<size_t> &ask, int how) {
	auto text = [&] { return show(h, ask, "read"); };
	std::vector<SourceP> pool;
	std::vector<size_t> at{0};
	auto tape = MemSource::make_tape(cipher);
	tape->cut.assign(cipher.size(), false);
	if (how & 1) for (size_t i = 2; i < cipher.size(); i += 3) tape->cut[i] = true;
	pool.push_back(k.source(mode, make_shared<MemSource>(tape)));
	auto read = [&](size_t i, size_t n) {
		auto x = pool[i]->read(n);
		size_t want = std::min(mode == ECB ? 8 : n, plain.size() - at[i]);
		if (bytes(x.first) != Bytes(plain.begin() + long(at[i]), plain.begin() + long(at[i] + want)))
			r.fail("mode %d: %sread(%zu) from object %zu gives %s, expected %s", mode, text().c_str(), n, i, hex(bytes(x.first)).c_str(), hex(Bytes(plain.begin() + long(at[i]), plain.begin() + long(at[i] + want))).c_str());
		std::fill(x.first.begin(), x.first.end(), std::byte(0x55));
		r.step();
		return x.second;
	};
	for (size_t n = 0; n < h.size(); n++) {
		size_t i = size_t(h[n].from), a = ask[size_t(h[n].what)];
		auto s = read(i, a);
		at.push_back(at[i] + std::min(mode == ECB ? 8 : a, plain.size() - at[i]));
		pool.push_back(s);
	}
	if (how & 2) {    // destroy in order of creation, use the newest
		for (size_t i = 0; i + 1 < pool.size(); i++) pool[i].reset();
		read(pool.size() - 1, 16); read(pool.size() - 1, 8);
	} else {
		for (size_t i = pool.size(); i-- > 0;) read(i, 9);
		for (size_t i = 0; i < pool.size(); i++) read(i, 40);
	}
	r.trace();
}
void sources(mc::Run &r, int mode, int first, int depth, int how) {
	Keys k;
	std::vector<size_t> ask = mode == ECB ? std::vector<size_t>{8, 9, 24} : std::vector<size_t>{0, 1, 3, 8, 13};
	Bytes cipher = message(mode == ECB ? 24 : 21, 1), plain = k.dec(mode, cipher);
	r.begin("mode %d, source histories of depth %d starting with read(%zu), way %d", mode, depth, ask[size_t(first)], how);
	histories(r, int(ask.size()), depth, first, uint64_t(1000 + mode * 10 + how), [&](const std::vector<Op> &h) { source_history(r, k, mode, cipher, plain, h, ask, how); });
}
// ---------------------------------------------------------------- everything sharing keys
struct World {
	// two Magma keys, two Kuznyechik keys, shared objects made with them
	std::array<uint32_t, 8> w[2] = {key_words(0), key_words(5)};
	LKey k[2] = {key_string(w[0]), key_native(w[1], table(1))};
	ref::MagmaKey m[2] = {ref_key(w[0]), ref_key(w[1], table(1))};
	KKey q[2] = {kuz_key(kuz_words(0)), kuz_key(kuz_words(4))};
	ref::KuzKey n[2] = {ref_kuz(kuz_words(0)), ref_kuz(kuz_words(4))};
	Bytes msg = message(19, 1);
	SourceP src = make_shared<MemSource>(msg);
	std::vector<uint64_t> words{1, 2, 3, 4, 5};
	St st = make_shared<gk::StMemory>(words);
	std::vector<U128> blocks{{1, 2}, {3, 4}, {5, 0}};
	shared_ptr<const gm::Block> b = make_shared<gm::BlkRaw>(0x0123456789abcdefULL);
	shared_ptr<const gk::Block> c = make_shared<gk::BlkRaw>(5, 6);
	shared_ptr<const gm::Imit> im[2] = {make_shared<gm::Imit>(src, k[0]), make_shared<gm::Imit>(src, k[1])};
	shared_ptr<const gk::Imit> ik[2] = {make_shared<gk::Imit>(st, q[0]), make_shared<gk::Imit>(make_shared<gk::StCTREncrypted>(st, q[0], 9), q[1])};
	St ctr = make_shared<gk::StCTREncrypted>(st, q[1], 77);
	shared_ptr<g89::DataImit> di[2] = {make_shared<g89::DataImit>(msg, k[0]), make_shared<g89::DataImit>(msg, k[1])};
	shared_ptr<gm::BlkEncrypted> be = make_shared<gm::BlkEncrypted>(b, k[1]);
	shared_ptr<gk::BlkCached> bc = make_shared<gk::BlkCached>(make_shared<gk::BlkEncrypted>(c, q[0]));
	Bytes c89 = modes[0].model(m[0], msg, false), cR = modes[1].model(m[1], msg, false);
	SinkP sk[2] = {modes[0].sink(make_shared<RecSink>(), k[0]), modes[1].sink(make_shared<RecSink>(), k[1])};
	SinkP esk = make_shared<gm::ECBSink>(make_shared<RecSink>(), k[0]);
	SourceP ecb = make_shared<gm::ECBSource>(make_shared<MemSource>(Bytes(msg.begin(), msg.begin() + 16)), k[1]);
	SourceP so[2] = {modes[0].source(make_shared<MemSource>(c89), k[0]), modes[1].source(make_shared<MemSource>(cR), k[1])};
};
// The first USES actions are looked at when they are done; those from FAILS on are refused or fail below.
const int USES = 22, FAILS = 22, ACTIONS = 32;
// Something that does not work out, the n-th consultation of a collaborator at the latest
template <class F> void fails(mc::Run &r, int64_t n, const F &f) {
	Fault::arm(n, int(n & 3));
	try { f(); } catch (...) { r.step(); }
	Fault::disarm();
}
// Performs action a and compares with what the model says, whatever happened before
void act(mc::Run &r, const World &w, int a, const std::string &text) {
	auto eq64 = [&](uint64_t got, uint64_t want) { if (got != want) r.fail("%s: action %d gives %016llx, expected %016llx", text.c_str(), a, (unsigned long long)got, (unsigned long long)want); };
	auto eq128 = [&](U128 got, U128 want) { if (got != want) r.fail("%s: action %d gives %s, expected %s", text.c_str(), a, hexnum(got).c_str(), hexnum(want).c_str()); };
	auto eqb = [&](const Bytes &got, const Bytes &want) { if (got != want) r.fail("%s: action %d gives %s, expected %s", text.c_str(), a, hex(got).c_str(), hex(want).c_str()); };
	auto E = [&](int i) { return [&w, i](uint64_t x) { return w.m[i].enc(x); }; };
	auto F = [&](int i) { return [&w, i](U128 x) { return w.n[i].enc(x); }; };
	auto dec16 = [&] { return ref::ecb([&w](uint64_t x) { return w.m[1].dec(x); }, Bytes(w.msg.begin(), w.msg.begin() + 16)); };
	int i = a & 1;
	switch (a / 2) {
	case 0: eq64(num(gm::BlkEncrypted(w.b, w.k[i]).value()), w.m[i].enc(0x0123456789abcdefULL)); break;
	case 1: eq64(num(gm::BlkDecrypted(w.b, w.k[i]).value()), w.m[i].dec(0x0123456789abcdefULL)); break;
	case 2: eq64(num(w.im[i]->value()), ref::mac64(E(i), w.msg)); break;
	case 3: eqb(w.di[i]->value(), [&] { Bytes b(8); ref::store64(&b[0], ref::imit89([&](uint64_t x) { return w.m[i].mac16(x); }, w.msg)); return b; }()); break;
	case 4: eq128(ref::u128(gk::BlkEncrypted(w.c, w.q[i]).value()), w.n[i].enc({5, 6})); break;
	case 5: {
		auto c = w.blocks;
		if (i) for (size_t j = 0; j < 3; j++) c[j] = ref::ctr_block(F(0), 9, j, c[j]);
		eq128(ref::u128(w.ik[i]->value()), ref::mac128(F(i), c, 8));
		break;
	}
	case 6: {
		auto s = i ? w.sk[0]->write(dat(w.msg)) : w.sk[1]->write(dat(w.msg, 0, 9))->write(dat(w.msg, 9, 10));
		auto f = s->finalize();
		auto *c = rec(f);
		eqb(c ? c->content() : Bytes(), i ? w.c89 : w.cR);
		break;
	}
	case 7: eqb(drain(w.so[i], 5), w.msg); break;
	case 8: {
		auto it = w.ctr->iter();
		if (i) { it = it->next(); eq128(ref::u128(it->value()), ref::ctr_block(F(1), 77, 1, w.blocks[1])); it = it->next(); eq128(ref::u128(it->value()), ref::ctr_block(F(1), 77, 2, w.blocks[2])); }
		else eq128(ref::u128(it->value()), ref::ctr_block(F(1), 77, 0, w.blocks[0]));
		break;
	}
	case 10:
		if (i) eqb(drain(w.ecb, 8), dec16());
		else {
			auto f = w.esk->write(dat(w.msg, 0, 8))->write(dat(w.msg, 3, 16))->finalize();
			auto *c = rec(f);
			Bytes p(w.msg.begin(), w.msg.begin() + 8), want;
			p.insert(p.end(), w.msg.begin() + 3, w.msg.begin() + 19);
			eqb(c ? c->content() : Bytes(), ref::ecb(E(0), p));
		}
		break;
	case 11:    // not whole blocks
		if (i) fails(r, -1, [&] { drain(make_shared<gm::ECBSource>(w.src, w.k[1]), 8); });
		else { fails(r, -1, [&] { w.esk->write(dat(w.msg, 0, 13)); }); fails(r, -1, [&] { w.ecb->read(7); }); }
		break;
	case 12:    // malformed material
		if (i) { fails(r, -1, [&] { gm::LazyKey(std::vector<uint32_t>(7, 5), sbox_byte(table(1))).transform(1, 0); }); fails(r, -1, [&] { gm::LazyKey(std::vector<uint32_t>(8, 5), sbox_byte(table(1))).transform(1, 9); }); }
		else {
			fails(r, -1, [&] { gm::KeyDataString("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdeg").key(7); });
			fails(r, -1, [&] { gm::BlkString("0123456789abcdeg").value(); });
			fails(r, -1, [&] { gk::BlkString("0123456789abcdef0123456789abcdeg").value(); });
			fails(r, -1, [&] { gk::Key("0123456789abcdef").encrypt(w.c)->value(); });
		}
		break;
	case 13:    // what lies below fails
		for (int n = 0; n < 3; n++) {
			if (i) { fails(r, n, [&] { drain(w.so[0], 5); }); fails(r, n, [&] { drain(w.ecb, 8); }); fails(r, n, [&] { drain(w.so[1], 9); }); }
			else { fails(r, n, [&] { w.sk[n & 1]->write(dat(w.msg))->write(dat(w.msg))->finalize(); }); fails(r, n, [&] { w.esk->write(dat(w.msg, 0, 16))->write(dat(w.msg, 0, 8))->finalize(); }); }
		}
		break;
	case 14:
		for (int n = 0; n < 6; n += 2) {
			if (i) fails(r, n, [&] { gk::Imit(make_shared<StubStream>(w.blocks, 8), w.q[0]).value(); });
			else { fails(r, n / 2, [&] { w.im[0]->value(); }); fails(r, n / 2, [&] { gm::Imit(w.src, w.k[1]).value(); }); }
		}
		break;
	case 15:
		if (i) {
			fails(r, 0, [&] { w.q[0]->encrypt(make_shared<StubBlk128>(U128{5, 6}))->value(); });
			for (int n = 0; n < 5; n++) fails(r, n, [&] { auto it = gk::StCTREncrypted(make_shared<StubStream>(w.blocks, 8), w.q[1], 77).iter(); it->value(); it = it->next(); it->value(); it->next()->value(); });
		} else for (int n : {0, 17, 33}) {
			auto k = make_shared<StubKey>([](uint32_t v, int j) { return v * 5 + uint32_t(j); });
			fails(r, n, [&] { gm::BlkEncrypted(make_shared<StubBlk64>(3), k).value(); });
			fails(r, n, [&] { gm::BlkDecrypted(make_shared<StubBlk64>(3), k).value(); });
			fails(r, n, [&] { gm::EncryptionBase(k).transform(9); });
		}
		break;
	default:
		if (i) eq64(num(w.be->value()), w.m[1].enc(0x0123456789abcdefULL));
		else eq128(ref::u128(w.bc->value()), w.n[0].enc({5, 6}));
	}
	r.step();
}
void actions(mc::Run &r, int first) {
	int depth = r.thorough() ? 4 : 3;
	std::vector<int> h(size_t(depth), 0);
	h[0] = first;
	r.begin("sequences of %d actions on shared keys and objects, starting with %d", depth, first);
	// at most one of the actions fails, and not the last: it is for the others to show what it left behind
	auto wanted = [&] {
		int n = 0;
		for (int a : h) n += a >= FAILS;
		return n == 0 || (n == 1 && h.back() < FAILS);
	};
	for (;;) {
		if (!wanted()) {
			int i = depth - 1;
			while (i > 0 && ++h[size_t(i)] == ACTIONS) h[size_t(i--)] = 0;
			if (i == 0) break;
			continue;
		}
		World w;
		std::string t = "actions";
		for (int a : h) { t += " " + std::to_string(a); act(r, w, a, t); }
		uint64_t s = 5;
		for (int a : h) s = mc::mix(s, uint64_t(a));
		r.state(s); r.trace();
		int i = depth - 1;
		while (i > 0 && ++h[size_t(i)] == ACTIONS) h[size_t(i--)] = 0;
		if (i == 0) break;
	}
	if (first) return;
	// one world, all ordered pairs on top of each other (a walk through every pair)
	World w;
	for (int a = 0; a < ACTIONS; a++) for (int b = 0; b < ACTIONS; b++) { char t[64]; snprintf(t, sizeof t, "walk, %d after %d", b, a); act(r, w, a, t); act(r, w, b, t); r.trace(); }
}
// ---------------------------------------------------------------- CTR iterators
void ctr_history(mc::Run &r, const std::vector<Op> &h, const KKey &k, const ref::KuzKey &m, int how) {
	std::vector<U128> b{{1, 2}, {3, 4}, {5, 6}, {7, 0}};
	std::vector<It> pool;
	std::vector<size_t> at{0};
	{
		St in = make_shared<gk::StMemory>(std::vector<uint64_t>{1, 2, 3, 4, 5, 6, 7});
		St st = make_shared<gk::StCTREncrypted>(in, k, 0xfeULL << 56);
		pool.push_back(st->iter());
	}
	auto look = [&](size_t i) {
		U128 want = ref::ctr_block([&](U128 x) { return m.enc(x); }, 0xfeULL << 56, at[i], b[at[i]]);
		if (ref::u128(pool[i]->value()) != want || pool[i]->last() != (at[i] == 3) || pool[i]->size() != (at[i] == 3 ? 8 : 16))
			r.fail("CTR iterators: object %zu at block %zu yields %s, expected %s", i, at[i], hexnum(ref::u128(pool[i]->value())).c_str(), hexnum(want).c_str());
		r.step();
	};
	for (auto &o : h) {
		size_t i = size_t(o.from);
		if (o.what == 1) { look(i); pool.push_back(pool[i]); at.push_back(at[i]); }
		else if (at[i] == 3) { pool.push_back(pool[i]); at.push_back(at[i]); }
		else { pool.push_back(pool[i]->next()); at.push_back(at[i] + 1); }
	}
	if (how) { for (size_t i = 0; i + 1 < pool.size(); i++) pool[i].reset(); look(pool.size() - 1); look(pool.size() - 1); }
	else for (size_t i = pool.size(); i-- > 0;) look(i);
	r.trace();
}
void ctrs(mc::Run &r, int first) {
	auto k = kuz_key(kuz_words(3));
	auto m = ref_kuz(kuz_words(3));
	int depth = r.thorough() ? 6 : 5;
	for (int how = 0; how < 2; how++) {
		r.begin("CTR iterator histories of depth %d, way %d", depth, how);
		histories(r, 2, depth, first, uint64_t(5000 + how), [&](const std::vector<Op> &h) { ctr_history(r, h, k, m, how); });
	}
}
// ---------------------------------------------------------------- lifetimes and inputs
void lifetimes(mc::Run &r) {
	auto w = key_words(4);
	auto m = ref_key(w, table(1));
	auto e64 = [&](uint64_t x) { return m.enc(x); };
	Bytes msg = message(19, 1);
	r.begin("everything an object was made from is destroyed or overwritten first");
	for (int round = 0; round < 2; round++) {
		{   // key data given as a vector and as text
			std::vector<uint32_t> v(w.begin(), w.end());
			Bytes p = ref::pack(table(1));
			auto k = make_shared<gm::LazyKey>(v, make_shared<gm::SboxTwisted>(make_unique<gm::SboxByte>(p)));
			std::fill(v.begin(), v.end(), 0x55555555u); v.clear(); v.shrink_to_fit();
			std::fill(p.begin(), p.end(), uint8_t(0x55)); p.clear(); p.shrink_to_fit();
			if (gm::EncryptionBase(k).transform(77) != m.enc(77)) r.fail("a key depends on the caller's vector");
		}
		{
			std::vector<int> q[8];
			for (size_t i = 0; i < 8; i++) q[i] = row(table(1), int(i));
			auto sb = make_shared<gm::SboxTwisted>(make_unique<gm::SboxNibble>(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]));
			for (auto &x : q) { std::fill(x.begin(), x.end(), 7); x.clear(); x.shrink_to_fit(); }
			auto k = make_shared<gm::LazyKey>(std::vector<uint32_t>(w.begin(), w.end()), sb);
			if (gm::EncryptionBase(k).transform(77) != m.enc(77)) r.fail("a table depends on the caller's rows");
		}
		{
			std::string s = key_text(w), long_copy = s;
			auto k = make_shared<gm::LazyKey>(long_copy);
			gk::Key kk(long_copy);
			gm::KeyDataString d(long_copy);
			std::fill(long_copy.begin(), long_copy.end(), '0');
			long_copy.clear(); long_copy.shrink_to_fit();
			if (gm::EncryptionBase(k).transform(77) != ref_key(w).enc(77)) r.fail("a key depends on the caller's text");
			if (d.key(3) != w[3]) r.fail("key data depends on the caller's text");
			gk::Key k2(s);
			auto x = make_shared<gk::BlkRaw>(1, 2);
			if (kk.encrypt(x)->value() != k2.encrypt(x)->value()) r.fail("a Kuznyechik key depends on the caller's text");
		}
		{
			std::string t = "0123456789abcdef0123456789abcdef";
			gk::BlkString b(t);
			std::string t2 = t.substr(0, 16);
			gm::BlkString b2(t2);
			t.assign(32, '0'); t2.assign(16, '0');
			if (ref::u128(b.value()) != U128{0x0123456789abcdefULL, 0x0123456789abcdefULL} || num(b2.value()) != 0x0123456789abcdefULL) r.fail("a block depends on the caller's text");
		}
		{
			std::vector<uint8_t> in = msg;
			auto d = make_shared<g89::DataImit>(in, key_native(w, table(1)));
			uint64_t want = ref::imit89([&](uint64_t x) { return m.mac16(x); }, msg);
			std::fill(in.begin(), in.end(), uint8_t(0)); in.clear(); in.shrink_to_fit();
			if (ref::load64(&d->value()[0]) != want) r.fail("a GOST 28147-89 MAC depends on the caller's vector afterwards");
		}
		{
			Bytes kb(32), sb = ref::pack(table(1));
			for (size_t i = 0; i < 8; i++) for (size_t j = 0; j < 4; j++) kb[i * 4 + j] = uint8_t(w[i] >> (24 - 8 * j));
			SourceP s;
			{ auto c = make_shared<StubContainer>(kb, sb); s = make_shared<gm::ECBSource>(make_shared<MemSource>(message(16, 1)), shared_ptr<const gm::Container>(c)); }
			if (drain(s, 8) != ref::ecb([&](uint64_t x) { return m.dec(x); }, message(16, 1))) r.fail("a source needs its container afterwards");
		}
		{   // encrypted blocks outlive key handles and their inputs
			std::unique_ptr<const gk::Block> e;
			{ auto k = kuz_key(kuz_words(3)); auto in = make_shared<gk::BlkRaw>(5, 6); e = k->encrypt(in); }
			if (ref::u128(e->value()) != ref_kuz(kuz_words(3)).enc({5, 6})) r.fail("an encrypted block needs its key handle");
			shared_ptr<const gm::Block> b;
			{ LKey k = key_native(w, table(1)); b = make_shared<gm::BlkEncrypted>(make_shared<gm::BlkRaw>(77ULL), k); }
			if (num(b->value()) != m.enc(77)) r.fail("an encrypted block needs its key handle");
			{ LKey k = key_native(w, table(1)); b = make_shared<gm::BlkDecrypted>(b, k); }
			if (num(b->value()) != 77) r.fail("a decrypted block needs its key handle");
		}
		{
			shared_ptr<const gm::Imit> im;
			{ auto src = make_shared<MemSource>(msg); im = make_shared<gm::Imit>(src, key_native(w, table(1))); }
			for (int i = 0; i < 3; i++) if (num(im->value()) != ref::mac64(e64, msg)) r.fail("a Magma MAC differs at evaluation %d", i);
			shared_ptr<const gk::Imit> ik;
			{ auto st = make_shared<gk::StMemory>(std::vector<uint64_t>{1, 2, 3}); ik = make_shared<gk::Imit>(make_shared<gk::StCTREncrypted>(st, kuz_key(kuz_words(3)), 5), kuz_key(kuz_words(4))); }
			auto a = ik->value();
			if (ik->value() != a) r.fail("a Kuznyechik MAC differs at its second evaluation");
			auto km = ref_kuz(kuz_words(3)), kn = ref_kuz(kuz_words(4));
			std::vector<U128> bl{ref::ctr_block([&](U128 x) { return km.enc(x); }, 5, 0, {1, 2}), ref::ctr_block([&](U128 x) { return km.enc(x); }, 5, 1, {3, 0})};
			if (ref::u128(a) != ref::mac128([&](U128 x) { return kn.enc(x); }, bl, 8)) r.fail("a Kuznyechik MAC needs what it was made from");
		}
		for (int mode = 0; mode < 3; mode++) {   // finalized and continued: finalize twice, write after finalize
			Keys k;
			Bytes p = message(24, 1), e = k.enc(mode, p);
			auto s = k.sink(mode, make_shared<RecSink>())->write(dat(p, 0, 8));
			auto f1 = s->finalize(), f2 = s->finalize();
			auto g = s->write(dat(p, 8, 16));
			auto f3 = g->finalize();
			Bytes want(e.begin(), e.begin() + 8);
			for (auto &f : {f1, f2}) { auto *c = rec(f); if (!c || c->content() != want) r.fail("mode %d: finalizing changes", mode); }
			if (!rec(f3) || rec(f3)->content() != e) r.fail("mode %d: writing after finalizing differs", mode);
			f1.reset(); f2.reset(); s.reset();
			auto f4 = g->finalize();
			if (!rec(f4) || rec(f4)->content() != e) r.fail("mode %d: finalizing again differs", mode);
		}
		r.step(30); r.trace(12); r.state(uint64_t(round) + 99);
	}
}
// ---------------------------------------------------------------- generations
// Objects of one kind made, used and destroyed one after another, so that later ones take the
// places of earlier ones. A variant is a choice of every parameter: bit 0 key, 1 table,
// 2 synchronisation value, 3 contents, 4 length.
const int KINDS = 24;
struct Variant {
	int v;
	std::array<uint32_t, 8> w_;
	ref::Table t_;
	uint64_t iv_;
	Bytes msg_;
	std::pair<U128, U128> qw_;
	explicit Variant(int v) : v(v), w_(key_words(v & 1 ? 5 : 4)), t_(table(v & 2 ? 1 : 0)), iv_(v & 4 ? 0x1234567890abcdefULL : 0x0fedcba987654321ULL),
		msg_(message(v & 16 ? 24 : 16, v & 8 ? 7 : 8)), qw_(kuz_words(v & 1 ? 5 : 4)) { if (v & 2) qw_.second.hi ^= 1; }
	const std::array<uint32_t, 8> &w() const { return w_; }
	const ref::Table &t() const { return t_; }
	LKey key() const { return v & 32 ? key_string(w(), t()) : key_native(w(), t()); }
	ref::MagmaKey m() const { return ref_key(w(), t()); }
	uint64_t iv() const { return iv_; }
	Bytes msg() const { return msg_; }
	Bytes odd() const { return Bytes(msg_.begin(), msg_.end() - 3); }
	uint64_t b() const { return ref::load64(&msg_[0]); }
	U128 c() const { return {b(), b() ^ 0x55}; }
	std::pair<U128, U128> qw() const { return qw_; }
	// One element of one parameter changed; false when i is beyond the last one
	bool tweak(int i) {
		if (i < 64) {     // a digit of a key, of either cipher
			w_[size_t(i / 8)] ^= 1u << (i % 8 * 4);
			(i < 32 ? (i < 16 ? qw_.first.hi : qw_.first.lo) : i < 48 ? qw_.second.hi : qw_.second.lo) ^= 1ULL << (i % 16 * 4);
			return true;
		}
		if ((i -= 64) < 128) { t_.pi[i / 16][i % 16] ^= 1; return true; }
		if ((i -= 128) < 64) { iv_ ^= 1ULL << i; return true; }
		if ((i -= 64) < int(msg_.size()) - 3) { msg_[size_t(i)] ^= 1; return true; }
		return false;
	}
};
void generation(mc::Run &r, int kind, const Variant &x, std::vector<shared_ptr<const void>> *keep, const std::string &text) {
	auto eqb = [&](const Bytes &got, const Bytes &want) { if (got != want) r.fail("%s: %s, expected %s", text.c_str(), hex(got).c_str(), hex(want).c_str()); };
	auto eq64 = [&](uint64_t got, uint64_t want) { if (got != want) r.fail("%s: %016llx, expected %016llx", text.c_str(), (unsigned long long)got, (unsigned long long)want); };
	auto eq128 = [&](U128 got, U128 want) { if (got != want) r.fail("%s: %s, expected %s", text.c_str(), hexnum(got).c_str(), hexnum(want).c_str()); };
	auto hold = [&](const shared_ptr<const void> &p) { if (keep) keep->push_back(p); };
	auto put = [&](const SinkP &s, const Bytes &d) { auto f = s->write(dat(d))->finalize(); auto *c = rec(f); RecSink::newest.reset(); return c ? c->content() : Bytes(); };
	const auto m = x.m();
	auto E = [&](uint64_t v) { return m.enc(v); };
	Cfb cfb{kind & 1, x.iv(), x.iv() * 3};
	switch (kind) {
	case 0: { auto e = make_shared<gm::EncryptionBase>(x.key()); hold(e); eq64(e->transform(x.b()), m.enc(x.b())); break; }
	case 1: { auto e = make_shared<gm::BlkEncrypted>(make_shared<gm::BlkRaw>(x.b()), x.key()); hold(e); eq64(num(e->value()), m.enc(x.b())); break; }
	case 2: { auto e = make_shared<gm::BlkDecrypted>(make_shared<gm::BlkRaw>(x.b()), x.key()); hold(e); eq64(num(e->value()), m.dec(x.b())); break; }
	case 3: { auto e = make_shared<gm::Imit>(make_shared<MemSource>(x.odd()), x.key()); hold(e); eq64(num(e->value()), ref::mac64(E, x.odd())); break; }
	case 4: case 5: { auto s = cfb.sink(make_shared<RecSink>(), x.key()); hold(s); eqb(put(s, x.odd()), cfb.model(m, x.odd(), false)); break; }
	case 6: case 7: { auto s = cfb.source(make_shared<MemSource>(x.odd()), x.key()); hold(s); eqb(drain(s, 5), cfb.model(m, x.odd(), true)); break; }
	case 8: { auto s = make_shared<gm::ECBSink>(make_shared<RecSink>(), x.key()); hold(s); eqb(put(s, x.msg()), ref::ecb(E, x.msg())); break; }
	case 9: { auto s = make_shared<gm::ECBSource>(make_shared<MemSource>(x.msg()), AKey(x.key())); hold(s); eqb(drain(s, 8), ref::ecb([&](uint64_t v) { return m.dec(v); }, x.msg())); break; }
	case 10: { auto d = make_shared<g89::DataImit>(x.odd(), x.key()); hold(d); Bytes want(8); ref::store64(&want[0], ref::imit89([&](uint64_t v) { return m.mac16(v); }, x.odd())); eqb(d->value(), want); break; }
	case 11: { auto d = make_shared<g89::ImitedBlock>(gm::BlkRaw(x.b()), x.key()); hold(d); eq64(num(d->value().value()), m.mac16(x.b())); break; }
	case 12: {   // the caller's own implementation of the key interface
		auto f = x.key();
		auto k = make_shared<StubKey>([f](uint32_t v, int i) { return f->transform(v, i); });
		hold(k);
		eq64(gm::EncryptionBase(k).transform(x.b()), m.enc(x.b()));
		eq64(num(gm::BlkDecrypted(make_shared<gm::BlkRaw>(x.b()), k).value()), m.dec(x.b()));
		break;
	}
	case 13: {
		auto k = make_shared<gm::KeyDataString>(key_text(x.w()));
		auto c = make_shared<gm::KeyCachedData>(make_unique<gm::KeyDataString>(key_text(x.w())));
		auto n = make_shared<gm::KeyDataNative>(std::vector<uint32_t>(x.w().begin(), x.w().end()));
		hold(k); hold(c); hold(n);
		auto w = x.w();
		for (int i = 0; i < 8; i++) { eq64(k->key(i), w[size_t(i)]); eq64(c->key(i), w[size_t(i)]); eq64(n->key(i), w[size_t(i)]); }
		break;
	}
	case 14: {
		auto a = sbox_byte(x.t()), b = sbox_nibble(x.t());
		hold(a); hold(b);
		uint32_t v = uint32_t(x.b());
		uint32_t want = 0;
		for (int i = 0; i < 8; i++) want |= uint32_t(x.t().pi[i][(v >> (4 * i)) & 15]) << (4 * i);
		want = want << 11 | want >> 21;
		eq64(a->transform(v), want); eq64(b->transform(v), want);
		break;
	}
	case 15: { auto q = kuz_key(x.qw()); hold(q); auto e = make_shared<gk::BlkEncrypted>(make_shared<gk::BlkRaw>(x.c().lo, x.c().hi), q); hold(e); eq128(ref::u128(e->value()), ref_kuz(x.qw()).enc(x.c())); break; }
	case 16: {
		auto n = ref_kuz(x.qw());
		std::vector<U128> b{{1, 2}, {x.b(), 3}};
		if (x.v & 16) b.push_back({5, 6});
		auto s = make_shared<StubStream>(b, x.v & 4 ? 16 : 9);
		auto i = make_shared<gk::Imit>(s, kuz_key(x.qw()));
		hold(i);
		eq128(ref::u128(i->value()), ref::mac128([&](U128 v) { return n.enc(v); }, b, x.v & 4 ? 16 : 9));
		break;
	}
	case 17: {
		auto n = ref_kuz(x.qw());
		std::vector<uint64_t> w{1, 2, x.b()};
		if (x.v & 16) w.push_back(9);
		auto s = make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(w), kuz_key(x.qw()), x.iv());
		hold(s);
		auto i = s->iter();
		auto F = [&](U128 v) { return n.enc(v); };
		eq128(ref::u128(i->value()), ref::ctr_block(F, x.iv(), 0, {1, 2}));
		i = i->next();
		eq128(ref::u128(i->value()), ref::ctr_block(F, x.iv(), 1, {x.b(), x.v & 16 ? 9ULL : 0}));
		eq64(i->size(), x.v & 16 ? 16 : 8);
		break;
	}
	case 18: {
		auto c = make_shared<gk::BlkCached>(make_shared<StubBlk128>(x.c()));
		hold(c);
		eq128(ref::u128(c->value()), x.c());
		break;
	}
	case 19: {
		std::vector<uint64_t> w{1, x.b(), x.iv()};
		if (x.v & 16) w.push_back(9);
		auto s = make_shared<gk::StMemory>(w);
		hold(s);
		auto i = s->iter();
		eq128(ref::u128(i->value()), {1, x.b()});
		i = i->next();
		eq128(ref::u128(i->value()), {x.iv(), x.v & 16 ? 9ULL : 0});
		eq64(i->size(), x.v & 16 ? 16 : 8);
		break;
	}
	case 20: {
		auto b = make_shared<gk::BlkRaw>(x.c().lo, x.c().hi);
		hold(b);
		eq128(ref::u128(gk::BlkL(b).value()), ref::L(x.c()));
		eq128(ref::u128(gk::BlkS(b).value()), ref::S(x.c()));
		eq128(ref::u128(gk::BlkXored(b, make_shared<gk::BlkRaw>(x.iv(), 0)).value()), {x.c().lo ^ x.iv(), x.c().hi});
		eq128(ref::u128(gk::BlkIncremented(b).value()), {x.c().lo + 1, x.c().hi});
		eq128(ref::u128(gk::BlkShifted(b, x.v & 16 ? 8 : 0).value()), x.v & 16 ? U128{x.c().lo << 8, x.c().hi << 8 | x.c().lo >> 56} : x.c());
		break;
	}
	case 21: {
		auto b = make_shared<gm::BlkString>(hexnum(x.b()));
		auto c = make_shared<gk::BlkString>(hexnum(x.c()));
		hold(b); hold(c);
		eq64(num(b->value()), x.b());
		eq128(ref::u128(c->value()), x.c());
		break;
	}
	case 22: {   // a container's key
		Bytes kb(32);
		for (size_t i = 0; i < 8; i++) for (size_t j = 0; j < 4; j++) kb[i * 4 + j] = uint8_t(x.w()[i] >> (24 - 8 * j));
		auto s = make_shared<gm::ECBSource>(make_shared<MemSource>(x.msg()), shared_ptr<const gm::Container>(make_shared<StubContainer>(kb, ref::pack(x.t()))));
		hold(s);
		eqb(drain(s, 8), ref::ecb([&](uint64_t v) { return m.dec(v); }, x.msg()));
		break;
	}
	default: {
		auto k = make_shared<gk::Key>(make_shared<StubKuzData>(x.qw().first, x.qw().second));
		hold(k);
		eq128(ref::u128(k->encrypt(make_shared<StubBlk128>(x.c()))->value()), ref_kuz(x.qw()).enc(x.c()));
	}
	}
	r.step();
}
// Every pair of variants of one kind, and back to the first, under every reuse of places
void generations(mc::Run &r, int kind, int policy) {
	r.begin("generations of kind %d, places reused in way %d", kind, policy);
	mc::Alloc::reuse(policy == 3 ? 0 : policy);
	// Kuznyechik is slow: quick takes the variants that differ from 0 or 31 in at most one parameter
	bool few = !r.thorough() && (kind == 15 || kind == 16 || kind == 17 || kind == 23);
	auto skip = [&](int v) { int n = __builtin_popcount(unsigned(v)); return few && n > 1 && n < 4; };
	for (int a = 0; a < 32; a++) {
		if (skip(a)) continue;
		for (int b = 0; b < 32; b++) {
			if (skip(b)) continue;
			char t[96];
			snprintf(t, sizeof t, "kind %d, places reused in way %d: variants %d, %d, %d", kind, policy, a, b, a);
			std::vector<shared_ptr<const void>> keep;
			auto *k = policy == 3 ? &keep : nullptr;
			for (int v : {a, b, a}) generation(r, kind, Variant{v}, k, t);
			r.state(mc::mix(mc::mix(uint64_t(kind * 4 + policy), uint64_t(a)), uint64_t(b)));
			r.trace();
		}
	}
	mc::Alloc::reuse(0);
}
// Two objects of one kind that differ in one element of one parameter, the first still there or not
void neighbours(mc::Run &r, int kind, int policy) {
	r.begin("neighbours of kind %d, places reused in way %d", kind, policy);
	mc::Alloc::reuse(policy == 3 ? 0 : policy);
	for (int a : {0, 32 + 31}) {
		Variant one(a), two(a);
		std::vector<shared_ptr<const void>> keep;
		for (int i = 0; two = Variant(a), two.tweak(i); i++) {
			char t[96];
			snprintf(t, sizeof t, "kind %d, places reused in way %d: variant %d, its neighbour %d, and again", kind, policy, a, i);
			auto *k = policy == 3 ? &keep : nullptr;
			generation(r, kind, one, k, t);
			generation(r, kind, two, k, t);
			generation(r, kind, one, nullptr, t);
			keep.clear();
			r.state(mc::mix(mc::mix(uint64_t(kind * 4 + policy), uint64_t(a)), uint64_t(i) + 1000));
			r.trace();
		}
	}
	mc::Alloc::reuse(0);
}
// A kind, then another kind, then the first again with other parameters
void crossing(mc::Run &r, int kind, int policy) {
	r.begin("kind %d around every other kind, places reused in way %d", kind, policy);
	mc::Alloc::reuse(policy == 3 ? 0 : policy);
	for (int other = 0; other < KINDS; other++)
		for (int a : {0, 31}) for (int b : {0, 1, 2, 4, 8, 16, 31}) {
			char t[96];
			snprintf(t, sizeof t, "places reused in way %d: kind %d variant %d, kind %d variant %d, kind %d variant %d", policy, kind, a, other, b, kind, a ^ b);
			generation(r, kind, Variant{a}, nullptr, t);
			generation(r, other, Variant{b}, nullptr, t);
			generation(r, kind, Variant{a ^ b}, nullptr, t);
			r.state(mc::mix(mc::mix(uint64_t(kind * 64 + other * 4 + policy), uint64_t(a)), uint64_t(b)));
			r.trace();
		}
	mc::Alloc::reuse(0);
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	bool th = tier == Tier::thorough;
	for (int mode = 0; mode < 3; mode++)
		for (int f = 0; f < (mode == ECB ? 4 : 6); f++)
			for (int how = 0; how < 4; how++)
				for (int depth = 1; depth <= (th ? 5 : 4); depth++)
					out.push_back({"sinks-" + std::to_string(mode) + "-" + std::to_string(f) + "-" + std::to_string(how) + "-" + std::to_string(depth), [=](Run &r) { sinks(r, mode, f, depth, how); }, depth});
	for (int mode = 0; mode < 3; mode++)
		for (int f = 0; f < (mode == ECB ? 3 : 5); f++)
			for (int how = 0; how < 4; how++)
				for (int depth = 1; depth <= (th ? 5 : 4); depth++)
					out.push_back({"sources-" + std::to_string(mode) + "-" + std::to_string(f) + "-" + std::to_string(how) + "-" + std::to_string(depth), [=](Run &r) { sources(r, mode, f, depth, how); }, depth});
	for (int a = 0; a < ACTIONS; a++) out.push_back({"actions-" + std::to_string(a), [=](Run &r) { actions(r, a); }, 5});
	for (int a = 0; a < 2; a++) out.push_back({"ctr-" + std::to_string(a), [=](Run &r) { ctrs(r, a); }, 4});
	out.push_back({"lifetimes", lifetimes, 1});
	for (int k = 0; k < KINDS; k++)
		for (int p = 0; p < 4; p++) {
			out.push_back({"generations-" + std::to_string(k) + "-" + std::to_string(p), [=](Run &r) { generations(r, k, p); }, 2});
			if (p == 1 || p == 3 || th) out.push_back({"neighbours-" + std::to_string(k) + "-" + std::to_string(p), [=](Run &r) { neighbours(r, k, p); }, 2});
			if (p == 1 || p == 2 || (p == 0 && th)) out.push_back({"crossing-" + std::to_string(k) + "-" + std::to_string(p), [=](Run &r) { crossing(r, k, p); }, 2});
		}
}
