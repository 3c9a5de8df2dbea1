// Operations of every kind on objects that call collaborators (C18, C26).
#pragma once
#include "env.h"
using namespace env;
using ref::U128;

namespace {
// Something to do, on objects that exist already, and a look at those objects
struct Fixture {
	std::function<Bytes()> op;
	std::function<Bytes()> look;
};
typedef std::function<Fixture()> Maker;
struct Scenario { std::string name; Maker make; int allocs_parts; bool pairs; };

void put(Bytes &b, uint64_t v) { uint8_t t[8]; ref::store64(t, v); b.insert(b.end(), t, t + 8); }
Bytes of(uint64_t v) { Bytes b; put(b, v); return b; }
Bytes of(U128 v) { Bytes b; put(b, v.lo); put(b, v.hi); return b; }
Bytes of(const std::pair<uint32_t, uint32_t> &p) { return of(num(p)); }
Bytes of(const std::pair<uint64_t, uint64_t> &p) { return of(ref::u128(p)); }
void app(Bytes &b, const Bytes &x) { b.insert(b.end(), x.begin(), x.end()); }
Bytes content(const SinkP &s) { auto *r = rec(s); return r ? r->content() : Bytes{0xde, 0xad}; }

enum { ABSTRACT, DATA_SBOX, CACHED, TEXT, KINDS };
const char *const kind_name[] = {"abstract key", "key data and table", "cached key data", "text key"};
AKey any_key(int kind) {
	auto w = key_words(0);
	switch (kind) {
	case ABSTRACT: return make_shared<StubKey>([](uint32_t v, int i) { return uint32_t(scramble(v * 8ULL + unsigned(i))); });
	default: break;
	}
	return nullptr;
}
LKey lazy_key(int kind) {
	auto w = key_words(0);
	auto sb = make_shared<StubSbox>([](uint32_t v) { return uint32_t(scramble(v)); });
	auto kd = make_unique<StubKeyData>([w](int i) { return w[size_t(i)]; });
	switch (kind) {
	case DATA_SBOX: return make_shared<gm::LazyKey>(std::unique_ptr<const gm::KeyData>(std::move(kd)), sb);
	case CACHED: return make_shared<gm::LazyKey>(std::unique_ptr<const gm::KeyData>(make_unique<gm::KeyCachedData>(std::move(kd))), sb);
	default: return key_string(w);
	}
}
AKey the_key(int kind) { return kind == ABSTRACT ? any_key(kind) : AKey(lazy_key(kind)); }
shared_ptr<Tape> cut_tape(const Bytes &b, size_t every) {
	auto t = MemSource::make_tape(b);
	t->cut.assign(b.size(), false);
	for (size_t i = every; i <= b.size(); i += every) t->cut[i - 1] = true;
	return t;
}
const Cfb modes[2] = {{0, 0x1234567890abcdefULL, 0}, {1, 0x1234567890abcdefULL, 0x234567890abcdef1ULL}};

std::vector<Scenario> &scenarios() {
	static auto &s = *new std::vector<Scenario>;   // for ever
	if (!s.empty()) return s;
	for (int std = 0; std < 2; std++)
		for (int kind = 0; kind < KINDS; kind++)
			for (size_t before : {size_t(0), size_t(5), size_t(16)}) {
				if (kind > 0 && before != 5) continue;
				std::string n = std::string(std ? "R 34.13" : "28147-89") + " CFB, " + kind_name[kind] + ", " + std::to_string(before) + " bytes before";
				s.push_back({n + ", sink: write 20, write 3, finalize", [=] {
					auto k = the_key(kind);
					auto below = make_shared<RecSink>()->write(dat(message(3, 9)));
					auto s0 = modes[std].sink(below, k);
					if (before && kind == 0) s0 = s0->write(dat(message(before, 2)));
					auto in = make_shared<Data>(dat(message(20, 1)));
					return Fixture{[=] {
						auto r = s0->write(*in)->write(dat(message(3, 3)))->finalize();
						return content(r);
					}, [=] { Bytes b = content(below); if (kind == 0) app(b, content(s0->finalize())); app(b, bytes(*in)); return b; }};
				}, 1, before == 5 && kind == 0});
				s.push_back({n + ", source: read 3, 13, 20", [=] {
					auto k = the_key(kind);
					SourceP s0 = modes[std].source(make_shared<MemSource>(cut_tape(message(before + 21, 1), 3)), k);
					if (before && kind == 0) s0 = s0->read(before).second;
					return Fixture{[=] {
						Bytes b;
						SourceP q = s0;
						for (size_t a : {size_t(3), size_t(13), size_t(20)}) { auto x = q->read(a); app(b, bytes(x.first)); b.push_back(0xee); q = x.second; }
						return b;
					}, [=] { Bytes b; if (kind == 0) b = bytes(s0->read(4).first); return b; }};
				}, 1, before == 5 && kind == 0});
			}
	// single calls on objects in the middle of a message
	for (int m = 0; m < 3; m++) {
		std::string n = m == 2 ? "ECB" : m ? "R 34.13 CFB" : "28147-89 CFB";
		auto sink = [m](const SinkP &below, const AKey &k) { return m == 2 ? SinkP(make_shared<gm::ECBSink>(below, k)) : modes[m].sink(below, k); };
		auto source = [m](const SourceP &below, const AKey &k) { return m == 2 ? SourceP(make_shared<gm::ECBSource>(below, k)) : modes[m].source(below, k); };
		s.push_back({n + " sink in the middle: finalize", [=] {
			auto s0 = sink(make_shared<RecSink>(), the_key(ABSTRACT))->write(dat(message(m == 2 ? 16 : 21, 1)));
			return Fixture{[=] { return content(s0->finalize()); }, [=] { return content(s0->write(dat(message(8, 4)))->finalize()); }};
		}, 1, true});
		s.push_back({n + " sink in the middle: write", [=] {
			auto s0 = sink(make_shared<RecSink>(), the_key(ABSTRACT))->write(dat(message(m == 2 ? 16 : 21, 1)));
			return Fixture{[=] { auto t = s0->write(dat(message(8, 5))); return content(t->finalize()); }, [=] { Bytes b = content(s0->finalize()); app(b, content(s0->write(dat(message(8, 4)))->finalize())); return b; }};
		}, 1, true});
		s.push_back({n + " source in the middle: read", [=] {
			SourceP s0 = source(make_shared<MemSource>(cut_tape(message(48, 1), 5)), the_key(ABSTRACT))->read(m == 2 ? 8 : 11).second;
			return Fixture{[=] { return bytes(s0->read(16).first); }, [=] { return drain(s0, 8); }};
		}, 1, true});
	}
	s.push_back({"CTR iterator in the middle: value, next, last", [=] {
		auto k = kuz_key(kuz_words(3));
		k->encrypt(make_shared<gk::BlkRaw>(1, 2))->value();
		auto it = make_shared<gk::StCTREncrypted>(make_shared<StubStream>(std::vector<U128>{{1, 2}, {3, 4}, {5, 6}, {7, 8}}, 9), k, 7)->iter()->next();
		return Fixture{[=] {
			Bytes o = of(it->value());
			auto n = it->next();
			o.push_back(uint8_t(it->last() * 32 + it->size()));
			app(o, of(n->value()));
			return o;
		}, [=] { Bytes o; for (auto i = it;; i = i->next()) { app(o, of(i->value())); o.push_back(uint8_t(i->size())); if (i->last()) return o; } }};
	}, 4, true});
	for (int kind = 0; kind < KINDS; kind++) {
		std::string n = std::string("ECB, ") + kind_name[kind];
		s.push_back({n + ", sink: write 24, finalize", [=] {
			auto k = the_key(kind);
			auto below = make_shared<RecSink>()->write(dat(message(3, 9)));
			auto s0 = SinkP(make_shared<gm::ECBSink>(below, k));
			auto in = make_shared<Data>(dat(message(24, 1)));
			return Fixture{[=] { return content(s0->write(*in)->finalize()); }, [=] { Bytes b = content(below); app(b, bytes(*in)); return b; }};
		}, 1, kind == 0});
		s.push_back({n + ", source: read everything", [=] {
			auto k = the_key(kind);
			SourceP s0 = make_shared<gm::ECBSource>(make_shared<MemSource>(cut_tape(message(24, 1), 5)), k);
			return Fixture{[=] { return drain(s0, 8); }, [=] { return kind == 0 ? bytes(s0->read(8).first) : Bytes(); }};
		}, 1, kind == 0});
		s.push_back({std::string("block encryption and decryption, ") + kind_name[kind], [=] {
			auto k = the_key(kind);
			auto b = make_shared<StubBlk64>(0x0123456789abcdefULL);
			return Fixture{[=] {
				Bytes o = of(gm::BlkEncrypted(b, k).value());
				app(o, of(gm::BlkDecrypted(b, k).value()));
				app(o, of(gm::EncryptionBase(k).transform(77)));
				app(o, of(gm::BlkForwarded(b, k).value()));
				app(o, of(gm::BlkBackwarded(b, k).value()));
				return o;
			}, [=] { return of(b->value()); }};
		}, 1, false});
		if (kind) {
			s.push_back({std::string("Magma MAC, ") + kind_name[kind], [=] {
				auto k = lazy_key(kind);
				auto src = make_shared<MemSource>(cut_tape(message(19, 1), 5));
				auto im = make_shared<gm::Imit>(src, k);
				return Fixture{[=] { Bytes o = of(im->value()); app(o, of(gm::Imit(make_shared<MemSource>(message(16, 1)), k).value())); return o; }, [=] { return bytes(src->read(4).first); }};
			}, 1, false});
			s.push_back({std::string("GOST 28147-89 MAC, ") + kind_name[kind], [=] {
				auto k = lazy_key(kind);
				auto in = make_shared<std::vector<uint8_t>>(message(19, 1));
				return Fixture{[=] { return g89::DataImit(*in, k).value(); }, [=] { return *in; }};
			}, 1, false});
		}
	}
	s.push_back({"ECB source from a container", [=] {
		auto c = make_shared<StubContainer>(message(32, 1), ref::pack(table(1)));
		auto src = make_shared<MemSource>(cut_tape(message(24, 1), 5));
		return Fixture{[=] { return drain(make_shared<gm::ECBSource>(src, shared_ptr<const gm::Container>(c)), 8); }, [=] { Bytes b = bytes(src->read(3).first); app(b, bytes(c->key())); return b; }};
	}, 1, true});
	s.push_back({"Magma key schedule: cached key data, words one by one", [=] {
		auto w = key_words(4);
		auto kd = make_shared<gm::KeyCachedData>(make_unique<StubKeyData>([w](int i) { return w[size_t(i)]; }));
		return Fixture{[=] { Bytes b; for (int i : {3, 0, 7}) put(b, kd->key(i)); return b; }, [] { return Bytes(); }};
	}, 1, true});
	s.push_back({"Magma keys and tables built from data", [=] {
		auto t = table(1);
		auto w = key_words(5);
		return Fixture{[=] {
			Bytes b;
			put(b, key_native(w, t, true)->transform(5, 3));
			put(b, key_native(w, t, false)->transform(5, 3));
			put(b, key_string(w, t)->transform(5, 3));
			put(b, key_string(w)->transform(5, 3));
			return b;
		}, [] { return Bytes(); }};
	}, 1, false});
	s.push_back({"Magma block primitives", [=] {
		auto a = make_shared<StubBlk64>(0x0123456789abcdefULL), b = make_shared<StubBlk64>(0x8000000000000001ULL);
		return Fixture{[=] {
			Bytes o = of(gm::BlkXored(a, b).value());
			app(o, of(gm::BlkXored(a, b, make_shared<gm::BlkShifted>(a, 5)).value()));
			app(o, of(gm::BlkSwapped(make_shared<gm::BlkXored>(a, b)).value()));
			app(o, of(gm::BlkRaw(shared_ptr<const gm::Block>(b)).value()));
			app(o, of(gm::BlkString("123456789abcdef").value()));
			return o;
		}, [=] { Bytes o = of(a->value()); app(o, of(b->value())); return o; }};
	}, 1, true});
	s.push_back({"Kuznyechik block primitives", [=] {
		auto a = make_shared<StubBlk128>(U128{0x0123456789abcdefULL, 5}), b = make_shared<StubBlk128>(U128{~0ULL, 7});
		return Fixture{[=] {
			Bytes o = of(gk::BlkXored(a, b).value());
			app(o, of(gk::BlkXored(a, b, make_shared<gk::BlkShifted>(a, 5)).value()));
			app(o, of(gk::BlkIncremented(b).value()));
			app(o, of(gk::BlkS(a).value()));
			app(o, of(gk::BlkR(a).value()));
			app(o, of(gk::BlkRaw(shared_ptr<const gk::Block>(b)).value()));
			app(o, of(gk::BlkString("123456789abcdef0123").value()));
			app(o, of(gk::BlkL(a).value()));
			return o;
		}, [=] { Bytes o = of(a->value()); app(o, of(b->value())); return o; }};
	}, 1, true});
	s.push_back({"cached block", [=] {
		auto a = make_shared<StubBlk128>(U128{0x0123456789abcdefULL, 5});
		auto c = make_shared<gk::BlkCached>(make_shared<gk::BlkXored>(a, a, make_shared<gk::BlkIncremented>(a)));
		return Fixture{[=] { Bytes o = of(c->value()); app(o, of(c->value())); return o; }, [=] { return of(a->value()); }};
	}, 1, true});
	s.push_back({"round key generation", [=] {
		auto a = make_shared<StubBlk128>(U128{0x0123456789abcdefULL, 5}), b = make_shared<StubBlk128>(U128{~0ULL, 7});
		return Fixture{[=] { return of(gk::BlkIterKey(a, b, 1, 3).value()); }, [=] { Bytes o = of(a->value()); app(o, of(b->value())); return o; }};
	}, 1, true});
	s.push_back({"Kuznyechik key built and used", [=] {
		auto d = make_shared<StubKuzData>(kuz_words(0).first, kuz_words(0).second);
		auto x = make_shared<StubBlk128>(U128{1, 2});
		return Fixture{[=] { gk::Key k(d); return of(k.encrypt(x)->value()); }, [=] { return of(x->value()); }};
	}, 8, false});
	s.push_back({"Kuznyechik key, first use", [=] {
		auto k = make_shared<gk::Key>(make_shared<StubKuzData>(kuz_words(0).first, kuz_words(0).second));
		auto x = make_shared<StubBlk128>(U128{1, 2});
		return Fixture{[=] { Bytes o = of(k->encrypt(x)->value()); app(o, of(gk::BlkEncrypted(x, k).value())); return o; }, [=] { return of(x->value()); }};
	}, 8, false});
	s.push_back({"Kuznyechik key from text", [=] {
		return Fixture{[=] { auto k = kuz_key(kuz_words(3)); return of(k->encrypt(make_shared<gk::BlkRaw>(1, 2))->value()); }, [] { return Bytes(); }};
	}, 8, false});
	for (int stage = 0; stage < 3; stage++)
		s.push_back({stage == 0 ? "CTR stream, key in use" : stage == 1 ? "Kuznyechik MAC, key in use" : "Kuznyechik MAC of a CTR stream, key in use", [=] {
			auto k = kuz_key(kuz_words(3));
			k->encrypt(make_shared<gk::BlkRaw>(1, 2))->value();
			auto st = make_shared<StubStream>(std::vector<U128>{{1, 2}, {3, 4}, {5, 6}}, 9);
			auto ctr = make_shared<gk::StCTREncrypted>(st, k, 7);
			auto walk = [](const shared_ptr<const gk::Stream> &t) {
				Bytes o;
				auto it = t->iter();
				for (;;) { app(o, of(it->value())); o.push_back(uint8_t(it->size())); if (it->last()) return o; it = it->next(); }
			};
			return Fixture{[=] {
				if (stage == 0) return walk(ctr);
				return of(gk::Imit(stage == 1 ? shared_ptr<const gk::Stream>(st) : ctr, k).value());
			}, [=] { Bytes o = walk(st); app(o, of(ctr->iter()->value())); return o; }};
		}, 4, stage == 0});
	s.push_back({"memory stream", [=] {
		auto st = make_shared<gk::StMemory>(std::vector<uint64_t>{1, 2, 3, 4, 5});
		auto it = st->iter()->next();
		return Fixture{[=] {
			Bytes o;
			for (auto i = st->iter();; i = i->next()) { app(o, of(i->value())); o.push_back(uint8_t(i->size())); if (i->last()) break; }
			auto fresh = make_shared<gk::StMemory>(std::vector<uint64_t>{7, 8, 9});
			app(o, of(fresh->iter()->next()->value()));
			return o;
		}, [=] { Bytes o = of(it->value()); app(o, of(it->next()->value())); return o; }};
	}, 1, true});
	return s;
}
}  // namespace
