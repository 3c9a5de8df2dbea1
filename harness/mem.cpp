// C23: no operation leaves its buffers. Results are not judged here, only the sanitizers are.
#include "env.h"
#include <climits>
using namespace env;
using ref::U128;
const char *const mc::property = "C23";

namespace {
const Cfb modes[2] = {{0, 0x1234567890abcdefULL, 0}, {1, 0x1234567890abcdefULL, 0x234567890abcdef1ULL}};
SinkP any_sink(int mode, const SinkP &below, const AKey &k) { return mode == 2 ? SinkP(make_shared<gm::ECBSink>(below, k)) : modes[mode].sink(below, k); }
SourceP any_source(int mode, const SourceP &s, const AKey &k) { return mode == 2 ? SourceP(make_shared<gm::ECBSource>(s, k)) : modes[mode].source(s, k); }
volatile uint64_t eaten;
void eat(const Bytes &b) { uint64_t x = 0; for (auto v : b) x += v; eaten = eaten + x; }
void eat(const Data &b) { uint64_t x = 0; for (auto v : b) x += uint8_t(v); eaten = eaten + x; }
// A refusal is fine here
template <class F> void run(mc::Run &r, const F &f) { try { f(); } catch (...) {} r.step(); }
void done(mc::Run &r, uint64_t h) { r.trace(); r.state(h); }

void sinks(mc::Run &r, int mode, size_t len) {
	AKey k = key_native(key_words(4), table(1));
	for (size_t a = 0; a <= len; a++)
		for (size_t b = a; b <= len; b++) {
			r.begin("mode %d, sink, %zu bytes cut at %zu and %zu", mode, len, a, b);
			Bytes m = message(len, 1);
			run(r, [&] {
				auto s = any_sink(mode, make_shared<RecSink>(), k)->write(dat(m, 0, a));
				auto f = s->finalize();
				auto t = s->write(dat(m, a, b - a))->write(dat(m, b, len - b));
				s.reset();
				auto g = t->finalize();
				t.reset();
				if (rec(g)) eat(rec(g)->content());
				if (rec(f)) eat(rec(f)->content());
			});
			done(r, mc::mix(uint64_t(mode), len * 10000 + a * 100 + b));
		}
}
void sources(mc::Run &r, int mode, size_t len) {
	AKey k = key_native(key_words(4), table(1));
	for (size_t piece = 1; piece <= 10; piece++)
		for (size_t first = 0; first <= len + 2; first++)
			for (size_t ask : {size_t(1), size_t(2), size_t(7), size_t(8), size_t(9), size_t(16), len + 1, size_t(100)}) {
				r.begin("mode %d, source, %zu bytes in pieces of %zu, reads %zu, then %zu each", mode, len, piece, first, ask);
				auto t = MemSource::make_tape(message(len, 1));
				t->cut.assign(len, false);
				for (size_t i = piece; i <= len; i += piece) t->cut[i - 1] = true;
				run(r, [&] {
					auto s = any_source(mode, make_shared<MemSource>(t), k);
					t.reset();
					auto x = s->read(first);
					s = x.second;
					eat(x.first);
					for (int i = 0; i < 200; i++) { auto y = s->read(ask); eat(y.first); if (y.first.empty()) break; s = y.second; }
					eat(s->read(ask).first);
				});
				done(r, mc::mix(mc::mix(uint64_t(mode), len), piece * 1000000 + first * 1000 + ask));
			}
}
void huge_reads(mc::Run &r) {
	AKey k = key_native(key_words(4), table(1));
	for (int mode = 0; mode < 3; mode++)
		for (size_t len : {0, 5, 8, 19})
			for (int e = 4; e <= 32; e++)
				for (int d = -1; d <= 1; d++) {
					size_t n = (size_t(1) << e) + size_t(long(d));
					r.begin("mode %d, %zu bytes, read(%zu)", mode, len, n);
					run(r, [&] { eat(any_source(mode, make_shared<MemSource>(message(len, 1)), k)->read(n).first); });
					done(r, mc::mix(uint64_t(mode) * 100 + len, n));
				}
	for (int mode = 0; mode < 3; mode++)
		for (size_t len : {0, 5, 8, 19})
			for (size_t n : {SIZE_MAX, SIZE_MAX - 7, SIZE_MAX / 2, SIZE_MAX / 2 + 1}) {
				r.begin("mode %d, %zu bytes, read(%zu)", mode, len, n);
				run(r, [&] { eat(any_source(mode, make_shared<MemSource>(message(len, 1)), k)->read(n).first); });
				done(r, mc::mix(uint64_t(mode) * 100 + len, n));
			}
}
void macs(mc::Run &r, int part, int parts) {
	auto k = key_native(key_words(4), table(1));
	auto k2 = key_string(key_words(4));
	for (size_t n = size_t(part); n <= (r.thorough() ? 2000u : 500u); n += size_t(parts)) {
		r.begin("MACs of %zu bytes", n);
		run(r, [&] { eaten = eaten + num(gm::Imit(make_shared<MemSource>(message(n, 1)), k).value()); });
		for (size_t piece : {1, 3, 5, 8, 9}) {
			auto t = MemSource::make_tape(message(n, 1));
			t->cut.assign(n, false);
			for (size_t i = piece; i <= n; i += piece) t->cut[i - 1] = true;
			run(r, [&] { eaten = eaten + num(gm::Imit(make_shared<MemSource>(t), k2).value()); });
		}
		run(r, [&] { std::vector<uint8_t> v = message(n, 1); v.shrink_to_fit(); g89::DataImit d(v, k); v.clear(); v.shrink_to_fit(); eat(d.value()); eat(d.value()); });
		done(r, n);
	}
}
void streams(mc::Run &r, int part, int parts) {
	auto k = kuz_key(kuz_words(3));
	for (size_t n = size_t(part); n <= 40; n += size_t(parts)) {
		r.begin("streams of %zu words", n);
		std::vector<uint64_t> w(n, 7);
		run(r, [&] {
			auto st = make_shared<gk::StMemory>(w);
			w.clear(); w.shrink_to_fit();
			auto it = st->iter();
			for (size_t i = 0; i < 30; i++) { eaten = eaten + it->value().first + it->size() + it->last(); if (it->last()) break; it = it->next(); }
			it->next();
			auto ctr = make_shared<gk::StCTREncrypted>(st, k, 5);
			st.reset();
			auto c = ctr->iter();
			for (size_t i = 0; i < 30; i++) { eaten = eaten + c->value().first + c->size() + c->last(); if (c->last()) break; c = c->next(); }
			gk::Imit im(ctr, k);
			ctr.reset();
			eaten = eaten + im.value().first;
			eaten = eaten + it->value().first;
		});
		done(r, n);
	}
	for (size_t blocks = 1; blocks <= 3; blocks++)
		for (size_t last = size_t(part); last <= 16; last += size_t(parts)) {
			r.begin("a stream of %zu blocks, %zu bytes in the last", blocks, last);
			run(r, [&] {
				auto st = make_shared<StubStream>(std::vector<U128>(blocks, {~0ULL, ~0ULL}), last);
				eaten = eaten + gk::Imit(st, k).value().first;
				eaten = eaten + gk::Imit(make_shared<gk::StCTREncrypted>(st, k, 5), k).value().first;
			});
			done(r, 1000 + blocks * 100 + last);
		}
}
// Everything something was made from is gone (its places are overwritten) when it is used
void orphans(mc::Run &r) {
	for (size_t words : {1, 2, 5, 8}) {
		r.begin("CTR iterators of %zu words, all else gone", words);
		run(r, [&] {
			std::vector<shared_ptr<const gk::Iterator>> its;
			{
				auto k = kuz_key(kuz_words(3));
				auto ctr = make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(std::vector<uint64_t>(words, 7)), k, 5);
				its.push_back(ctr->iter());
				its.push_back(make_shared<gk::StCTREncrypted>(ctr, kuz_key(kuz_words(4)), 6)->iter());
				its.push_back(make_shared<gk::StMemory>(std::vector<uint64_t>(words, 7))->iter());
			}
			while (!its.empty()) {
				auto it = its.back();
				its.pop_back();
				eaten = eaten + it->value().first + it->size();
				if (!it->last()) { auto n = it->next(); it.reset(); its.push_back(n); eaten = eaten + n->value().second; }
			}
		});
		run(r, [&] {
			auto im = make_shared<gk::Imit>(make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(std::vector<uint64_t>(words, 7)), kuz_key(kuz_words(3)), 5), kuz_key(kuz_words(4)));
			eaten = eaten + im->value().first;
		});
		done(r, words);
	}
	r.begin("blocks, all else gone");
	run(r, [&] {
		shared_ptr<const gk::Block> b;
		{ gk::Key k(u128_text({1, 2}) + u128_text({3, 4})); b = k.encrypt(make_shared<gk::BlkRaw>(1, 2)); }
		eaten = eaten + b->value().first;
		b = make_shared<gk::BlkIterKey>(make_shared<gk::BlkRaw>(1, 2), make_shared<gk::BlkRaw>(3, 4), 1, 8);
		eaten = eaten + b->value().first;
		b = make_shared<gk::BlkCached>(make_shared<gk::BlkL>(make_shared<gk::BlkS>(make_shared<gk::BlkR>(make_shared<gk::BlkString>("12")))));
		eaten = eaten + b->value().first;
		auto e = make_shared<gm::BlkEncrypted>(make_shared<gm::BlkShifted>(make_shared<gm::BlkString>("12"), 3), key_native(key_words(4), table(1)));
		auto d = make_shared<gm::BlkDecrypted>(e, key_string(key_words(5)));
		e.reset();
		eaten = eaten + num(d->value());
	});
	for (int mode = 0; mode < 3; mode++) {
		r.begin("sinks and sources of mode %d, all else gone", mode);
		run(r, [&] {
			SinkP s = any_sink(mode, make_shared<RecSink>(), key_native(key_words(4), table(1)));
			SourceP q = any_source(mode, make_shared<MemSource>(message(40, 1)), key_native(key_words(4), table(1)));
			for (int i = 0; i < 4; i++) {
				{ auto n = s->write(dat(message(mode == 2 ? 16 : 11, 1))); s.reset(); s = n; }
				{ auto n = q->read(8); q.reset(); q = n.second; eat(n.first); }
			}
			s = s->finalize();
			eaten = eaten + rec(s)->content().size();
		});
		done(r, 100 + uint64_t(mode));
	}
}
void texts(mc::Run &r, int part, int parts) {
	auto all = [&](const std::string &s) {
		r.begin("text of %zu characters", s.size());
		std::string t = s;
		t.shrink_to_fit();
		run(r, [&] { gm::KeyDataString d(t); for (int i = 0; i < 8; i++) run(r, [&] { eaten = eaten + d.key(i); }); });
		run(r, [&] { eaten = eaten + make_shared<gm::LazyKey>(t)->transform(5, 7); });
		run(r, [&] { gk::Key k(t); eaten = eaten + k.encrypt(make_shared<gk::BlkRaw>(1, 2))->value().first; });
		run(r, [&] { gk::KeyDataString d(t); run(r, [&] { eaten = eaten + d.low()->value().first; }); run(r, [&] { eaten = eaten + d.high()->value().first; }); });
		run(r, [&] { eaten = eaten + gm::BlkString(t).value().first; });
		run(r, [&] { eaten = eaten + gk::BlkString(t).value().first; });
		done(r, mc::hash_bytes(s.data(), s.size()));
	};
	for (size_t n = size_t(part); n <= 140; n += size_t(parts)) {
		all(std::string(n, 'a')); all(std::string(n, '0')); all(std::string(n, ' ')); all(std::string(n, '\0')); all(std::string(n, '-')); all(std::string(n, 'z'));
		if (n) { std::string s(n, '1'); s[n - 1] = 'x'; all(s); s[n - 1] = '1'; s[0] = '-'; all(s); }
	}
	for (int c = part; c < 256; c += parts)
		for (size_t p : {0, 1, 7, 8, 31, 32, 63}) { std::string s(64, '5'); s[p] = char(c); all(s); }
}
void material(mc::Run &r, int part, int parts) {
	for (size_t n = size_t(part); n <= 100; n += size_t(parts)) {
		r.begin("key material of %zu elements", n);
		std::vector<uint32_t> w(n, 5);
		for (int i = -3; i < 20; i++) run(r, [&] { eaten = eaten + gm::KeyDataNative(w).key(i); });
		for (int i : {INT_MIN, INT_MAX, -1000, 1000, 1 << 20, -(1 << 20)}) {
			run(r, [&] { eaten = eaten + gm::KeyDataNative(w).key(i); });
			run(r, [&] { eaten = eaten + gm::KeyDataString(std::string(n, '1')).key(i); });
			run(r, [&] { eaten = eaten + gm::KeyCachedData(make_unique<gm::KeyDataString>(std::string(64, '1'))).key(i); });
			run(r, [&] { eaten = eaten + gm::KeyCachedData(make_unique<gm::KeyDataNative>(std::vector<uint32_t>(8))).key(i); });
		}
		for (int i = -3; i < 20; i++) run(r, [&] { eaten = eaten + gm::KeyCachedData(make_unique<gm::KeyDataNative>(std::vector<uint32_t>(8))).key(i); });
		for (int i = -3; i < 20; i++) run(r, [&] { eaten = eaten + gm::KeyDataString(std::string(64, '1')).key(i); });
		run(r, [&] { eaten = eaten + make_shared<gm::LazyKey>(w, sbox_byte(table(1)))->transform(3, 7); });
		// packed tables: every value of every byte
		run(r, [&] { gm::SboxByte s(message(n, 1)); for (uint32_t v = 0; v < 256; v++) run(r, [&] { eaten = eaten + s.transform(v * 0x01010101u); }); });
		run(r, [&] { gm::SboxByte s(message(n, 1)); for (uint32_t v = 0; v < 256; v++) for (int b = 0; b < 4; b++) run(r, [&] { eaten = eaten + s.transform(v << 8 * b); }); });
		if (n <= 20) for (int row_ = 0; row_ < 8; row_++)
			run(r, [&] {
				std::vector<int> q[8];
				for (size_t i = 0; i < 8; i++) { q[i] = row(table(1), int(i)); if (int(i) == row_) { q[i].resize(n, 3); q[i].shrink_to_fit(); } }
				gm::SboxNibble s(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]);
				for (uint32_t v = 0; v < 16; v++) run(r, [&] { eaten = eaten + s.transform(v << 4 * row_); });
				for (uint32_t v = 0; v < 16; v++) run(r, [&] { eaten = eaten + s.transform(v * 0x11111111u); });
			});
		for (size_t m : {size_t(0), size_t(1), size_t(31), size_t(32), size_t(33), size_t(63), size_t(64), size_t(65), n}) {
			run(r, [&] { eat(drain(make_shared<gm::ECBSource>(make_shared<MemSource>(message(24, 1)), shared_ptr<const gm::Container>(make_shared<StubContainer>(message(n, 1), message(m, 1)))), 8, 100)); });
			run(r, [&] { eat(drain(make_shared<gm::ECBSource>(make_shared<MemSource>(message(24, 1)), shared_ptr<const gm::Container>(make_shared<StubContainer>(message(m, 1), message(n, 1)))), 8, 100)); });
		}
		run(r, [&] { Bytes b = message(n, 1); b.shrink_to_fit(); gm::BlkRaw x(b); eaten = eaten + x.value().first; });
		done(r, n);
	}
	r.begin("default table, every byte value");
	run(r, [&] { gm::SboxR3412 s; for (uint32_t v = 0; v < 256; v++) for (int b = 0; b < 4; b++) eaten = eaten + s.transform(v << 8 * b); });
}
void primitives(mc::Run &r) {
	r.begin("primitives");
	for (int n = 0; n < 128; n++)
		for (uint64_t v : {0ULL, ~0ULL, 0x0123456789abcdefULL}) {
			if (n < 64) run(r, [&] { eaten = eaten + gm::BlkShifted(make_shared<gm::BlkRaw>(v), n).value().first; });
			run(r, [&] { eaten = eaten + gk::BlkShifted(make_shared<gk::BlkRaw>(v, ~v), n).value().second; });
		}
	for (int p = 0; p < 16; p++)
		for (int v = 0; v < 256; v++) {
			U128 x{0, 0};
			x.set(p, uint8_t(v));
			auto b = make_shared<gk::BlkRaw>(x.lo, x.hi);
			run(r, [&] { eaten = eaten + gk::BlkS(b).value().first + gk::BlkR(b).value().first + gk::BlkL(b).value().first + gk::BlkIncremented(b).value().first; });
		}
	{
		auto *heap8 = new uint8_t[8]();
		auto *heap16 = new uint8_t[16]();
		run(r, [&] { eaten = eaten + gm::BlkRaw(static_cast<const void *>(heap8)).value().first + gk::BlkRaw(static_cast<const void *>(heap16)).value().first; });
		delete[] heap8; delete[] heap16;
	}
	for (int c1 = 1; c1 < 12; c1++) for (int c2 = c1 - 1; c2 < c1 + 6; c2++)
		run(r, [&] { eaten = eaten + gk::BlkIterKey(make_shared<gk::BlkRaw>(1, 2), make_shared<gk::BlkRaw>(3, 4), c1, c2).value().first; });
	for (int i = 0; i < 8; i++) run(r, [&] { eaten = eaten + num(g89::ImitedBlock(gm::BlkRaw(uint64_t(i)), key_native(key_words(i), table(1))).value().value()); });
	done(r, 1);
}
void long_ones(mc::Run &r, size_t n) {
	AKey k = key_native(key_words(4), table(1));
	auto lk = key_native(key_words(4), table(1));
	for (int mode = 0; mode < 3; mode++) {
		r.begin("mode %d, %zu bytes", mode, n);
		run(r, [&] {
			auto f = any_sink(mode, make_shared<RecSink>(), k)->write(dat(message(n, 1)))->finalize();
			Bytes c = rec(f) ? rec(f)->content() : Bytes();
			eat(drain(any_source(mode, make_shared<MemSource>(c), k), 4099, n + 100));
		});
		done(r, mc::mix(uint64_t(mode), n));
	}
	r.begin("MACs, %zu bytes", n);
	run(r, [&] { eaten = eaten + num(gm::Imit(make_shared<MemSource>(message(n, 1)), lk).value()); });
	run(r, [&] { eat(g89::DataImit(message(n, 1), lk).value()); });
	auto q = kuz_key(kuz_words(3));
	run(r, [&] { eaten = eaten + gk::Imit(make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(std::vector<uint64_t>(n / 16 + 1, 5)), q, 3), q).value().first; });
	done(r, n);
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	bool th = tier == Tier::thorough;
	auto S = [](const std::string &n, size_t i) { return n + "-" + std::to_string(i); };
	for (int m = 0; m < 3; m++) {
		for (size_t n = 0; n <= (th ? 60u : 34u); n++) out.push_back({S(S("sinks", size_t(m)), n), [=](Run &r) { sinks(r, m, n); }, int(n) / 10});
		for (size_t n = 0; n <= (th ? 50u : 26u); n++) out.push_back({S(S("sources", size_t(m)), n), [=](Run &r) { sources(r, m, n); }, int(n) / 10});
	}
	out.push_back({"huge-reads", huge_reads, 3});
	for (int i = 0; i < 8; i++) {
		out.push_back({S("macs", size_t(i)), [i](Run &r) { macs(r, i, 8); }, 4});
		out.push_back({S("streams", size_t(i)), [i](Run &r) { streams(r, i, 8); }, 2});
		out.push_back({S("texts", size_t(i)), [i](Run &r) { texts(r, i, 8); }, 4});
		out.push_back({S("material", size_t(i)), [i](Run &r) { material(r, i, 8); }, 4});
	}
	out.push_back({"orphans", orphans, 1});
	out.push_back({"primitives", primitives, 3});
	for (size_t n : {4096, 4103, 65535, 65541, 262144}) out.push_back({S("long", n), [n](Run &r) { long_ones(r, n); }, 6});
}
