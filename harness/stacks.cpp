// C24: modes stacked on each other in any order equal the composition of their models.
#include "env.h"
using namespace env;
using ref::U128;
const char *const mc::property = "C24";

namespace {
using mc::Run;
enum { CFB89, CFBM, ECB, KINDS };
const char *const NAME[] = {"CFB89", "CFBM", "ECB"};
struct Level { int mode, key; uint64_t iv, iv2; };
typedef std::vector<Level> Stack;   // outermost first: the one the plain data meet first

const LKey &lkey(int k) {
	static std::map<int, LKey> m;
	auto &x = m[k];
	if (!x) x = key_native(key_words(k), table(k % 3), k & 1);
	return x;
}
const ref::MagmaKey &mkey(int k) {
	static std::map<int, ref::MagmaKey> m;
	auto it = m.find(k);
	if (it == m.end()) it = m.emplace(k, ref_key(key_words(k), table(k % 3))).first;
	return it->second;
}
std::string str(const Stack &s) {
	std::string t;
	for (auto &l : s) t += (t.empty() ? "" : " over ") + std::string(NAME[l.mode]);
	return t;
}
// keys: 0 one key for all, 1 a key each; initial values likewise
Stack stack(size_t code, size_t depth, int shared) {
	Stack s;
	for (size_t i = 0; i < depth; i++, code /= KINDS)
		s.push_back({int(code % KINDS), shared & 1 ? 4 : 4 + int(i), shared & 2 ? 1 : scramble(i), shared & 2 ? 2 : scramble(i + 9)});
	return s;
}
bool has_ecb(const Stack &s) { for (auto &l : s) if (l.mode == ECB) return true; return false; }
Bytes level(const Level &l, const Bytes &in, bool dec) {
	auto &m = mkey(l.key);
	if (l.mode == ECB) return dec ? ref::ecb([&](uint64_t x) { return m.dec(x); }, in) : ref::ecb([&](uint64_t x) { return m.enc(x); }, in);
	return Cfb{l.mode == CFBM, l.iv, l.iv2}.model(m, in, dec);
}
Bytes model(const Stack &s, Bytes b, bool dec) {
	if (dec) for (size_t i = s.size(); i--;) b = level(s[i], b, true);
	else for (auto &l : s) b = level(l, b, false);
	return b;
}
SinkP sinks(const Stack &s, SinkP below) {
	for (size_t i = s.size(); i--;) {
		auto k = lkey(s[i].key);
		below = s[i].mode == ECB ? SinkP(make_shared<gm::ECBSink>(below, k)) : Cfb{s[i].mode == CFBM, s[i].iv, s[i].iv2}.sink(below, k);
	}
	return below;
}
SourceP sources(const Stack &s, SourceP below) {
	for (size_t i = s.size(); i--;) {
		auto k = lkey(s[i].key);
		below = s[i].mode == ECB ? SourceP(make_shared<gm::ECBSource>(below, k)) : Cfb{s[i].mode == CFBM, s[i].iv, s[i].iv2}.source(below, k);
	}
	return below;
}
SinkP finish(SinkP s, size_t depth) { while (depth--) s = s->finalize(); return s; }

void check_sink(Run &r, const Stack &s, const Bytes &msg, const Bytes &want, const std::vector<size_t> &cuts) {
	SinkP x = sinks(s, make_shared<RecSink>());
	size_t at = 0;
	for (size_t c : cuts) { x = x->write(dat(msg, at, c)); at += c; r.step(); }
	auto f = finish(x, s.size());
	auto c = rec(f);
	if (!c) r.fail("%s: finalizing every level does not lead to the sink below", str(s).c_str());
	if (c->finals) r.fail("%s: finalizing has finalized the sink below, too", str(s).c_str());
	if (c->content() != want) r.fail("%s, %zu bytes: wrote\n     %s\n not %s", str(s).c_str(), msg.size(), hex(c->content()).c_str(), hex(want).c_str());
	r.trace();
}
void check_source(Run &r, const Stack &s, const Bytes &msg, const Bytes &text, size_t ask, size_t piece) {
	auto t = MemSource::make_tape(text);
	t->cut.assign(text.size(), false);
	for (size_t i = piece; i <= text.size(); i += piece) t->cut[i - 1] = true;
	Bytes got = drain(sources(s, make_shared<MemSource>(t)), ask, msg.size() + 100);
	r.step(msg.size() / ask + 1);
	if (got != msg) r.fail("%s, %zu bytes in pieces of %zu, requests of %zu: read\n     %s\n not %s", str(s).c_str(), msg.size(), piece, ask, hex(got).c_str(), hex(msg).c_str());
	r.trace();
}
void stacks(Run &r, size_t depth, size_t part, size_t parts, size_t longest) {
	size_t all = 1;
	for (size_t i = 0; i < depth; i++) all *= KINDS;
	for (size_t code = part; code < all; code += parts)
		for (int shared = 0; shared < 4; shared++) {
			Stack s = stack(code, depth, shared);
			for (size_t n = 0; n <= longest; n++) {
				bool whole = n % 8 == 0;
				if (n > 40 && n % 8 > 1 && n % 8 != 5) continue;
				r.begin("%s, %zu bytes, %s key, %s initial values", str(s).c_str(), n, shared & 1 ? "one" : "a", shared & 2 ? "equal" : "other");
				Bytes msg = message(n, 1 + code % 4);
				r.state(mc::mix(mc::mix(code, depth * 4 + size_t(shared)), n));
				if (!whole && has_ecb(s)) {
					// the incomplete block meets ECB somewhere: refused at the latest when everything is finalized
					if (!refuses([&] { finish(sinks(s, make_shared<RecSink>())->write(dat(msg)), depth); }))
						r.fail("%s: %zu bytes were accepted", str(s).c_str(), n);
					r.step(); r.trace();
					continue;
				}
				Bytes want = model(s, msg, false);
				check_sink(r, s, msg, want, {n});
				std::vector<size_t> asks{8, 16, 4096};
				if (s[0].mode != ECB) for (size_t a : {1, 3, 9, 13}) asks.push_back(a);
				for (size_t u : {1, 3, 7, 8, 9, 16, 24}) {
					if (s[0].mode == ECB && u % 8) continue;
					std::vector<size_t> cuts;
					for (size_t at = 0; at < n; at += u) cuts.push_back(std::min(u, n - at));
					check_sink(r, s, msg, want, cuts);
					for (size_t a : asks) check_source(r, s, msg, want, a, u);
				}
				if (s[0].mode != ECB) for (size_t a = 1; a < std::min(n, size_t(18)); a++) check_sink(r, s, msg, want, {a, n - a});
				// the other way round: any data may be taken for ciphertext
				Bytes plain = model(s, msg, true);
				check_source(r, s, plain, msg, 16, 5);
			}
		}
	r.sample("stacks of %zu sinks and of %zu sources, every %zuth from %zu, lengths to %zu, keys and initial values shared or not", depth, depth, parts, part, longest);
}
// MAC on top of a stack of sources; encryption and MAC of one message with one key
void macs(Run &r, size_t depth, size_t part, size_t parts) {
	size_t all = 1;
	for (size_t i = 0; i < depth; i++) all *= KINDS;
	for (size_t code = part; code < all; code += parts)
		for (int shared = 0; shared < 4; shared += 3)
			for (size_t n = 0; n <= (r.thorough() ? 80u : 33u); n++) {
				Stack s = stack(code, depth, shared);
				if (n % 8 && has_ecb(s)) continue;
				r.begin("MAC of %s, %zu bytes", str(s).c_str(), n);
				r.state(mc::mix(mc::mix(code, depth * 4 + size_t(shared)), n + 1000));
				Bytes msg = message(n, 1 + code % 4), text = model(s, msg, false);
				auto &m = mkey(4);
				uint64_t want = ref::mac64([&](uint64_t x) { return m.enc(x); }, msg);
				for (size_t piece : {1, 5, 8, 11, 64}) {
					auto t = MemSource::make_tape(text);
					t->cut.assign(n, false);
					for (size_t i = piece; i <= n; i += piece) t->cut[i - 1] = true;
					gm::Imit x(sources(s, make_shared<MemSource>(t)), lkey(4));
					uint64_t got = num(x.value());
					if (got != want) r.fail("MAC of %s, %zu bytes in pieces of %zu: %s not %s", str(s).c_str(), n, piece, hexnum(got).c_str(), hexnum(want).c_str());
					if (num(x.value()) != want) r.fail("MAC of %s, %zu bytes: another value the second time", str(s).c_str(), n);
					r.step(2); r.trace();
				}
			}
	r.sample("MACs over stacks of %zu sources, every %zuth from %zu", depth, parts, part);
}
// What one stack of sinks writes is read through another stack of sources by and by, two readers sharing all objects
void tangled(Run &r, size_t a, size_t b) {
	for (size_t depth : {1, 2}) {
		size_t all = depth == 1 ? 3 : 9;
		Stack s = stack(a % all, depth, 1), t = stack(b % all, depth, 1);
		for (size_t n : {8, 16, 24, 40, 64}) {
			r.begin("%s and %s by turns, %zu bytes", str(s).c_str(), str(t).c_str(), n);
			Bytes ma = message(n, 1), mb = message(n, 5), ta = model(s, ma, false), tb = model(t, mb, false);
			SinkP x = sinks(s, make_shared<RecSink>()), y = sinks(t, make_shared<RecSink>());
			SourceP p = sources(s, make_shared<MemSource>(ta)), q = sources(t, make_shared<MemSource>(tb));
			Bytes ra, rb;
			for (size_t at = 0; at < n; at += 8) {
				x = x->write(dat(ma, at, 8));
				auto u = p->read(8);
				y = y->write(dat(mb, at, 8));
				auto v = q->read(8);
				for (auto c : u.first) ra.push_back(uint8_t(c));
				for (auto c : v.first) rb.push_back(uint8_t(c));
				p = u.second; q = v.second;
				r.step(4);
			}
			auto fa = finish(x, depth), fb = finish(y, depth);
			if (!rec(fa) || rec(fa)->content() != ta || !rec(fb) || rec(fb)->content() != tb || ra != ma || rb != mb)
				r.fail("%s and %s by turns, %zu bytes: not what each yields alone", str(s).c_str(), str(t).c_str(), n);
			r.trace(); r.state(mc::mix(mc::mix(a * 9 + b, depth), n));
		}
	}
}
// A sink that passes everything on to two stacks; a source that takes turns between two stacks
class Tee final : public goost::Sink {
public:
	Tee(const SinkP &a, const SinkP &b) : a(a), b(b) {}
	SinkP write(const Data &d) const override { return make_shared<Tee>(a->write(d), b->write(d)); }
	SinkP finalize() const override { return make_shared<Tee>(a->finalize(), b->finalize()); }
	const SinkP a, b;
};
void tee(Run &r, size_t a) {
	for (size_t b = 0; b < 9; b++)
		for (size_t c = 0; c < 3; c++) {
			Stack s = stack(a, 2, 0), t = stack(b, 2, 1), top = stack(c, 1, 2);
			for (size_t n : {0, 8, 16, 24, 48}) {
				r.begin("%s over both %s and %s, %zu bytes", str(top).c_str(), str(s).c_str(), str(t).c_str(), n);
				Bytes msg = message(n), mid = model(top, msg, false);
				SinkP x = sinks(top, make_shared<Tee>(sinks(s, make_shared<RecSink>()), sinks(t, make_shared<RecSink>())));
				for (size_t at = 0; at < n; at += 8) { x = x->write(dat(msg, at, 8)); r.step(); }
				x = x->finalize();
				auto *e = dynamic_cast<const Tee *>(x.get());
				if (!e) r.fail("%s: finalize does not return the sink below", str(top).c_str());
				auto fa = finish(e->a, 2), fb = finish(e->b, 2);
				if (!rec(fa) || !rec(fb) || rec(fa)->content() != model(s, mid, false) || rec(fb)->content() != model(t, mid, false))
					r.fail("%s over both %s and %s, %zu bytes: not the composition", str(top).c_str(), str(s).c_str(), str(t).c_str(), n);
				r.trace(); r.state(mc::mix(mc::mix(a * 9 + b, c), n));
			}
		}
}
// The upper levels are finalized one by one, and what is written in between goes into the next level
void phases(Run &r, size_t depth, size_t code) {
	for (int shared = 0; shared < 4; shared += 3) {
		Stack s = stack(code, depth, shared);
		std::vector<size_t> ns{0, 8, 16, 24};
		if (!has_ecb(s)) for (size_t n : {1, 3, 7, 9, 13, 20}) ns.push_back(n);
		std::vector<size_t> at(depth, 0);
		for (;;) {
			std::vector<Bytes> m;
			std::string how;
			for (size_t i = 0; i < depth; i++) { m.push_back(message(ns[at[i]], 3 + i)); how += std::to_string(ns[at[i]]) + " "; }
			r.begin("%s, bytes written at each level before it is finalized: %s", str(s).c_str(), how.c_str());
			SinkP x = sinks(s, make_shared<RecSink>());
			Bytes text;
			for (size_t i = 0; i < depth; i++) {
				x = x->write(dat(m[i]));
				x = x->finalize();
				r.step(2);
				text.insert(text.end(), m[i].begin(), m[i].end());
				text = level(s[i], text, false);
			}
			auto c = rec(x);
			if (!c || c->finals) r.fail("%s, %s: finalizing every level does not lead to the sink below", str(s).c_str(), how.c_str());
			if (c->content() != text) r.fail("%s, %s: wrote\n     %s\n not %s", str(s).c_str(), how.c_str(), hex(c->content()).c_str(), hex(text).c_str());
			r.trace();
			r.state(mc::mix(mc::hash_bytes(how.data(), how.size()), code * 8 + depth));
			size_t i = 0;
			while (i < depth && ++at[i] == ns.size()) at[i++] = 0;
			if (i == depth) break;
		}
	}
}
// Kuznyechik: CTR over CTR ... over a stream, and a MAC over that
void streams(Run &r, size_t depth, int kind) {
	for (size_t n = 0; n <= (r.thorough() ? 40u : 17u); n++)
		for (int shared = 0; shared < 3; shared++) {
			std::vector<U128> b;
			size_t last = 16;
			shared_ptr<const gk::Stream> s;
			if (kind == 0) {  // a memory stream of n words
				std::vector<uint64_t> w;
				for (size_t i = 0; i < n; i++) w.push_back(scramble(i));
				s = make_shared<gk::StMemory>(w);
				for (size_t i = 0; i < n; i += 2) b.push_back({w[i], i + 1 < n ? w[i + 1] : 0});
				if (n % 2) last = 8;
				if (!n) { b.push_back({0, 0}); last = 0; }
			} else {          // 3 blocks, n valid bytes in the last
				if (n > 16) break;
				for (size_t i = 0; i < 3; i++) b.push_back({scramble(i), scramble(i + 50)});
				last = n;
				s = make_shared<StubStream>(b, last);
			}
			r.begin("CTR %zu times over a stream %d of %zu, keys %d", depth, kind, n, shared);
			for (size_t d = 0; d < depth; d++) {
				int k = shared == 0 ? 5 + int(d) : 5;
				uint64_t iv = shared == 2 ? 77 : scramble(d + 3);
				static std::map<int, std::pair<KKey, ref::KuzKey>> keys;
				auto &e = keys[k];
				if (!e.first) e = {kuz_key(kuz_words(k)), ref_kuz(kuz_words(k))};
				s = make_shared<gk::StCTREncrypted>(s, e.first, iv);
				for (size_t i = 0; i < b.size(); i++) b[i] = ref::ctr_block([&](U128 x) { return e.second.enc(x); }, iv, i, b[i]);
			}
			auto it = s->iter();
			for (size_t i = 0; i < b.size(); i++) {
				bool l = i + 1 == b.size();
				auto v = ref::u128(it->value());
				size_t valid = l ? last : 16;
				if (it->last() != l || it->size() != valid) r.fail("depth %zu, block %zu of %zu: last %d, size %zu", depth, i, b.size(), int(it->last()), it->size());
				for (size_t j = 0; j < valid; j++) if (v.byte(int(j)) != b[i].byte(int(j))) r.fail("depth %zu, block %zu: %s not %s", depth, i, hexnum(v).c_str(), hexnum(b[i]).c_str());
				r.step(3);
				if (!l) it = it->next();
			}
			ref::KuzKey mk = ref_kuz(kuz_words(5));
			auto want = ref::mac128([&](U128 x) { return mk.enc(x); }, b, last);
			auto got = ref::u128(gk::Imit(s, kuz_key(kuz_words(5))).value());
			if (got != want) r.fail("MAC of CTR %zu times over a stream %d of %zu: %s not %s", depth, kind, n, hexnum(got).c_str(), hexnum(want).c_str());
			r.step(); r.trace(); r.state(mc::mix(mc::mix(depth, size_t(kind * 3 + shared)), n));
		}
	r.sample("CTR %zu times over %s, MAC of the result", depth, kind ? "a stream of the user's" : "memory streams");
}
std::string S(const char *a, size_t b) { return a + std::string("-") + std::to_string(b); }
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	bool th = tier == Tier::thorough;
	size_t parts[] = {0, 1, 3, 9, 9, 27}, len[] = {0, 100, th ? 100u : 73u, th ? 73u : 41u, th ? 41u : 17u, 16};
	for (size_t d = 1; d <= (th ? 5u : 4u); d++)
		for (size_t p = 0; p < parts[d]; p++) {
			size_t n = parts[d], l = len[d];
			out.push_back({"stacks-" + std::to_string(d) + "-" + std::to_string(p), [=](Run &r) { stacks(r, d, p, n, l); }, int(d) + 2});
			if (d <= 3) out.push_back({"macs-" + std::to_string(d) + "-" + std::to_string(p), [=](Run &r) { macs(r, d, p, n); }, int(d)});
		}
	for (size_t a = 0; a < 9; a++) out.push_back({S("tangled", a), [a](Run &r) { for (size_t b = 0; b < 9; b++) tangled(r, a, b); }, 1});
	for (size_t a = 0; a < 9; a++) out.push_back({S("tee", a), [a](Run &r) { tee(r, a); }, 1});
	for (size_t c = 0; c < 9; c++) out.push_back({S("phases-2", c), [c](Run &r) { phases(r, 2, c); }, 1});
	for (size_t c = 0; c < 27; c++) out.push_back({S("phases-3", c), [c](Run &r) { phases(r, 3, c); }, 2});
	for (size_t d = 0; d <= (th ? 6u : 4u); d++) for (int k = 0; k < 2; k++) out.push_back({"ctr-" + std::to_string(d) + "-" + std::to_string(k), [d, k](Run &r) { streams(r, d, k); }, 2});
}
