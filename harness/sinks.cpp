// C07: encrypting sinks, every way of cutting a message into writes.
#include "env.h"
using namespace env;
const char *const mc::property = "C07";

namespace {
enum Mode { CFB89, CFBM, ECB };
const char *const NAME[] = {"GOST 28147-89 CFB", "Magma CFB", "ECB"};

struct Sys {
	Mode mode;
	LKey key;
	ref::MagmaKey m;
	Cfb c;
	Bytes msg, text;   // whole message, whole ciphertext
	Sys(Mode mode, int k, size_t n, uint64_t which = 1) : mode(mode), key(key_native(key_words(k), table(k % 2))),
		m(ref_key(key_words(k), table(k % 2))), c{mode == CFBM, 0x1234567890abcdefULL, 0x234567890abcdef1ULL} {
		msg = message(n, which);
		text = model(msg);
	}
	Bytes model(const Bytes &b) const {
		if (mode == ECB) return ref::ecb([&](uint64_t x) { return m.enc(x); }, b);
		return c.model(m, b, false);
	}
	SinkP fresh() const {
		SinkP below = make_shared<RecSink>();
		if (mode == ECB) return make_shared<gm::ECBSink>(below, key);
		return c.sink(below, key);
	}
	// CFB of a prefix is a prefix of the CFB
	Bytes prefix(size_t n) const { return Bytes(text.begin(), text.begin() + long(n)); }
};

SinkP put(mc::Run &r, const Sys &y, const SinkP &s, size_t from, size_t n, const std::string &how) {
	uint64_t before = RecSink::nwrites;
	size_t had = from / 8 * 8, now = (from + n) / 8 * 8;
	SinkP t = s->write(dat(y.msg, from, n));
	r.step();
	if (!t) r.fail("%s, writes %s: write returned nothing", NAME[y.mode], how.c_str());
	if (RecSink::nwrites == before) {
		if (now != had) r.fail("%s, writes %s: %zu bytes are complete blocks, only %zu were delivered", NAME[y.mode], how.c_str(), now, had);
	} else {
		Bytes got = RecSink::newest->content();
		if (got != y.prefix(now))
			r.fail("%s, writes %s: delivered after the last write\n     %s\n not %s", NAME[y.mode], how.c_str(), hex(got).c_str(), hex(y.prefix(now)).c_str());
	}
	return t;
}
void finish(mc::Run &r, const Sys &y, const SinkP &s, size_t n, const std::string &how) {
	SinkP f = s->finalize();
	r.step();
	auto x = rec(f);
	if (!x) r.fail("%s, writes %s: finalize does not return the sink below", NAME[y.mode], how.c_str());
	if (x->finals) r.fail("%s, writes %s: finalize has finalized the sink below, too", NAME[y.mode], how.c_str());
	if (x->content() != y.prefix(n))
		r.fail("%s, writes %s: ciphertext\n     %s\n not %s", NAME[y.mode], how.c_str(), hex(x->content()).c_str(), hex(y.prefix(n)).c_str());
	r.trace();
}
// Tree of all writes: from every object every next write, finalizing every object
void tree(mc::Run &r, const Sys &y, const SinkP &s, size_t at, size_t unit, int empties, std::string &how) {
	r.begin("%s, writes %s", NAME[y.mode], how.c_str());
	r.state(hash(Bytes(how.begin(), how.end()), at));
	finish(r, y, s, at, how);
	size_t l = how.size();
	if (empties > 0) {
		how += "0 ";
		tree(r, y, put(r, y, s, at, 0, how), at, unit, empties - 1, how);
		how.resize(l);
	}
	for (size_t n = unit; at + n <= y.msg.size(); n += unit) {
		how += std::to_string(n) + " ";
		tree(r, y, put(r, y, s, at, n, how), at + n, unit, empties, how);
		how.resize(l);
	}
	if (empties == 0) finish(r, y, s, at, how);  // again, after all continuations
}
void compositions(mc::Run &r, Mode mode, size_t n, int empties, size_t first) {
	size_t unit = mode == ECB ? 8 : 1;
	Sys y(mode, int(n) % 3, n * unit);
	std::string how;
	SinkP s = y.fresh();
	if (first == 0) {
		finish(r, y, s, 0, how);
		how = "0 ";
		tree(r, y, put(r, y, s, 0, 0, how), 0, unit, empties - 1, how);
	} else {
		how = std::to_string(first * unit) + " ";
		tree(r, y, put(r, y, s, 0, first * unit, how), first * unit, unit, empties, how);
	}
	r.sample("%s: every sequence of writes of up to %zu bytes in all that starts with %zu, up to %d of them empty", NAME[mode], n * unit, first * unit, empties);
}
const std::vector<size_t> &sizes() {
	static const std::vector<size_t> v = [] {
		std::vector<size_t> s;
		for (size_t i = 0; i <= 24; i++) s.push_back(i);
		for (size_t e = 5; e <= 12; e++) for (long d : {-1L, 0L, 1L}) s.push_back(size_t((1L << e) + d));
		for (size_t x : {100, 255 * 8, 1000, 4096 + 8}) s.push_back(x);
		return s;
	}();
	return v;
}
void pairs(mc::Run &r, Mode mode, size_t a) {
	for (size_t b : sizes()) {
		size_t x = a, z = b, w = 5;
		if (mode == ECB) { x = a * 8; z = b % 40 * 8; w = 8; }
		Sys y(mode, 1, x + z + w, 1);
		std::string how = std::to_string(x) + " " + std::to_string(z) + " " + std::to_string(w);
		r.begin("%s, writes %s", NAME[mode], how.c_str());
		SinkP s = put(r, y, y.fresh(), 0, x, how);
		s = put(r, y, s, x, z, how);
		finish(r, y, s, x + z, how);
		s = put(r, y, s, x + z, w, how);
		finish(r, y, s, x + z + w, how);
		r.state(mc::mix(x, z));
	}
}
void large(mc::Run &r, Mode mode, int e) {
	for (size_t pre = 0; pre < 8; pre++)
		for (long d : {-1L, 0L, 1L}) {
			size_t p = mode == ECB ? pre * 8 : pre, n = size_t((1L << e) + d);
			if (mode == ECB) n *= 8;
			size_t post = mode == ECB ? 16 : 11;
			Sys y(mode, 0, p + n + post, 1);
			std::string how = std::to_string(p) + " " + std::to_string(n) + " " + std::to_string(post);
			r.begin("%s, writes %s", NAME[mode], how.c_str());
			SinkP s = put(r, y, y.fresh(), 0, p, how);
			s = put(r, y, s, p, n, how);
			s = put(r, y, s, p + n, post, how);
			finish(r, y, s, p + n + post, how);
			r.state(mc::mix(p, n));
		}
}
// Writes of one size throughout, many of them
void uniform(mc::Run &r, Mode mode, size_t size, size_t total) {
	if (mode == ECB) size *= 8;
	size_t n = total / size;
	Sys y(mode, 2, n * size, 4);
	std::string how = std::to_string(n) + " times " + std::to_string(size);
	SinkP s = y.fresh();
	Bytes log;
	r.begin("%s, writes %s", NAME[mode], how.c_str());
	for (size_t i = 0; i < n; i++) {
		s = s->write(dat(y.msg, i * size, size));
		r.step();
		if (RecSink::newest ? RecSink::newest->size() != (i + 1) * size / 8 * 8 && (i + 1) * size >= 8 : (i + 1) * size >= 8)
			r.fail("%s, writes %s: after %zu writes %zu bytes are delivered", NAME[mode], how.c_str(), i + 1, RecSink::newest ? RecSink::newest->size() : 0);
		r.state(mc::mix(size, i));
	}
	finish(r, y, s, n * size, how);
}
// Stacked sinks: an encrypting sink is also a sink below
void stacked(mc::Run &r, int a, int b) {
	for (size_t n = 0; n <= 48; n += 8)
		for (size_t cut = 0; cut <= n; cut += 8)
			for (size_t tail = 0; tail < (b == ECB || a == ECB ? 1 : 8); tail++) {
				Sys lower(Mode(b), 1, 8), upper(Mode(a), 2, n + tail);
				SinkP low = lower.mode == ECB ? SinkP(make_shared<gm::ECBSink>(make_shared<RecSink>(), lower.key)) : lower.c.sink(make_shared<RecSink>(), lower.key);
				SinkP s = upper.mode == ECB ? SinkP(make_shared<gm::ECBSink>(low, upper.key)) : upper.c.sink(low, upper.key);
				r.begin("%s over %s, writes %zu %zu", NAME[a], NAME[b], cut, n + tail - cut);
				s = s->write(dat(upper.msg, 0, cut));
				s = s->write(dat(upper.msg, cut, n + tail - cut));
				s = s->finalize();
				s = s->finalize();
				r.step(4);
				if (!rec(s)) r.fail("finalizing twice does not reach the bottom sink");
				if (rec(s)->content() != lower.model(upper.text)) r.fail("stacked ciphertext is wrong");
				r.trace();
				r.state(mc::mix(mc::mix(n, cut), tail));
			}
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	bool th = tier == Tier::thorough;
	for (int m = 0; m < 3; m++) {
		std::string M = m == 0 ? "cfb89" : m == 1 ? "cfbm" : "ecb";
		Mode mode = Mode(m);
		size_t n = mode == ECB ? (th ? 14 : 10) : (th ? 20 : 17), n1 = mode == ECB ? 8 : (th ? 17 : 13), n2 = mode == ECB ? 6 : 10;
		for (size_t f = 1; f <= n; f++) out.push_back({M + "-all-" + std::to_string(f), [=](Run &r) { compositions(r, mode, n, 0, f); }, int(9 - std::min<size_t>(f, 8))});
		for (size_t f = 0; f <= n1; f++) out.push_back({M + "-empty1-" + std::to_string(f), [=](Run &r) { compositions(r, mode, n1, 1, f); }, 3});
		for (size_t f = 0; f <= n2; f++) out.push_back({M + "-empty2-" + std::to_string(f), [=](Run &r) { compositions(r, mode, n2, 2, f); }, 3});
		for (size_t i = 0; i < sizes().size(); i++) out.push_back({M + "-pairs-" + std::to_string(sizes()[i]), [=](Run &r) { pairs(r, mode, sizes()[i]); }, 2});
		for (int e = 5; e <= (th ? 18 : 13); e++) out.push_back({M + "-large-2^" + std::to_string(e), [=](Run &r) { large(r, mode, e); }, 2});
		for (size_t s : {1, 2, 3, 5, 7, 8, 9, 13, 16, 64, 1000}) out.push_back({M + "-uniform-" + std::to_string(s), [=](Run &r) { uniform(r, mode, s, th ? 1200000 : 66000 * (s == 1 ? mode == ECB ? 9 : 2 : 1)); }, 2});
		for (int b = 0; b < 3; b++) out.push_back({M + "-over-" + std::to_string(b), [=](Run &r) { stacked(r, m, b); }, 1});
	}
}
