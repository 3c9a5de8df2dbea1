// C04: Magma substitution layers on all 2^32 inputs.
#include "env.h"
using namespace env;
const char *const mc::property = "C04";

namespace {
// Expected substitution, per 16-bit half
struct Halves {
	std::vector<uint32_t> lo, hi;
	explicit Halves(const ref::Table &t, bool rot) : lo(65536), hi(65536) {
		for (uint32_t v = 0; v < 65536; v++) {
			lo[v] = ref::substitute(t, v) & 0xffff;
			hi[v] = ref::substitute(t, v << 16) & 0xffff0000;
			if (rot) { lo[v] = ref::rotl11(lo[v]); hi[v] = ref::rotl11(hi[v]); }
		}
	}
	uint32_t at(uint32_t v) const { return lo[v & 0xffff] | hi[v >> 16]; }
};
typedef std::unique_ptr<const gm::Sbox> SP;
SP nibble(const ref::Table &t) {
	return make_unique<gm::SboxNibble>(row(t, 0), row(t, 1), row(t, 2), row(t, 3), row(t, 4), row(t, 5), row(t, 6), row(t, 7));
}
SP packed(const ref::Table &t) { return make_unique<gm::SboxByte>(ref::pack(t)); }

// step > 1: every step-th high half, all low halves
void sweep(mc::Run &r, const char *name, const SP &s, const Halves &h, uint32_t from, uint32_t to, uint32_t step) {
	for (uint32_t hi = from; hi < to; hi += step) {
		r.begin("%s, inputs %04x0000..%04xffff", name, hi, hi);
		for (uint32_t lo = 0; lo < 65536; lo++) {
			uint32_t v = hi << 16 | lo, got = s->transform(v), want = h.at(v);
			if (got != want) r.fail("%s: %08x is replaced by %08x, the table says %08x", name, v, got, want);
		}
		r.step(65536); r.trace(65536);
		r.state(mc::mix(hi, h.at(hi << 16)));
	}
}
struct Case { std::string name; std::function<SP()> make; int tab; bool rot; };
std::vector<Case> full_cases() {
	return {
		{"default table", [] { return SP(make_unique<gm::SboxR3412>()); }, 0, true},
		{"eight rows, table 1", [] { return nibble(table(1)); }, 1, false},
		{"packed, table 1", [] { return packed(table(1)); }, 1, false},
		{"rotated packed, table 4", [] { return SP(make_unique<gm::SboxTwisted>(packed(table(4)))); }, 4, true},
	};
}
// Every entry of the table matters, alone: all 128 entries take all 16 values
void entries(mc::Run &r, int row_) {
	for (int v = 0; v < 16; v++)
		for (int e = 0; e < 16; e++) {
			ref::Table t = table(row_ % 5);
			t.pi[row_][v] = uint8_t(e);
			SP a = nibble(t), b = packed(t), c = make_unique<gm::SboxTwisted>(packed(t)), d = make_unique<gm::SboxTwisted>(nibble(t));
			r.begin("table %d with row %d entry %d = %d", row_ % 5, row_, v, e);
			for (int n = 0; n < 8; n++)
				for (uint32_t x = 0; x < 16; x++)
					for (uint32_t base : {0u, 0xffffffffu, 0x01234567u, 0x89abcdefu}) {
						uint32_t in = (base & ~(15u << 4 * n)) | x << 4 * n, w = ref::substitute(t, in), wr = ref::rotl11(w);
						if (a->transform(in) != w) r.fail("eight rows: %08x is replaced by %08x, not %08x", in, a->transform(in), w);
						if (b->transform(in) != w) r.fail("packed: %08x is replaced by %08x, not %08x", in, b->transform(in), w);
						if (c->transform(in) != wr || d->transform(in) != wr) r.fail("rotated: %08x is replaced by %08x / %08x, not %08x", in, c->transform(in), d->transform(in), wr);
						r.step(4); r.trace(4);
						r.state(mc::mix(w, in));
					}
		}
	r.sample("row %d: all 16 entries take all 16 values; every nibble of four bases takes all values", row_);
}
// The rotating wrapper over any substitution
void wrapper(mc::Run &r) {
	auto in = make_shared<uint32_t>(0), out = make_shared<uint32_t>(0);
	gm::SboxTwisted t(make_unique<StubSbox>([in, out](uint32_t v) { *in = v; return *out; }));
	r.begin("rotation of every 16-bit pattern in either half");
	for (uint64_t v = 0; v < 65536 * 3; v++) {
		uint32_t x = v < 65536 ? uint32_t(v) : v < 131072 ? uint32_t(v << 16) : uint32_t(v & 0xffff) * 0x10001u;
		*out = x;
		uint32_t got = t.transform(~x * 3);
		if (*in != ~x * 3) r.fail("the wrapped table is asked for %08x instead of %08x", *in, ~x * 3);
		if (got != ref::rotl11(x)) r.fail("%08x is rotated to %08x", x, got);
	}
	r.step(65536 * 3); r.trace(65536 * 3); r.state(1);
	r.begin("nested rotation");
	gm::SboxTwisted tt(make_unique<gm::SboxTwisted>(make_unique<StubSbox>([](uint32_t v) { return v; })));
	for (auto w : words64()) if (tt.transform(uint32_t(w)) != ref::rotl11(ref::rotl11(uint32_t(w)))) r.fail("nested rotation is wrong");
	r.step(words64().size()); r.trace(words64().size());
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	auto cs = full_cases();
	for (size_t c = 0; c < cs.size(); c++)
		for (uint32_t p = 0; p < 16; p++)
			out.push_back({"all-" + std::to_string(c) + "-" + std::to_string(p), [cs, c, p](Run &r) {
				Halves h(table(cs[c].tab), cs[c].rot);
				sweep(r, cs[c].name.c_str(), cs[c].make(), h, p << 12, (p + 1) << 12, 1);
				r.sample("%s: all inputs %x0000000..%xfffffff", cs[c].name.c_str(), p, p);
			}, 5});
	// further tables
	int tabs = tier == Tier::thorough ? 10 : 6;
	uint32_t step = tier == Tier::thorough ? 1 : 61;
	for (int t = 0; t < tabs; t++)
		for (int kind = 0; kind < 3; kind++)
			out.push_back({"table-" + std::to_string(t) + "-" + std::to_string(kind), [t, kind, step](Run &r) {
				Halves h(table(t), kind == 2);
				SP s = kind == 0 ? nibble(table(t)) : kind == 1 ? packed(table(t)) : SP(make_unique<gm::SboxTwisted>(nibble(table(t))));
				sweep(r, kind == 0 ? "eight rows" : kind == 1 ? "packed" : "rotated eight rows", s, h, uint32_t(t), 65536, step);
			}, 3});
	for (int i = 0; i < 8; i++) out.push_back({"entries-" + std::to_string(i), [i](Run &r) { entries(r, i); }, 1});
	out.push_back({"wrapper", wrapper, 1});
}
