// C20: elementary block objects against exact arithmetic.
#include "env.h"
using namespace env;
using ref::U128;
const char *const mc::property = "C20";

namespace {
typedef shared_ptr<const gm::Block> B64;
typedef shared_ptr<const gk::Block> B128;
// The same value behind different implementations of the interface
B64 as64(uint64_t v, int kind) {
	switch (kind) {
	case 0: return make_shared<StubBlk64>(v);
	case 1: return make_shared<gm::BlkRaw>(v);
	case 2: return make_shared<gm::BlkSwapped>(make_shared<gm::BlkRaw>(uint32_t(v >> 32), uint32_t(v)));
	default: return make_shared<gm::BlkString>(hexnum(v));
	}
}
B128 as128(U128 v, int kind) {
	switch (kind) {
	case 0: return make_shared<StubBlk128>(v);
	case 1: return make_shared<gk::BlkRaw>(v.lo, v.hi);
	case 2: return make_shared<gk::BlkCached>(make_shared<StubBlk128>(v));
	default: return make_shared<gk::BlkString>(hexnum(v));
	}
}
void eq(mc::Run &r, const char *what, uint64_t got, uint64_t want) {
	r.step(); r.trace();
	if (got != want) r.fail("%s: %016llx instead of %016llx", what, (unsigned long long)got, (unsigned long long)want);
	r.state(want);
}
void eq(mc::Run &r, const char *what, U128 got, U128 want) {
	r.step(); r.trace();
	if (got != want) r.fail("%s: %s instead of %s", what, hexnum(got).c_str(), hexnum(want).c_str());
	r.state(mc::mix(want.lo, want.hi));
}
uint64_t val(const gm::Block &b) { return num(b.value()); }
U128 val(const gk::Block &b) { return ref::u128(b.value()); }

void raw(mc::Run &r) {
	for (auto v : words64()) {
		r.begin("raw 64-bit block %016llx", (unsigned long long)v);
		Bytes b(8);
		ref::store64(&b[0], v);
		eq(r, "BlkRaw(low, high)", val(gm::BlkRaw(uint32_t(v), uint32_t(v >> 32))), v);
		eq(r, "BlkRaw(pair)", val(gm::BlkRaw(std::make_pair(uint32_t(v), uint32_t(v >> 32)))), v);
		for (int k = 0; k < 4; k++) eq(r, "BlkRaw(block)", val(gm::BlkRaw(as64(v, k))), v);
		eq(r, "BlkRaw(number)", val(gm::BlkRaw(v)), v);
		eq(r, "BlkRaw(vector)", val(gm::BlkRaw(b)), v);
		eq(r, "BlkRaw(pointer)", val(gm::BlkRaw(static_cast<const void *>(&b[0]))), v);
		{ auto gone = make_shared<StubBlk64>(v); gm::BlkRaw x{B64(gone)}; gone.reset(); eq(r, "BlkRaw outlives its source", val(x), v); }
		{ Bytes c = b; gm::BlkRaw x(c); c.assign(8, 0x55); eq(r, "BlkRaw keeps the vector's value", val(x), v); }
		for (auto h : words64()) {
			U128 w{v, h};
			Bytes c(16);
			ref::store64(&c[0], v); ref::store64(&c[8], h);
			eq(r, "BlkRaw(low, high)", val(gk::BlkRaw(v, h)), w);
			eq(r, "BlkRaw(pair)", val(gk::BlkRaw(std::make_pair(v, h))), w);
			eq(r, "BlkRaw(block)", val(gk::BlkRaw(B128(make_shared<StubBlk128>(w)))), w);
			eq(r, "BlkRaw(pointer)", val(gk::BlkRaw(static_cast<const void *>(&c[0]))), w);
		}
		eq(r, "BlkRaw(number)", val(gk::BlkRaw(v)), U128{v, 0});
	}
	eq(r, "BlkRaw()", val(gm::BlkRaw()), 0);
	eq(r, "BlkRaw()", val(gk::BlkRaw()), U128{0, 0});
}
void raw_bytes(mc::Run &r, size_t p) {
	r.begin("raw blocks from memory, byte %zu", p);
	for (int v = 0; v < 256; v++) {
		Bytes c = message(16, 1);
		c[p] = uint8_t(v);
		eq(r, "BlkRaw(pointer)", val(gk::BlkRaw(static_cast<const void *>(&c[0]))), U128{ref::load64(&c[0]), ref::load64(&c[8])});
		if (p < 8) {
			eq(r, "BlkRaw(pointer)", val(gm::BlkRaw(static_cast<const void *>(&c[0]))), ref::load64(&c[0]));
			Bytes d(c.begin(), c.begin() + 8);
			eq(r, "BlkRaw(vector)", val(gm::BlkRaw(d)), ref::load64(&d[0]));
		}
	}
}
void shifts(mc::Run &r, int part, int parts) {
	for (int n = part; n < 128; n += parts) {
		r.begin("shift by %d", n);
		size_t j = 0;
		for (auto v : words64()) {
			j++;
			if (n < 64) for (int k = 0; k < 4; k++) eq(r, "magma::BlkShifted", val(gm::BlkShifted(as64(v, k), n)), v << n);
			size_t i = 0;
			for (auto h : words64()) if (r.thorough() || (i++ + j) % 3 == 0 || h == 0 || v == 0 || h == ~0ULL) {
				eq(r, "kuznyechik::BlkShifted", val(gk::BlkShifted(make_shared<gk::BlkRaw>(v, h), n)), ref::shl({v, h}, n));
			}
			for (int k = 0; k < 4; k++) eq(r, "kuznyechik::BlkShifted", val(gk::BlkShifted(as128({v, ~v}, k), n)), ref::shl({v, ~v}, n));
		}
		// a shift of a shift
		for (int m = 0; n + m < 128; m++) {
			if (n + m < 64) eq(r, "shift of a shift", val(gm::BlkShifted(make_shared<gm::BlkShifted>(as64(0x8123456789abcdefULL, 1), m), n)), 0x8123456789abcdefULL << (n + m));
			eq(r, "shift of a shift", val(gk::BlkShifted(make_shared<gk::BlkShifted>(as128({0x8123456789abcdefULL, 0xfedcba9876543211ULL}, 1), m), n)), ref::shl({0x8123456789abcdefULL, 0xfedcba9876543211ULL}, n + m));
		}
	}
}
void swaps(mc::Run &r) {
	r.begin("swaps");
	for (auto v : words64())
		for (int k = 0; k < 4; k++) {
			eq(r, "BlkSwapped", val(gm::BlkSwapped(as64(v, k))), v << 32 | v >> 32);
			eq(r, "BlkSwapped twice", val(gm::BlkSwapped(make_shared<gm::BlkSwapped>(as64(v, k)))), v);
		}
}
void xors(mc::Run &r, int part, int parts) {
	size_t i = 0;
	for (auto a : words64()) {
		if (int(i++ % size_t(parts)) != part) continue;
		r.begin("exclusive-or with %016llx", (unsigned long long)a);
		size_t j = 0;
		for (auto b : words64()) {
			int k = int(j++ % 4), l = int((j / 4) % 4);
			eq(r, "magma::BlkXored", val(gm::BlkXored(as64(a, k), as64(b, l))), a ^ b);
			eq(r, "kuznyechik::BlkXored", val(gk::BlkXored(as128({a, b}, k), as128({b, ~a}, l))), U128{a ^ b, b ^ ~a});
			eq(r, "magma::BlkXored of 3", val(gm::BlkXored(as64(a, 0), as64(b, 1), as64(a + b, 2))), a ^ b ^ (a + b));
			eq(r, "kuznyechik::BlkXored of 3", val(gk::BlkXored(as128({a, b}, 0), as128({b, a}, 1), as128({a + b, 3}, 1))), U128{a ^ b ^ (a + b), b ^ a ^ 3});
		}
		for (auto b : words64()) {
			B64 x = as64(b, 1);
			eq(r, "an object with itself", val(gm::BlkXored(x, x)), 0);
			eq(r, "magma::BlkXored of 5", val(gm::BlkXored(x, as64(a, 0), as64(1, 1), as64(~b, 1), as64(a * 3, 0))), b ^ a ^ 1 ^ ~b ^ (a * 3));
			eq(r, "kuznyechik::BlkXored of 5", val(gk::BlkXored(as128({a, b}, 1), as128({a * 3, b}, 0), as128({1, 2}, 1), as128({~b, b + 7}, 0), as128({5, a}, 1))), U128{a ^ (a * 3) ^ 1 ^ ~b ^ 5, b ^ b ^ 2 ^ (b + 7) ^ a});
			eq(r, "magma::BlkXored of 4", val(gm::BlkXored(x, as64(a, 0), as64(2, 1), as64(b + 9, 1))), b ^ a ^ 2 ^ (b + 9));
			eq(r, "kuznyechik::BlkXored of 4", val(gk::BlkXored(as128({a, b}, 1), as128({a * 3, ~b}, 0), as128({1, 2}, 1), as128({~b, b + 7}, 0))), U128{a ^ (a * 3) ^ 1 ^ ~b, b ^ ~b ^ 2 ^ (b + 7)});
		}
	}
}
// All compositions of the operations up to a depth, against the same composition of numbers
struct E64 { B64 b; uint64_t v; };
struct E128 { B128 b; U128 v; };
void compose64(mc::Run &r, const E64 &e, int depth, const std::vector<E64> &leaves, std::string &text) {
	eq(r, text.c_str(), val(*e.b), e.v);
	if (depth == 0) return;
	size_t l = text.size();
	auto go = [&](const char *t, const B64 &b, uint64_t v) { text += t; compose64(r, {b, v}, depth - 1, leaves, text); text.resize(l); };
	go(" swap", make_shared<gm::BlkSwapped>(e.b), e.v << 32 | e.v >> 32);
	for (int n : {0, 1, 31, 32, 33, 63}) go(" shift", make_shared<gm::BlkShifted>(e.b, n), e.v << n);
	go(" raw", make_shared<gm::BlkRaw>(e.b), e.v);
	go(" xor-self", make_shared<gm::BlkXored>(e.b, e.b), 0);
	for (auto &x : leaves) { go(" xor", make_shared<gm::BlkXored>(e.b, x.b), e.v ^ x.v); go(" rxor", make_shared<gm::BlkXored>(x.b, e.b), e.v ^ x.v); }
	if (val(*e.b) != e.v) r.fail("%s: the operand changed", text.c_str());
}
void compose128(mc::Run &r, const E128 &e, int depth, const std::vector<E128> &leaves, std::string &text) {
	eq(r, text.c_str(), val(*e.b), e.v);
	if (depth == 0) return;
	size_t l = text.size();
	auto go = [&](const char *t, const B128 &b, U128 v) { text += t; compose128(r, {b, v}, depth - 1, leaves, text); text.resize(l); };
	for (int n : {0, 1, 63, 64, 65, 127}) go(" shift", make_shared<gk::BlkShifted>(e.b, n), ref::shl(e.v, n));
	go(" raw", make_shared<gk::BlkRaw>(e.b), e.v);
	go(" inc", make_shared<gk::BlkIncremented>(e.b), ref::inc(e.v));
	go(" cache", make_shared<gk::BlkCached>(e.b), e.v);
	go(" S", make_shared<gk::BlkS>(e.b), ref::S(e.v));
	go(" L", make_shared<gk::BlkL>(e.b), ref::fastL(e.v));
	for (auto &x : leaves) { go(" xor", make_shared<gk::BlkXored>(e.b, x.b), e.v ^ x.v); go(" rxor", make_shared<gk::BlkXored>(x.b, e.b), e.v ^ x.v); }
	if (val(*e.b) != e.v) r.fail("%s: the operand changed", text.c_str());
}
void compositions(mc::Run &r, int leaf) {
	int depth = r.thorough() ? 4 : 3;
	std::vector<E64> l64;
	std::vector<E128> l128;
	for (uint64_t v : {0x0123456789abcdefULL, 0x8000000180000001ULL, ~0ULL}) { l64.push_back({as64(v, 0), v}); l128.push_back({as128({v, ~v * 3}, 0), {v, ~v * 3}}); }
	std::string t = "composition";
	r.begin("compositions over leaf %d", leaf);
	compose64(r, l64[size_t(leaf)], depth + 1, l64, t);
	compose128(r, l128[size_t(leaf)], depth, l128, t);
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	out.push_back({"raw", raw, 3});
	for (size_t p = 0; p < 16; p++) out.push_back({"raw-bytes-" + std::to_string(p), [p](Run &r) { raw_bytes(r, p); }, 1});
	for (int i = 0; i < 16; i++) out.push_back({"shifts-" + std::to_string(i), [i](Run &r) { shifts(r, i, 16); }, 5});
	out.push_back({"swaps", swaps, 1});
	for (int i = 0; i < 8; i++) out.push_back({"xors-" + std::to_string(i), [i](Run &r) { xors(r, i, 8); }, 4});
	for (int i = 0; i < 3; i++) out.push_back({"compositions-" + std::to_string(i), [i](Run &r) { compositions(r, i); }, 4});
}
