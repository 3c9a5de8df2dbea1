// The closed environment: every collaborator the library calls out to, and the alphabets.
#pragma once
#include <array>
#include <map>
#include <memory>
#include <stdexcept>
#include <goost/Sink.h>
#include <goost/Source.h>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/Key.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/kuznyechik/Stream.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/Container.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/SboxTwisted.h>
#include "core.h"
#include "ref.h"

namespace gm = goost::magma;
namespace gk = goost::kuznyechik;
namespace g89 = goost::gost89;

namespace env {
using std::shared_ptr;
using std::make_shared;
using std::make_unique;
typedef std::vector<std::byte> Data;
typedef ref::Bytes Bytes;
typedef shared_ptr<const goost::Sink> SinkP;
typedef shared_ptr<const goost::Source> SourceP;
typedef shared_ptr<const gm::LazyKey> LKey;
typedef shared_ptr<const gm::Key> AKey;
typedef shared_ptr<const gk::Key> KKey;

inline Data dat(const Bytes &b) {
	Data d(b.size());
	for (size_t i = 0; i < b.size(); i++) d[i] = std::byte(b[i]);
	return d;
}
inline Data dat(const Bytes &b, size_t from, size_t n) {
	Data d(n);
	for (size_t i = 0; i < n; i++) d[i] = std::byte(b[from + i]);
	return d;
}
inline Bytes bytes(const Data &d) {
	Bytes b(d.size());
	for (size_t i = 0; i < d.size(); i++) b[i] = uint8_t(d[i]);
	return b;
}
inline std::string hex(const Bytes &b) {
	if (b.size() <= 64) return mc::hex(b.data(), b.size());
	return mc::hex(b.data(), 32) + ".." + mc::hex(b.data() + b.size() - 16, 16) + "(" + std::to_string(b.size()) + ")";
}
inline uint64_t num(const std::pair<uint32_t, uint32_t> &p) { return uint64_t(p.second) << 32 | p.first; }
inline std::string hexnum(uint64_t v) { char b[24]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }
inline std::string hexnum(const ref::U128 &v) { return hexnum(v.hi) + hexnum(v.lo); }

// ------------------------------------------------------------------ faults
struct Boom { uint64_t id; };
struct BoomRuntime : std::runtime_error { explicit BoomRuntime(uint64_t id) : std::runtime_error("boom"), id(id) {} uint64_t id; };
struct BoomRange : std::out_of_range { explicit BoomRange(uint64_t id) : std::out_of_range("boom"), id(id) {} uint64_t id; };
struct BoomAlloc : std::bad_alloc { explicit BoomAlloc(uint64_t id) : id(id) {} uint64_t id; };
struct Fault {
	static inline uint64_t calls = 0;
	static inline int64_t at = -1;
	static inline int kind = 0;
	static inline const std::function<void()> *act = nullptr;    // kind 9: done instead of failing
	static void arm(int64_t a, int k = 0) { calls = 0; at = a; kind = k; }
	static void arm(int64_t a, const std::function<void()> &f) { act = &f; arm(a, 9); }
	static void disarm() { at = -1; }
	static void point() {
		uint64_t n = calls++;
		if (int64_t(n) != at) return;
		switch (kind) {
		case 1: throw BoomRuntime(n);
		case 2: throw BoomRange(n);
		case 3: throw BoomAlloc(n);
		case 9: { at = -1; (*act)(); calls = n + 1; break; }
		default: throw Boom{n};
		}
	}
};

// ------------------------------------------------------------------ sinks and sources
// Collects what was written. A value: writing to an older RecSink branches off.
class RecSink final : public goost::Sink {
public:
	RecSink() : log(make_shared<Bytes>()), len(0), writes(0) {}
	RecSink(const shared_ptr<Bytes> &log, size_t len, size_t writes) : log(log), len(len), writes(writes) {}
	SinkP write(const Data &d) const override {
		Fault::point();
		auto l = log;
		if (l->size() != len) l = make_shared<Bytes>(log->begin(), log->begin() + long(len));
		for (auto b : d) l->push_back(uint8_t(b));
		nwrites++;
		auto r = make_shared<RecSink>(l, len + d.size(), writes + 1);
		r->finals = finals;
		newest = r;
		return r;
	}
	static inline uint64_t nwrites = 0;                  // writes to any RecSink so far
	// (in place before any initializer runs, and never destroyed)
	struct Keep { union { shared_ptr<const RecSink> p; }; constexpr Keep() : p() {} ~Keep() {} };
	static Keep kept;
	static shared_ptr<const RecSink> &newest;             // result of the latest one
	// Nobody but the user finalizes this one
	SinkP finalize() const override { Fault::point(); auto r = make_shared<RecSink>(log, len, writes); r->finals = finals + 1; return r; }
	size_t finals = 0;
	Bytes content() const { return Bytes(log->begin(), log->begin() + long(len)); }
	size_t size() const { return len; }
	const Bytes &raw() const { return *log; }
private:
	const shared_ptr<Bytes> log;
	const size_t len, writes;
};
inline RecSink::Keep RecSink::kept;
inline shared_ptr<const RecSink> &RecSink::newest = RecSink::kept.p;
inline const RecSink *rec(const SinkP &s) { return dynamic_cast<const RecSink *>(s.get()); }

// Delivers bytes in pieces: a read never crosses a cut. cut[i]: there is a cut after byte i.
struct Tape {
	Bytes bytes;
	std::vector<bool> cut;
	mutable size_t reached = 0;    // furthest byte handed out
	mutable size_t reads = 0;
	mutable size_t maxask = 0;
};
class MemSource final : public goost::Source {
public:
	explicit MemSource(const shared_ptr<const Tape> &t, size_t pos = 0) : tape(t), pos(pos) {}
	explicit MemSource(const Bytes &b) : tape(make_tape(b)), pos(0) {}
	std::pair<Data, SourceP> read(size_t n) const override {
		Fault::point();
		tape->reads++;
		if (n > tape->maxask) tape->maxask = n;
		size_t e = pos;
		while (e < tape->bytes.size() && e - pos < n) {
			e++;
			if (e - 1 < tape->cut.size() && tape->cut[e - 1]) break;
		}
		if (e > tape->reached) tape->reached = e;
		return {dat(tape->bytes, pos, e - pos), make_shared<MemSource>(tape, e)};
	}
	static shared_ptr<Tape> make_tape(const Bytes &b) { auto t = make_shared<Tape>(); t->bytes = b; return t; }
private:
	const shared_ptr<const Tape> tape;
	const size_t pos;
};

// Reads everything with requests of `ask` bytes each.
inline Bytes drain(SourceP s, size_t ask, size_t limit = SIZE_MAX) {
	Bytes out;
	for (;;) {
		auto r = s->read(ask);
		if (r.first.empty()) return out;
		for (auto b : r.first) out.push_back(uint8_t(b));
		s = r.second;
		if (out.size() > limit) return out;
	}
}

// ------------------------------------------------------------------ key stubs
class StubKeyData final : public gm::KeyData {
public:
	typedef std::function<uint32_t(int)> F;
	explicit StubKeyData(const F &f) : f(f) {}
	uint32_t key(int i) const override { Fault::point(); return f(i); }
private:
	const F f;
};
class StubSbox final : public gm::Sbox {
public:
	typedef std::function<uint32_t(uint32_t)> F;
	explicit StubSbox(const F &f) : f(f) {}
	uint32_t transform(uint32_t v) const override { Fault::point(); return f(v); }
private:
	const F f;
};
class StubKey final : public gm::Key {
public:
	typedef std::function<uint32_t(uint32_t, int)> F;
	explicit StubKey(const F &f) : f(f) {}
	uint32_t transform(uint32_t v, int i) const override { Fault::point(); return f(v, i); }
private:
	const F f;
};
class StubContainer final : public gm::Container {
public:
	StubContainer(const Bytes &k, const Bytes &s, const Bytes &m = Bytes(32)) : k(k), m(m), s(s) {}
	Data key() const override { Fault::point(); return dat(k); }
	Data mask() const override { Fault::point(); return dat(m); }
	Data sbox() const override { Fault::point(); return dat(s); }
private:
	const Bytes k, m, s;
};
class StubBlk64 final : public gm::Block {
public:
	typedef std::function<uint64_t()> F;
	explicit StubBlk64(const F &f) : f(f) {}
	explicit StubBlk64(uint64_t v) : f([v] { return v; }) {}
	std::pair<uint32_t, uint32_t> value() const override { Fault::point(); uint64_t v = f(); return {uint32_t(v), uint32_t(v >> 32)}; }
private:
	const F f;
};
class StubBlk128 final : public gk::Block {
public:
	typedef std::function<ref::U128()> F;
	explicit StubBlk128(const F &f) : f(f) {}
	explicit StubBlk128(ref::U128 v) : f([v] { return v; }) {}
	std::pair<uint64_t, uint64_t> value() const override { Fault::point(); auto v = f(); return {v.lo, v.hi}; }
private:
	const F f;
};
class StubKuzData final : public gk::Key::Data {
public:
	StubKuzData(ref::U128 hi, ref::U128 lo) : hi(hi), lo(lo) {}
	shared_ptr<const gk::Block> low() const override { Fault::point(); return make_shared<StubBlk128>(lo); }
	shared_ptr<const gk::Block> high() const override { Fault::point(); return make_shared<StubBlk128>(hi); }
private:
	const ref::U128 hi, lo;
};
// A stream of blocks of which the last declares `last` valid bytes (the others may be garbage)
class StubStream final : public gk::Stream {
public:
	struct Body { std::vector<ref::U128> blocks; size_t last; mutable uint64_t values = 0, nexts = 0; };
	StubStream(const std::vector<ref::U128> &b, size_t last) : body(make_shared<Body>(Body{b, last})) {}
	shared_ptr<const gk::Iterator> iter() const override;
	const shared_ptr<Body> body;
};
class StubIter final : public gk::Iterator {
public:
	StubIter(const shared_ptr<const StubStream::Body> &b, size_t i) : b(b), i(i) {}
	std::pair<uint64_t, uint64_t> value() const override { Fault::point(); b->values++; return b->blocks[i].pair(); }
	bool last() const override { Fault::point(); return i + 1 == b->blocks.size(); }
	size_t size() const override { Fault::point(); return i + 1 == b->blocks.size() ? b->last : 16; }
	shared_ptr<const gk::Iterator> next() const override {
		Fault::point();
		b->nexts++;
		if (i + 1 == b->blocks.size()) return {};
		return make_shared<StubIter>(b, i + 1);
	}
private:
	const shared_ptr<const StubStream::Body> b;
	const size_t i;
};
inline shared_ptr<const gk::Iterator> StubStream::iter() const { Fault::point(); return make_shared<StubIter>(body, 0); }

// ------------------------------------------------------------------ alphabets
inline uint64_t scramble(uint64_t x) {
	x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}
inline Bytes message(size_t n, uint64_t which = 1) {
	Bytes b(n);
	for (size_t i = 0; i < n; i++)
		switch (which) {
		case 0: b[i] = 0; break;
		case 2: b[i] = 0xff; break;
		case 3: b[i] = uint8_t(i); break;
		case 4: b[i] = uint8_t(i / 8 % 2 ? 0x80 : 0); break;
		default: b[i] = uint8_t(scramble(i / 8 * 1000003 + which) >> (i % 8 * 8));
		}
	return b;
}
inline const std::array<uint32_t, 8> &key_words(int i) {
	static auto &m = *new std::map<int, std::array<uint32_t, 8>>;
	auto it = m.find(i);
	if (it != m.end()) return it->second;
	std::array<uint32_t, 8> k;
	if (i == 0) k = {{0xffeeddcc, 0xbbaa9988, 0x77665544, 0x33221100, 0xf0f1f2f3, 0xf4f5f6f7, 0xf8f9fafb, 0xfcfdfeff}};
	else if (i == 1) k.fill(0);
	else if (i == 2) k.fill(0xffffffff);
	else if (i == 3) k = {{0x80000000, 1, 0x7fffffff, 0x00010000, 0x0000ffff, 0x01000000, 0xff000000, 0x00000080}};
	else for (size_t j = 0; j < 8; j++) k[j] = uint32_t(scramble(uint64_t(i) * 8 + j));
	return m[i] = k;
}
inline std::string key_text(const std::array<uint32_t, 8> &k) {
	std::string s;
	for (auto w : k) { char b[12]; snprintf(b, sizeof b, "%08x", w); s += b; }
	return s;
}
// Substitution tables: the two standard ones, two that are not bijective, and generated ones
inline ref::Table table(int i) {
	if (i == 0) return ref::table_r3412();
	if (i == 1) return ref::table_gost89();
	ref::Table t;
	for (int r = 0; r < 8; r++)
		for (int v = 0; v < 16; v++)
			t.pi[r][v] = i == 2 ? uint8_t(v) : i == 3 ? uint8_t(r) : uint8_t(scramble(uint64_t(i * 128 + r * 16 + v)) & 15);
	return t;
}
inline std::vector<int> row(const ref::Table &t, int r) { return std::vector<int>(t.pi[r], t.pi[r] + 16); }
inline shared_ptr<const gm::Sbox> sbox_nibble(const ref::Table &t) {
	return make_shared<gm::SboxTwisted>(make_unique<gm::SboxNibble>(row(t, 0), row(t, 1), row(t, 2), row(t, 3),
		row(t, 4), row(t, 5), row(t, 6), row(t, 7)));
}
inline shared_ptr<const gm::Sbox> sbox_byte(const ref::Table &t) {
	return make_shared<gm::SboxTwisted>(make_unique<gm::SboxByte>(ref::pack(t)));
}
inline LKey key_native(const std::array<uint32_t, 8> &k, const ref::Table &t, bool nibble = false) {
	return make_shared<gm::LazyKey>(std::vector<uint32_t>(k.begin(), k.end()), nibble ? sbox_nibble(t) : sbox_byte(t));
}
inline LKey key_string(const std::array<uint32_t, 8> &k) { return make_shared<gm::LazyKey>(key_text(k)); }
inline LKey key_string(const std::array<uint32_t, 8> &k, const ref::Table &t) {
	return make_shared<gm::LazyKey>(key_text(k), sbox_byte(t));
}
inline ref::MagmaKey ref_key(const std::array<uint32_t, 8> &k, const ref::Table &t = ref::table_r3412()) {
	return ref::MagmaKey(k.data(), t);
}
inline std::string u128_text(ref::U128 v) { return hexnum(v); }
inline std::pair<ref::U128, ref::U128> kuz_words(int i) {
	if (i == 0) return {{0x0011223344556677ULL, 0x8899aabbccddeeffULL}, {0x0123456789abcdefULL, 0xfedcba9876543210ULL}};
	if (i == 1) return {{0, 0}, {0, 0}};
	if (i == 2) return {{~0ULL, ~0ULL}, {~0ULL, ~0ULL}};
	uint64_t b = uint64_t(i) * 4;
	return {{scramble(b), scramble(b + 1)}, {scramble(b + 2), scramble(b + 3)}};
}
inline KKey kuz_key(const std::pair<ref::U128, ref::U128> &k) { return make_shared<gk::Key>(u128_text(k.first) + u128_text(k.second)); }
inline ref::KuzKey ref_kuz(const std::pair<ref::U128, ref::U128> &k) { return ref::KuzKey(k.first, k.second); }

// Keys of the alphabet (by number) for the four outcomes of the two K1/K2 reductions
inline const std::array<int, 4> &magma_mac_keys() {
	static std::array<int, 4> r = [] {
		std::array<int, 4> a; a.fill(-1);
		for (int i = 10, n = 0; n < 4; i++) {
			auto m = ref_key(key_words(i));
			uint64_t l = m.enc(0), k1 = ref::dbl64(l);
			size_t c = size_t((l >> 63) * 2 + (k1 >> 63));
			if (a[c] < 0) { a[c] = i; n++; }
		}
		return a;
	}();
	return r;
}
inline const std::array<int, 4> &kuz_mac_keys() {
	static std::array<int, 4> r = [] {
		std::array<int, 4> a; a.fill(-1);
		for (int i = 10, n = 0; n < 4; i++) {
			auto m = ref_kuz(kuz_words(i));
			auto l = m.enc({0, 0}), k1 = ref::dbl128(l);
			size_t c = size_t((l.hi >> 63) * 2 + (k1.hi >> 63));
			if (a[c] < 0) { a[c] = i; n++; }
		}
		return a;
	}();
	return r;
}
// Interesting 64-bit values: 0, ~0, halves, one-hot, all below a bit, all but one
inline const std::vector<uint64_t> &words64() {
	static const auto &w = *new std::vector<uint64_t>([] {
		std::vector<uint64_t> v{0, ~0ULL, 0xffffffffULL, 0xffffffff00000000ULL, 0x0123456789abcdefULL, 0xfedcba9876543210ULL};
		for (int i = 0; i < 64; i++) { v.push_back(1ULL << i); v.push_back((1ULL << i) - 1); v.push_back(~(1ULL << i)); }
		return v;
	}());
	return w;
}
inline uint64_t hash(const Bytes &b, uint64_t h = 1) { return mc::hash_bytes(b.data(), b.size(), mc::mix(h, b.size())); }

// Runs f; true if it threw anything
template <class F> inline bool refuses(const F &f) {
	try { f(); } catch (...) { return true; }
	return false;
}
// ------------------------------------------------------------------ the two CFB modes as one
struct Cfb {
	int std;  // 0: GOST 28147-89, 1: GOST R 34.13 on Magma
	uint64_t iv, iv2;
	SinkP sink(const SinkP &below, const AKey &k) const {
		return std ? SinkP(make_shared<gm::CFBSink>(below, k, iv, iv2)) : SinkP(make_shared<g89::CFBSink>(below, k, iv));
	}
	SourceP source(const SourceP &below, const AKey &k) const {
		return std ? SourceP(make_shared<gm::CFBSource>(below, k, iv, iv2)) : SourceP(make_shared<g89::CFBSource>(below, k, iv));
	}
	template <class C> Bytes model(const C &c, const Bytes &in, bool dec) const {
		auto E = [&](uint64_t x) { return c.enc(x); };
		return std ? ref::cfb(E, {iv, iv2}, in, dec) : ref::cfb(E, {iv}, in, dec);
	}
};
}  // namespace env
