// Helpers of the demonstrations: the environment the library talks to.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <array>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <goost/Sink.h>
#include <goost/Source.h>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/Key.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/Container.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/Key.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/SboxTwisted.h>

namespace demo {

typedef std::vector<std::byte> Bytes;

struct Src final : goost::Source {
	Bytes d;
	size_t frag;
	explicit Src(const Bytes &d, size_t frag = ~size_t(0)) : d(d), frag(frag) {}
	std::pair<Bytes, std::shared_ptr<const goost::Source>> read(size_t n) const override
	{
		n = std::min(std::min(n, frag), d.size());
		return {
			Bytes(d.begin(), d.begin() + n),
			std::make_shared<Src>(Bytes(d.begin() + n, d.end()), frag)
		};
	}
};

struct Acc final : goost::Sink {
	Bytes d;
	explicit Acc(const Bytes &d = {}) : d(d) {}
	std::shared_ptr<const goost::Sink> write(const Bytes &x) const override
	{
		auto n = d;
		n.insert(n.end(), x.begin(), x.end());
		return std::make_shared<Acc>(n);
	}
	std::shared_ptr<const goost::Sink> finalize() const override
	{
		return std::make_shared<Acc>(d);
	}
};

inline Bytes bytes(size_t n, unsigned seed = 1)
{
	Bytes r;
	for (size_t i = 0; i < n; i++) {
		r.push_back(std::byte((i * 37 + seed * 101 + (i >> 3) * 11) & 0xff));
	}
	return r;
}

inline Bytes data(const std::shared_ptr<const goost::Sink> &s)
{
	return dynamic_cast<const Acc &>(*s).d;
}

// Writes with chunks of the given sizes, the rest at once, and finalizes
inline Bytes put(std::shared_ptr<const goost::Sink> s, const Bytes &d, const std::vector<size_t> &chunks)
{
	size_t at = 0;
	for (auto c : chunks) {
		c = std::min(c, d.size() - at);
		s = s->write(Bytes(d.begin() + at, d.begin() + at + c));
		at += c;
	}
	s = s->write(Bytes(d.begin() + at, d.end()));
	return data(s->finalize());
}

// Reads pieces of the given sizes, and then in one large piece
inline Bytes get(std::shared_ptr<const goost::Source> s, const std::vector<size_t> &sizes, size_t rest = 4096)
{
	Bytes r;
	for (auto n : sizes) {
		auto p = s->read(n);
		r.insert(r.end(), p.first.begin(), p.first.end());
		s = p.second;
	}
	while (true) {
		auto p = s->read(rest);
		if (p.first.empty()) {
			return r;
		}
		r.insert(r.end(), p.first.begin(), p.first.end());
		s = p.second;
	}
}

inline const char *KEY()
{
	return "ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff";
}

inline const char *KUZKEY()
{
	return "8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef";
}

inline std::shared_ptr<const goost::magma::LazyKey> key(const char *k = KEY())
{
	return std::make_shared<goost::magma::LazyKey>(std::string(k));
}

// A plain transcription of GOST R 34.12-2015 Magma
struct Magma {
	std::array<uint32_t, 8> k;
	static uint32_t f(uint32_t v)
	{
		static const char *const pi[8] = {
			"c462a5b9e8d703f1", "68239a5c1e47bd0f", "b3582fade174c960", "c821d4f670a53e9b",
			"7f5a816d093eb42c", "5df692cab78143e0", "8e25691cf4b0da37", "17ed05834fa69cb2"
		};
		uint32_t r = 0;
		for (int i = 0; i < 8; i++) {
			const char c = pi[i][(v >> (4 * i)) & 15];
			r |= uint32_t(c <= '9' ? c - '0' : c - 'a' + 10) << (4 * i);
		}
		return (r << 11) | (r >> 21);
	}
	uint64_t encrypt(uint64_t b) const
	{
		uint32_t hi = b >> 32, lo = b;
		for (int i = 0; i < 32; i++) {
			const uint32_t t = hi ^ f(lo + k[i < 24 ? i % 8 : 7 - i % 8]);
			hi = lo;
			lo = t;
		}
		return (uint64_t(lo) << 32) | hi;
	}
};

inline Magma magmaRef(const std::string &s = KEY())
{
	Magma m;
	for (int i = 0; i < 8; i++) {
		m.k[i] = std::stoul(s.substr(i * 8, 8), nullptr, 16);
	}
	return m;
}

}  // namespace demo

#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\n", #c); exit(1); } } while (0)
using namespace std;
using namespace demo;
