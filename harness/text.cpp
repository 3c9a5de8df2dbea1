// C19: key text, native keys, containers, tables, indices, block text.
#include "env.h"
#include <cerrno>
#include <climits>
#include <locale>
using namespace env;
using ref::U128;
const char *const mc::property = "C19";

namespace {
int digit(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
std::string show(const std::string &s) {
	std::string o = "\"";
	for (char c : s) { char b[8]; if (c >= 32 && c < 127) snprintf(b, sizeof b, "%c", c); else snprintf(b, sizeof b, "\\x%02x", uint8_t(c)); o += b; }
	return o + "\"";
}
const std::string base64d = "ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff";
const uint64_t probe = 0xfedcba9876543210ULL;
const U128 probe128{0xffeeddccbbaa9988ULL, 0x1122334455667700ULL};

bool valid(const std::string &s, size_t n) {
	if (s.size() != n) return false;
	for (char c : s) if (digit(uint8_t(c)) < 0) return false;
	return true;
}
// The text goes through every class that takes one
void key_text_case(mc::Run &r, const std::string &s) {
	r.begin("key text %s (%zu characters)", show(s).substr(0, 150).c_str(), s.size());
	errno = ERANGE;     // left behind by whatever the program did before
	bool ok = valid(s, 64);
	std::array<uint32_t, 8> w{};
	U128 kh{0, 0}, kl{0, 0};
	if (ok) {
		for (size_t i = 0; i < 64; i++) w[i / 8] = w[i / 8] << 4 | uint32_t(digit(s[i]));
		for (size_t i = 0; i < 64; i++) { U128 &t = i < 32 ? kh : kl; t = ref::shl(t, 4); t.lo |= uint64_t(digit(s[i])); }
	}
	auto expect = [&](const char *what, bool threw, bool same) {
		r.step();
		if (ok && threw) r.fail("%s: key text %s was refused", what, show(s).c_str());
		if (ok && !same) r.fail("%s: key text %s was decoded wrongly", what, show(s).c_str());
		if (!ok && !threw) r.fail("%s: malformed key text %s (%zu characters) was accepted", what, show(s).substr(0, 80).c_str(), s.size());
	};
	bool same = true;
	auto m = ref_key(w);
	// all words of one object; a single use is a use of all of it
	expect("magma::KeyDataString", refuses([&] { gm::KeyDataString d(s); for (int i = 0; i < 8; i++) same &= d.key(i) == w[size_t(i)]; }), same);
	same = true;
	expect("magma::LazyKey(text)", refuses([&] { LKey k = make_shared<gm::LazyKey>(s); same = gm::EncryptionBase(k).transform(probe) == m.enc(probe); }), same);
	same = true;
	expect("magma::LazyKey(text, table)", refuses([&] {
		LKey k = make_shared<gm::LazyKey>(s, sbox_byte(table(1)));
		same = num(gm::BlkEncrypted(make_shared<gm::BlkRaw>(probe), k).value()) == ref_key(w, table(1)).enc(probe);
	}), same);
	auto km = ref::KuzKey(kh, kl);
	same = true;
	expect("kuznyechik::Key(text)", refuses([&] { gk::Key k(s); same = ref::u128(k.encrypt(make_shared<gk::BlkRaw>(probe128.lo, probe128.hi))->value()) == km.enc(probe128); }), same);
	same = true;
	expect("kuznyechik::KeyDataString", refuses([&] {
		gk::KeyDataString d(s);
		U128 h = ref::u128(d.high()->value()), l = ref::u128(d.low()->value());
		same = h == kh && l == kl;
	}), same);
	r.trace();
	r.state(mc::hash_bytes(s.data(), s.size(), s.size()));
}
void position(mc::Run &r, size_t p) {
	for (int c = 0; c < 256; c++) {
		std::string s = base64d;
		s[p] = char(c);
		key_text_case(r, s);
		if (r.thorough()) {
			s.assign(64, '0');
			s[p] = char(c);
			key_text_case(r, s);
		}
	}
	r.sample("position %zu takes all 256 characters", p);
}
struct Grouped {
	struct Punct final : std::numpunct<char> {
		char do_thousands_sep() const override { return ','; }
		std::string do_grouping() const override { return "\3"; }
		char do_decimal_point() const override { return '.'; }
	};
	const std::locale before;
	Grouped() : before(std::locale::global(std::locale(std::locale::classic(), new Punct))) {}
	~Grouped() { std::locale::global(before); }
};
// Signs, prefixes, blanks and the like at two adjacent places (parsers skip or accept them)
void pairs(mc::Run &r, int part, int parts) {
	static const char *const bits[] = {"0x", "0X", "+1", "-1", " 1", "1 ", "\t1", "\n1", "1\n", "--", "  ", "x0", "1.", "1e", "1h", "0b", "1,", "1'", "\0001", "\0000", "_1", "#1", "1L", "1u"};
	for (size_t p = size_t(part); p + 1 < 64; p += size_t(parts))
		for (auto b : bits) {
			for (const std::string &base : {base64d, std::string(64, '0')}) {
				std::string s = base;
				s[p] = b[0]; s[p + 1] = b[1];
				key_text_case(r, s);
			}
		}
	// a whole word replaced, as in a parser that works word by word
	static const char *const wordsx[] = {"        ", "0x123456", "+1234567", "-1234567", "-0000001", " 1234567", "1234567 ", "gggggggg", "\t\t\t\t\t\t\t1", "0X000000", "1       ", "00000x00"};
	for (size_t w = size_t(part); w < 8; w += size_t(parts))
		for (auto b : wordsx) {
			std::string s = base64d;
			s.replace(w * 8, 8, b, 8);
			key_text_case(r, s);
		}
	for (size_t w = size_t(part); w < 4; w += size_t(parts))
		for (const char *b : {"-000000000000001", "0x12345678901234", " 12345678901234 ", "                ", "+000000000000001"}) {
			std::string s = base64d;
			s.replace(w * 16, 16, b, 16);
			key_text_case(r, s);
		}
}
void lengths(mc::Run &r) {
	for (size_t n = 0; n <= (r.thorough() ? 600u : 200u); n++) {
		std::string s;
		while (s.size() < n) s += base64d;
		s.resize(n);
		key_text_case(r, s);
		key_text_case(r, std::string(n, '0'));
		key_text_case(r, std::string(n, 'F'));
		key_text_case(r, std::string(n, '\0'));
	}
	// 64 characters that are padded, with a prefix, or cut by a zero byte
	for (const std::string &s : {"0x" + base64d, base64d + "\n", " " + base64d, base64d + " ", base64d + std::string(1, '\0'), std::string("\0", 1) + base64d,
		"0x" + base64d.substr(0, 62), base64d.substr(0, 63) + "\n", " " + base64d.substr(0, 63), base64d.substr(0, 32) + std::string(32, '\0'), "\xef\xbb\xbf" + base64d, base64d + "h"})
		key_text_case(r, s);
	key_text_case(r, std::string(128, 'a'));
	// sizes that are proper ones in fewer bits
	for (int e = 7; e <= (r.thorough() ? 26 : 18); e++)
		for (size_t d : {0, 1, 63, 64, 65}) key_text_case(r, std::string((size_t(1) << e) + d, 'a'));
}
// Every digit at every position, in either case; letters of mixed case
void digits(mc::Run &r, int part, int parts) {
	for (size_t p = size_t(part); p < 64; p += size_t(parts))
		for (char c : std::string("0123456789abcdefABCDEF"))
			for (char fill : std::string("0fA5")) {
				std::string s(64, fill);
				s[p] = c;
				key_text_case(r, s);
			}
	for (unsigned m = unsigned(part); m < 256; m += unsigned(parts)) {
		std::string s = "abcdefabcdefabcdefabcdefabcdefabcdefabcdefabcdefabcdefabcdefabcd";
		for (size_t i = 0; i < 64; i++) if (m >> (i % 8) & 1) s[i] = char(s[i] - 32);
		key_text_case(r, s);
	}
}
// Keys whose text differs in one digit from that of keys that are alive and have been used
void alive(mc::Run &r, int part, int parts) {
	std::string b = base64d;
	auto k = make_shared<gm::LazyKey>(b), kt = make_shared<gm::LazyKey>(b, sbox_byte(table(1)));
	auto q = make_shared<gk::Key>(b);
	gm::KeyDataString d(b);
	gk::KeyDataString e(b);
	auto x = make_shared<gk::BlkRaw>(probe128.lo, probe128.hi);
	auto look = [&](const std::string &after) {
		auto m = ref_key(key_words(0));
		bool ok = gm::EncryptionBase(k).transform(probe) == m.enc(probe) && gm::EncryptionBase(kt).transform(probe) == ref_key(key_words(0), table(1)).enc(probe);
		ok &= d.key(7) == 0xfcfdfeff && ref::u128(e.low()->value()).lo == 0xf8f9fafbfcfdfeffULL;
		ok &= ref::u128(q->encrypt(x)->value()) == ref::KuzKey({0x7766554433221100ULL, 0xffeeddccbbaa9988ULL}, {0xf8f9fafbfcfdfeffULL, 0xf0f1f2f3f4f5f6f7ULL}).enc(probe128);
		if (!ok) r.fail("a key changed when one with the text %s was made", after.c_str());
	};
	look("(none)");
	for (size_t p = size_t(part); p < 64; p += size_t(parts)) {
		for (char c : std::string("05aFg")) {
			std::string s = b;
			s[p] = c;
			key_text_case(r, s);
		}
		look(b.substr(0, p) + "*" + b.substr(p + 1));
		r.trace();
	}
	for (const std::string &s : {b + "0", b.substr(0, 63), "0" + b, b + " ", std::string(64, '0')}) { key_text_case(r, s); look(s); }
}
template <class F> void must_refuse(mc::Run &r, const char *what, const F &f) {
	r.begin("%s", what);
	r.step(); r.trace();
	if (!refuses(f)) r.fail("%s was accepted", what);
}
void native(mc::Run &r) {
	char b[160];
	std::vector<size_t> ns;
	for (size_t n = 0; n <= 600; n++) ns.push_back(n);
	for (int e = 10; e <= (r.thorough() ? 26 : 18); e++) for (size_t d : {0, 1, 7, 8, 9}) ns.push_back((size_t(1) << e) + d);
	for (size_t n : ns) {
		std::vector<uint32_t> w(n, 0x12345678);
		snprintf(b, sizeof b, "a native key of %zu words", n);
		r.state(n);
		if (n != 8) {
			must_refuse(r, b, [&] { LKey k = make_shared<gm::LazyKey>(w, sbox_byte(table(1))); gm::EncryptionBase(k).transform(probe); });
			must_refuse(r, b, [&] { gm::KeyDataNative d(w); for (int i = 0; i < 8; i++) d.key(i); });
			must_refuse(r, b, [&] { gm::KeyCachedData d(make_unique<gm::KeyDataNative>(w)); for (int i = 0; i < 8; i++) d.key(i); });
		} else for (auto v : words64()) {
			auto x = w;
			for (size_t i = 0; i < 8; i++) x[i] = uint32_t(v >> (i % 2 * 32)) + uint32_t(i);
			gm::KeyDataNative d(x);
			for (int i = 0; i < 8; i++) if (d.key(i) != x[size_t(i)]) r.fail("native key word %d is %08x, not %08x", i, d.key(i), x[size_t(i)]);
			r.step(8); r.trace();
		}
	}
	std::vector<int> indices{-1, -2, -7, -8, -9, 8, 9, 10, 15, 16, 31, 32, 64, 255, 256, 65536, 65544, INT_MAX, INT_MIN, INT_MIN + 1, INT_MAX - 7, 1 << 29, 1 << 30, -(1 << 29), 0x20000000 + 3, -0x20000000 + 3};
	for (int k = 3; k < 31; k++) { indices.push_back((1 << k) + 5); indices.push_back(-(1 << k) + 5); }
	for (int i : indices) {
		if (i >= 0 && i < 8) continue;
		std::vector<uint32_t> w(8, 7);
		std::string t = base64d;
		snprintf(b, sizeof b, "subkey index %d", i);
		must_refuse(r, b, [&] { gm::KeyDataNative(w).key(i); });
		must_refuse(r, b, [&] { gm::KeyDataString(t).key(i); });
		must_refuse(r, b, [&] { gm::KeyCachedData(make_unique<gm::KeyDataNative>(w)).key(i); });
		must_refuse(r, b, [&] { gm::KeyCachedData(make_unique<gm::KeyDataString>(t)).key(i); });
		must_refuse(r, b, [&] { gm::KeyCachedData c(make_unique<gm::KeyDataString>(t)); c.key(0); c.key(i); });
		must_refuse(r, b, [&] { key_native(key_words(0), table(1))->transform(1, i); });
		must_refuse(r, b, [&] { key_string(key_words(0))->transform(1, i); });
		must_refuse(r, b, [&] { key_string(key_words(0), table(1))->transform(1, i); });
	}
}
void containers(mc::Run &r, int part, int parts) {
	char b[160];
	Bytes c = message(16, 1);
	for (size_t k = size_t(part); k <= (r.thorough() ? 140u : 70u); k += size_t(parts))
		for (size_t s = 0; s <= (r.thorough() ? 260u : 140u); s++) {
			if (!r.thorough() && k != 32 && s != 64 && (k + s) % 7) continue;
			auto make = [&] {
				auto src = make_shared<gm::ECBSource>(make_shared<MemSource>(c), make_shared<StubContainer>(message(k, 1), s == 64 ? ref::pack(table(1)) : message(s, 1)));
				return bytes(src->read(8).first);
			};
			r.state(k * 1000 + s);
			snprintf(b, sizeof b, "a container with a key of %zu bytes and a table of %zu bytes", k, s);
			if (k != 32 || s != 64) must_refuse(r, b, make);
			else {
				Bytes kb = message(32, 1);
				std::array<uint32_t, 8> w;
				for (size_t i = 0; i < 8; i++) w[i] = uint32_t(kb[i * 4]) << 24 | uint32_t(kb[i * 4 + 1]) << 16 | uint32_t(kb[i * 4 + 2]) << 8 | kb[i * 4 + 3];
				r.begin("%s", b);
				Bytes want(8);
				ref::store64(&want[0], ref_key(w, table(1)).dec(ref::load64(&c[0])));
				if (make() != want) r.fail("a proper container decrypts to %s, expected %s", hex(make()).c_str(), hex(want).c_str());
				r.trace();
			}
		}
	if (part == 0)      // sizes that are proper ones in fewer bits
		for (int e = 8; e <= (r.thorough() ? 22 : 17); e++)
			for (int which = 0; which < 3; which++) {
				size_t k = (which & 1 ? 0 : size_t(1) << e) + 32, s = (which < 1 ? 0 : size_t(1) << e) + 64;
				snprintf(b, sizeof b, "a container with a key of %zu bytes and a table of %zu bytes", k, s);
				must_refuse(r, b, [&] {
					Bytes t = ref::pack(table(1));
					t.resize(s);
					make_shared<gm::ECBSource>(make_shared<MemSource>(c), make_shared<StubContainer>(message(k, 1), t))->read(8);
				});
			}
	for (size_t p = size_t(part); p < 32; p += size_t(parts))     // every byte of the container's key counts, at its place
		for (int v = 0; v < 256; v++) {
			Bytes kb = message(32, 1);
			kb[p] = uint8_t(v);
			std::array<uint32_t, 8> w;
			for (size_t i = 0; i < 8; i++) w[i] = uint32_t(kb[i * 4]) << 24 | uint32_t(kb[i * 4 + 1]) << 16 | uint32_t(kb[i * 4 + 2]) << 8 | kb[i * 4 + 3];
			Bytes want(8);
			ref::store64(&want[0], ref_key(w, table(1)).dec(ref::load64(&c[0])));
			r.begin("container key byte %zu is %02x", p, v);
			auto src = make_shared<gm::ECBSource>(make_shared<MemSource>(c), make_shared<StubContainer>(kb, ref::pack(table(1))));
			if (bytes(src->read(8).first) != want) r.fail("container key byte %zu = %02x is not decoded properly", p, v);
			r.step(); r.trace();
		}
}
void tables(mc::Run &r) {
	char b[160];
	for (size_t n = 0; n < 64; n++) {
		snprintf(b, sizeof b, "a packed table of %zu bytes", n);
		r.state(n);
		must_refuse(r, b, [&] { gm::SboxByte s(message(n, 1)); for (uint32_t v = 0; v < 256; v++) s.transform(v * 0x01010101u); });
		must_refuse(r, b, [&] {
			LKey k = make_shared<gm::LazyKey>(base64d, make_shared<gm::SboxTwisted>(make_unique<gm::SboxByte>(message(n, 1))));
			for (uint32_t v = 0; v < 256; v++) k->transform(v * 0x01010101u, 0);
		});
	}
	for (size_t row_ = 0; row_ < 8; row_++)
		for (size_t n = 0; n < 16; n++) {
			snprintf(b, sizeof b, "a table whose row %zu has %zu entries", row_, n);
			must_refuse(r, b, [&] {
				std::vector<int> q[8];
				for (size_t i = 0; i < 8; i++) { q[i] = row(table(1), int(i)); if (i == row_) { q[i].resize(n); q[i].shrink_to_fit(); } }
				gm::SboxNibble s(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]);
				for (uint32_t v = 0; v < 16; v++) s.transform(v * 0x11111111u);
			});
			// entries that are there may be used, the others never deliver a value
			for (uint32_t v = uint32_t(n); v < 16; v++)
				must_refuse(r, b, [&] {
					std::vector<int> q[8];
					for (size_t i = 0; i < 8; i++) { q[i] = row(table(1), int(i)); if (i == row_) { q[i].resize(n); q[i].shrink_to_fit(); } }
					gm::SboxNibble s(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]);
					s.transform(v << (4 * row_));
				});
		}
}
void block_text(mc::Run &r, const std::string &s) {
	errno = ERANGE;
	r.begin("block text %s (%zu characters)", show(s).substr(0, 150).c_str(), s.size());
	bool hexok = true;
	for (char c : s) hexok &= digit(uint8_t(c)) >= 0;
	U128 v{0, 0};
	if (hexok) for (char c : s) { v = ref::shl(v, 4); v.lo |= uint64_t(digit(uint8_t(c))); }
	for (int m = 0; m < 2; m++) {
		bool ok = hexok && s.size() <= (m ? 16u : 32u), same = true;
		bool threw = refuses([&] {
			if (m) same = num(gm::BlkString(s).value()) == v.lo;
			else same = ref::u128(gk::BlkString(s).value()) == v;
		});
		const char *what = m ? "magma::BlkString" : "kuznyechik::BlkString";
		if (ok && threw) r.fail("%s refuses %s", what, show(s).c_str());
		if (ok && !same) r.fail("%s decodes %s wrongly", what, show(s).c_str());
		if (!ok && !threw) r.fail("%s accepts %s (%zu characters)", what, show(s).substr(0, 150).c_str(), s.size());
		r.step();
	}
	r.trace();
	r.state(mc::hash_bytes(s.data(), s.size(), 1));
}
void block_texts(mc::Run &r, size_t n) {
	std::string d = "123456789abcdefFEDCBA9876543210ffeeddccbbaa998877665544332211000";
	d = d.substr(0, n);
	block_text(r, d);
	block_text(r, std::string(n, '0'));
	block_text(r, std::string(n, 'f'));
	block_text(r, std::string(n, '\0'));
	for (size_t p = 0; p < n; p++) {
		for (int c = 0; c < 256; c++) { std::string s = d; s[p] = char(c); block_text(r, s); s.assign(n, '0'); s[p] = char(c); block_text(r, s); }
		for (const char *b : {"0x", "0X", "+1", "-1", " 1", "1 ", "\t1", "1\n", "--"}) if (p + 1 < n) { std::string s = d; s[p] = b[0]; s[p + 1] = b[1]; block_text(r, s); s.assign(n, '0'); s[p] = b[0]; s[p + 1] = b[1]; block_text(r, s); }
	}
}
// Block text longer than any block, up to sizes that are proper ones in fewer bits
void long_block_texts(mc::Run &r) {
	for (size_t n = 65; n <= (r.thorough() ? 1100u : 600u); n++) { block_text(r, std::string(n, '0')); block_text(r, std::string(n - 1, '0') + "1"); }
	for (int e = 10; e <= (r.thorough() ? 26 : 18); e++)
		for (size_t d : {0, 1, 15, 16, 17, 31, 32, 33}) block_text(r, std::string((size_t(1) << e) + d, '0'));
}
void tiny_block_texts(mc::Run &r) {
	const std::string a = std::string("0fA x-+\0\n", 9);
	for (size_t n = 0; n <= (r.thorough() ? 6u : 4u); n++) {
		size_t total = 1;
		for (size_t i = 0; i < n; i++) total *= a.size();
		for (size_t x = 0; x < total; x++) { std::string s; size_t y = x; for (size_t i = 0; i < n; i++) { s += a[y % a.size()]; y /= a.size(); } block_text(r, s); }
	}
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	for (size_t p = 0; p < 64; p++) out.push_back({"position-" + std::to_string(p), [p](Run &r) { position(r, p); }, 4});
	for (int i = 0; i < 8; i++) out.push_back({"pairs-" + std::to_string(i), [i](Run &r) { pairs(r, i, 8); }, 4});
	for (int i = 0; i < 8; i++) out.push_back({"digits-" + std::to_string(i), [i](Run &r) { digits(r, i, 8); }, 5});
	for (int i = 0; i < 8; i++) out.push_back({"alive-" + std::to_string(i), [i](Run &r) { alive(r, i, 8); }, 5});
	for (int i = 0; i < 8; i++) out.push_back({"containers-" + std::to_string(i), [i](Run &r) { containers(r, i, 8); }, 3});
	out.push_back({"lengths", lengths, 5});
	out.push_back({"native", native, 2});
	out.push_back({"tables", tables, 2});
	// the program's numbers are written with separators
	for (size_t p : {0, 31, 63}) out.push_back({"locale-position-" + std::to_string(p), [p](Run &r) { Grouped g; position(r, p); }, 3});
	out.push_back({"locale-lengths", [](Run &r) { Grouped g; lengths(r); }, 5});
	out.push_back({"locale-digits", [](Run &r) { Grouped g; digits(r, 3, 8); }, 5});
	for (size_t n : {7, 8, 16, 25, 32}) out.push_back({"locale-block-text-" + std::to_string(n), [n](Run &r) { Grouped g; block_texts(r, n); }, 2});
	for (size_t n = 0; n <= 64; n++) out.push_back({"block-text-" + std::to_string(n), [n](Run &r) { block_texts(r, n); }, 2});
	out.push_back({"long-block-texts", long_block_texts, 2});
	out.push_back({"tiny-block-texts", tiny_block_texts, 2});
}
