SEEDS = []
def seed(**k):
    SEEDS.append(k)

seed(id='memo-by-address', property='C15',
 needs='a key destroyed and another one constructed at the same address, then the same block again',
 breaks='EncryptionBase remembers the last block it enciphered by the address of the key: an unrelated key that reuses the address yields the old key\'s result',
 edits=[('magma/EncryptionBase.cpp', '	uint32_t a = block & 0xffffffff;\n', '''	// Repeated blocks are frequent in ECB mode
	static thread_local const Key *last_key = nullptr;
	static thread_local uint64_t last_block = 0;
	static thread_local uint64_t last_result = 0;
	if (last_key == key.get() && last_block == block) {
		return last_result;
	}

	uint32_t a = block & 0xffffffff;
'''), ('magma/EncryptionBase.cpp', '	return (uint64_t(a) << 32) | b;\n', '''	last_key = key.get();
	last_block = block;
	last_result = (uint64_t(a) << 32) | b;
	return last_result;
''')],
 demo='''	using goost::magma::EncryptionBase;
	const char *keys[] = {
		KEY(),
		"0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef",
		"00000000000000000000000000000000000000000000000000000000000000ff"
	};
	for (int round = 0; round < 50; round++) {
		for (auto k : keys) {
			CHECK(EncryptionBase(key(k)).transform(0x1234) == magmaRef(k).encrypt(0x1234));
		}
	}
''')

seed(id='pi-swapped', property='C03',
 needs='a byte 193 or 199 at the input of the substitution: the stable test never produces one',
 breaks='two entries of the Kuznyechik substitution are exchanged',
 edits=[('kuznyechik/BlkS.cpp', '149, 59, 7, 88, 179, 64, 134, 172, 29,\n\t\t247, 48,', '149, 59, 7, 247, 179, 64, 134, 172, 29,\n\t\t88, 48,')],
 demo='''	using namespace goost::kuznyechik;
	const auto block = [](uint64_t b) { return make_shared<BlkRaw>(b, b); };
	array<bool, 256> seen = {};
	for (uint64_t b = 0; b < 256; b++) {
		seen[BlkS(block(b)).value().first & 0xff] = true;
	}
	for (auto s : seen) {
		CHECK(s);
	}
	CHECK((BlkS(block(193)).value().first & 0xff) == 88);
	CHECK((BlkS(block(199)).value().first & 0xff) == 247);
''')

seed(id='ctr-size', property='C13',
 needs='a stream whose last block is incomplete (an odd number of words)',
 breaks='the enciphered stream pretends that its last block is complete, so its size is not that of the plain stream',
 edits=[('kuznyechik/StCTREncrypted.cpp', '	return iter->size();', '	return iter->last() ? min(Block::size, (iter->size() + 15) / 16 * 16) : Block::size;'),
        ('kuznyechik/StCTREncrypted.cpp', '#include "StCTREncrypted.h"\n', '#include "StCTREncrypted.h"\n#include <algorithm>\n')],
 demo='''	using namespace goost::kuznyechik;
	const auto k = make_shared<Key>(string(KUZKEY()));
	for (size_t n = 1; n < 6; n++) {
		const auto plain = make_shared<StMemory>(vector<uint64_t>(n, 7));
		auto p = plain->iter();
		auto c = make_shared<StCTREncrypted>(plain, k, 5)->iter();
		while (true) {
			CHECK(p->size() == c->size());
			CHECK(p->last() == c->last());
			if (p->last()) {
				break;
			}
			p = p->next();
			c = c->next();
		}
	}
''')

seed(id='shift-carry', property='C20',
 needs='a shift by more than one bit of a block with high bits in its low word',
 breaks='only one bit is carried from the low word to the high word of a 128-bit block',
 edits=[('kuznyechik/BlkShifted.cpp', 'value.second << n | value.first >> (64 - n)', 'value.second << n | value.first >> 63')],
 demo='''	using namespace goost::kuznyechik;
	const auto b = make_shared<BlkRaw>(0xf123456789abcdefULL, 0x5);
	for (int n = 1; n < 64; n++) {
		const auto v = BlkShifted(b, n).value();
		const auto w = (((unsigned __int128)5) << 64 | 0xf123456789abcdefULL) << n;
		CHECK(v.first == uint64_t(w) && v.second == uint64_t(w >> 64));
	}
''')

seed(id='inc-carry', property='C20',
 needs='a counter whose low word is all ones: not reached from an initial value within 2^64 blocks, only by the class itself',
 breaks='incrementing a 128-bit block sets the low bit of the high word where it should add to it',
 edits=[('kuznyechik/BlkIncremented.cpp', 'return {0, value.second + 1};', 'return {0, value.second | 1};')],
 demo='''	using namespace goost::kuznyechik;
	for (uint64_t h = 0; h < 5; h++) {
		const auto v = BlkIncremented(make_shared<BlkRaw>(~0ULL, h)).value();
		CHECK(v.first == 0 && v.second == h + 1);
	}
''')

seed(id='magma-mac-k2', property='C10',
 needs='a message with an incomplete last block under a key whose K1 has its high bit set',
 breaks='the second subkey of the Magma MAC is shifted without reduction',
 edits=[('magma/Imit.cpp', '	return BlkImitShifted(K1).value();', '	return BlkShifted(K1, 1).value();')],
 demo='''	using namespace goost::magma;
	for (int i = 0; i < 16; i++) {
		string ks = KEY();
		ks[0] = "0123456789abcdef"[i];
		const auto r = magmaRef(ks);
		const auto dbl = [](uint64_t x) { return (x << 1) ^ (x >> 63 ? 0x1b : 0); };
		const auto k2 = dbl(dbl(r.encrypt(0)));
		const auto v = Imit(make_shared<Src>(Bytes{byte(0x11), byte(0x22)}), key(ks.c_str())).value();
		const auto e = r.encrypt(k2 ^ 0x802211);
		CHECK(v.first == uint32_t(e) && v.second == uint32_t(e >> 32));
	}
''')

seed(id='kuz-mac-k1', property='C11',
 needs='a key under which the enciphered zero block has a clear high bit',
 breaks='the first subkey of the Kuznyechik MAC is always reduced',
 edits=[('kuznyechik/Imit.cpp', 'if ((a_value.second & 0x8000000000000000) == 0) {', 'if ((a_value.second & 0xf000000000000000) == 0) {')],
 demo='''	using namespace goost::kuznyechik;
	for (int i = 0; i < 16; i++) {
		string ks = KUZKEY();
		ks[0] = "0123456789abcdef"[i];
		const auto k = make_shared<Key>(ks);
		const auto dbl = [](pair<uint64_t, uint64_t> x) {
			return pair<uint64_t, uint64_t>(
				(x.first << 1) ^ (x.second >> 63 ? 0x87 : 0), (x.second << 1) | (x.first >> 63)
			);
		};
		const auto k1 = dbl(k->encrypt(make_shared<BlkRaw>())->value());
		const auto k2 = dbl(k1);
		const auto v = Imit(make_shared<StMemory>(vector<uint64_t>{1, 2}), k).value();
		CHECK(v == k->encrypt(make_shared<BlkRaw>(k1.first ^ 1, k1.second ^ 2))->value());
		const auto w = Imit(make_shared<StMemory>(vector<uint64_t>{1}), k).value();
		CHECK(w == k->encrypt(make_shared<BlkRaw>(k2.first ^ 1, k2.second ^ 0x80))->value());
	}
''')

seed(id='imit-pad', property='C12',
 needs='a message of at most eight bytes',
 breaks='a message that fits one block is not completed to the two blocks that the standard requires',
 edits=[('gost89/DataImit.cpp', '	while (pdata.size() < 16) {', '	while (pdata.size() < 8) {')],
 demo='''	using namespace goost::gost89;
	const auto k = key();
	for (size_t n = 0; n <= 16; n++) {
		vector<uint8_t> d;
		for (size_t i = 0; i < n; i++) {
			d.push_back(i * 29 + 1);
		}
		auto z = d;
		z.resize(16);
		CHECK(DataImit(d, k).value() == DataImit(z, k).value());
	}
''')

seed(id='imit-overread', property='C23',
 needs='a message longer than two blocks and not a multiple of eight bytes',
 breaks='the last incomplete block of the message is read past the end of the buffer',
 also=['C12'], flags='-fsanitize=address',
 edits=[('gost89/DataImit.cpp', '''	while (pdata.size() % 8 != 0) {
		pdata.push_back(0);
	}
	auto pi = pdata.begin();
	while (pi != pdata.end()) {''', '''	auto pi = pdata.begin();
	while (pi < pdata.end()) {''')],
 demo='''	using namespace goost::gost89;
	const auto k = key();
	for (size_t n = 0; n <= 40; n++) {
		vector<uint8_t> d(n, 5);
		auto z = d;
		z.resize(n < 16 ? 16 : (n + 7) / 8 * 8);
		CHECK(DataImit(d, k).value() == DataImit(z, k).value());
	}
''')

seed(id='cfb-short-write', property='C07',
 needs='a block completed by a write of less than eight bytes, and more data after it',
 breaks='the feedback of a block completed by a short write is forgotten',
 also=['C05'],
 edits=[('gost89/CFBSink.cpp', '	return make_shared<CFBSink>(s, key, l, p);', '''	if (data.size() < Block::size) {
		// Less than a block, the gamma is the same
		return make_shared<CFBSink>(s, key, iv, p);
	}
	return make_shared<CFBSink>(s, key, l, p);''')],
 demo='''	using namespace goost::gost89;
	const auto d = bytes(40);
	const auto whole = put(make_shared<CFBSink>(make_shared<Acc>(), key(), 77), d, {});
	CHECK(put(make_shared<CFBSink>(make_shared<Acc>(), key(), 77), d, {8, 8, 16}) == whole);
	CHECK(put(make_shared<CFBSink>(make_shared<Acc>(), key(), 77), d, {5, 3, 16}) == whole);
	CHECK(put(make_shared<CFBSink>(make_shared<Acc>(), key(), 77), d, {1, 1, 1, 1, 1, 1, 1, 1, 1}) == whole);
''')

seed(id='cfb-tail-iv', property='C06',
 needs='a tail shorter than a block and a synchronisation value of two different blocks',
 breaks='the incomplete last block is enciphered with the wrong half of the register',
 also=['C07'],
 edits=[('magma/CFBSink.cpp', '''	if (!plain.empty()) {
		const auto e = BlkEncrypted(
			make_shared<BlkRaw>(ivl),''', '''	if (!plain.empty()) {
		const auto e = BlkEncrypted(
			make_shared<BlkRaw>(ivr),''')],
 demo='''	using namespace goost::magma;
	for (size_t n = 0; n < 36; n++) {
		const auto d = bytes(n);
		const auto c = put(make_shared<CFBSink>(make_shared<Acc>(), key(), 77, 1234567), d, {});
		CHECK(get(make_shared<CFBSource>(make_shared<Src>(c), key(), 77, 1234567), {}) == d);
	}
''')

seed(id='cfb-tail-one', property='C05',
 needs='data whose length leaves a tail of exactly one byte',
 breaks='a tail of one byte is dropped by finalize',
 also=['C07'],
 edits=[('gost89/CFBSink.cpp', '	if (!plain.empty()) {', '	if (plain.size() > 1) {')],
 demo='''	using namespace goost::gost89;
	for (size_t n = 0; n < 36; n++) {
		const auto d = bytes(n);
		const auto c = put(make_shared<CFBSink>(make_shared<Acc>(), key(), 77), d, {});
		CHECK(get(make_shared<CFBSource>(make_shared<Src>(c), key(), 77), {}) == d);
	}
''')

seed(id='cfb-read-aligned', property='C08',
 needs='a read that is not a multiple of the block followed by one that is',
 breaks='decrypted bytes that are still to be returned are dropped after a read of whole blocks',
 edits=[('gost89/CFBSource.cpp', '	return {res, make_shared<CFBSource>(s, key, r, p)};', '''	if (size % Block::size == 0) {
		// Nothing remains of whole blocks
		return {res, make_shared<CFBSource>(s, key, r)};
	}
	return {res, make_shared<CFBSource>(s, key, r, p)};''')],
 demo='''	using namespace goost::gost89;
	const auto d = bytes(40);
	const auto whole = get(make_shared<CFBSource>(make_shared<Src>(d), key(), 77), {});
	CHECK(whole.size() == 40);
	CHECK(get(make_shared<CFBSource>(make_shared<Src>(d), key(), 77), {3, 5, 3}) == whole);
	CHECK(get(make_shared<CFBSource>(make_shared<Src>(d), key(), 77), {3, 8, 2}, 7) == whole);
''')

seed(id='ecb-tail-lost', property='C09',
 needs='a write of some whole blocks with an incomplete one after them',
 breaks='the bytes after the last whole block are silently dropped and no longer refused',
 edits=[('magma/ECBSink.cpp', '	if (!p.empty()) {', '	if (!p.empty() && s == sink) {')],
 demo='''	using namespace goost::magma;
	for (size_t n = 0; n < 30; n++) {
		bool refused = false;
		try {
			put(make_shared<ECBSink>(make_shared<Acc>(), key()), bytes(n), {});
		} catch (const exception &) {
			refused = true;
		}
		CHECK(refused == (n % 8 != 0));
	}
''')

seed(id='cached-early', property='C16',
 needs='a block whose first computation fails and a second request',
 breaks='a cached block that could not be computed is taken for computed: later requests yield zeros',
 edits=[('kuznyechik/BlkCached.cpp', '			state = block->value();\n			loaded = true;\n', '			loaded = true;\n			state = block->value();\n')],
 head='''
struct Flaky final : goost::kuznyechik::Block {
	mutable int n = 0;
	pair<uint64_t, uint64_t> value() const override
	{
		if (n++ == 0) {
			throw runtime_error("not now");
		}
		return {1, 2};
	}
};
''',
 demo='''	const goost::kuznyechik::BlkCached b(make_shared<Flaky>());
	bool failed = false;
	try {
		b.value();
	} catch (const runtime_error &) {
		failed = true;
	}
	CHECK(failed);
	CHECK((b.value() == pair<uint64_t, uint64_t>(1, 2)));
''')

seed(id='keycache-early', property='C16',
 needs='key data that fail in the middle of the first reading and a second request',
 breaks='a partly read key is taken for the whole one after a failure',
 also=['C18'],
 edits=[('magma/KeyCachedData.cpp', '	if (!cache->cached) {\n', '	if (!cache->cached) {\n		cache->cached = true;\n'),
        ('magma/KeyCachedData.cpp', '''			cache->key[i] = keydata->key(i);
		}
		cache->cached = true;
''', '''			cache->key[i] = keydata->key(i);
		}
''')],
 head='''
struct Flaky final : goost::magma::KeyData {
	mutable int n = 0;
	uint32_t key(int i) const override
	{
		if (n++ == 3) {
			throw runtime_error("not now");
		}
		return 100 + i;
	}
};
''',
 demo='''	const goost::magma::KeyCachedData k(make_unique<Flaky>());
	bool failed = false;
	try {
		k.key(7);
	} catch (const runtime_error &) {
		failed = true;
	}
	CHECK(failed);
	for (int i = 0; i < 8; i++) {
		CHECK(k.key(i) == uint32_t(100 + i));
	}
''')

STRESS = '''
#include <atomic>
#include <thread>
template <typename F> void together(F f)
{
	atomic<int> bad(0);
	vector<thread> t;
	for (int i = 0; i < 8; i++) {
		t.emplace_back([&bad, &f, i]() { if (!f(i)) { bad++; } });
	}
	for (auto &x : t) {
		x.join();
	}
	CHECK(bad == 0);
}
'''
seed(id='blkr-static', property='C17',
 needs='two threads inside the linear transformation at the same time',
 breaks='the work buffer of BlkR is shared by all threads',
 edits=[('kuznyechik/BlkR.cpp', '	array<uint8_t, 17> data;', '	static array<uint8_t, 17> data;')],
 head=STRESS,
 demo='''	using namespace goost::kuznyechik;
	together([](int i) {
		const auto b = make_shared<BlkRaw>(i * 0x0123456789abcdefULL, i);
		const auto v = BlkR(make_shared<BlkRaw>(0, 0)).value();
		if (v.first != 0 || v.second != 0) {
			return false;
		}
		// The low fifteen bytes are only moved
		for (int n = 0; n < 3000000; n++) {
			const auto r = BlkR(b).value();
			const auto x = b->value();
			if (r.first != (x.first >> 8 | x.second << 56) || (r.second << 8) >> 8 != x.second >> 8) {
				return false;
			}
		}
		return true;
	});
''')

seed(id='lazykey-memo', property='C17',
 needs='two threads using one key at the same time',
 breaks='the key remembers its last answer in members that no lock protects',
 edits=[('magma/LazyKey.cpp', '	return sbox->transform(key_data->key(index) + v);', '''	const auto sum = key_data->key(index) + v;
	if (last_sum != sum) {
		last = sbox->transform(sum);
		last_sum = sum;
	}
	return last;'''),
  ('magma/LazyKey.cpp', '	: key_data(move(key_data)), sbox(sbox)\n', '	: key_data(move(key_data)), sbox(sbox), last_sum(0), last(this->sbox->transform(0))\n'),
  ('magma/LazyKey.h', '	const std::shared_ptr<const Sbox> sbox;\n', '	const std::shared_ptr<const Sbox> sbox;\n	mutable uint32_t last_sum;\n	mutable uint32_t last;\n')],
 head=STRESS,
 demo='''	using namespace goost::magma;
	const auto k = make_shared<LazyKey>(vector<uint32_t>{1, 2, 3, 4, 5, 6, 7, 8}, make_shared<SboxR3412>());
	const auto r = magmaRef("0000000100000002000000030000000400000005000000060000000700000008");
	together([k, r](int i) {
		const auto e = r.encrypt(i);
		for (int n = 0; n < 100000; n++) {
			if (EncryptionBase(k).transform(i) != e) {
				return false;
			}
		}
		return true;
	});
''')

seed(id='ecb-leak', property='C18',
 needs='a sink underneath that fails',
 breaks='the work buffer of a block is leaked when the sink underneath throws',
 flags='-fsanitize=address -fno-omit-frame-pointer', env='ASAN_OPTIONS=detect_leaks=0',
 edits=[('magma/ECBSink.cpp', '			s = s->write(p);\n			p.clear();', '			const auto out = new vector<byte>(p);\n			s = s->write(*out);\n			delete out;\n			p.clear();')],
 head='''
static long balance = 0;
void *operator new(size_t n) { balance++; return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { if (p) { balance--; } free(p); }
void operator delete(void *p, size_t) noexcept { if (p) { balance--; } free(p); }
struct Broken final : goost::Sink {
	shared_ptr<const goost::Sink> write(const Bytes &) const override { throw 1; }
	shared_ptr<const goost::Sink> finalize() const override { throw 1; }
};
''',
 demo='''	const auto sink = make_shared<goost::magma::ECBSink>(make_shared<Broken>(), key());
	const Bytes d(24);
	long before = 0;
	for (int i = 0; i < 5; i++) {
		try {
			sink->write(d);
			CHECK(false);
		} catch (int) {
		}
		if (i == 1) {
			before = balance;
		}
	}
	CHECK(balance == before);
''')

seed(id='long-key-text', property='C19',
 needs='key text longer than a key',
 breaks='longer key text is accepted and its end ignored',
 edits=[('magma/KeyDataString.cpp', 'key_data.size() != 64', 'key_data.size() < 64')],
 demo='''	bool refused = false;
	try {
		goost::magma::KeyDataString(string(KEY()) + "00").key(0);
	} catch (const exception &) {
		refused = true;
	}
	CHECK(refused);
	CHECK(goost::magma::KeyDataString(KEY()).key(0) == 0xffeeddcc);
''')

seed(id='ecb-recursive', property='C21',
 needs='a write of many blocks at once',
 breaks='every block of a write takes a level of the stack and a copy of the rest of the data',
 edits=[('magma/ECBSink.cpp', '''			s = s->write(p);
			p.clear();
''', '''			s = s->write(p);
			return ECBSink(s, key).write(
				vector<byte>(data.begin() + p.size(), data.end())
			);
''')],
 head='''
struct Count final : goost::Sink {
	size_t n;
	explicit Count(size_t n) : n(n) {}
	shared_ptr<const goost::Sink> write(const Bytes &d) const override { return make_shared<Count>(n + d.size()); }
	shared_ptr<const goost::Sink> finalize() const override { return make_shared<Count>(n); }
};
''',
 demo='''	const size_t n = 1 << 20;
	const auto s = make_shared<goost::magma::ECBSink>(make_shared<Count>(0), key())->write(Bytes(n));
	CHECK(dynamic_cast<const Count &>(*s->finalize()).n == n);
''')

seed(id='round-index', property='C22',
 needs='an implementation of the key interface other than LazyKey',
 breaks='rounds are numbered 0..31 and only LazyKey reduces the number to a part of the key',
 also=['C19'],
 edits=[('magma/EncryptionBase.cpp', '''	b ^= key->transform(a, 0);
	a ^= key->transform(b, 1);
	b ^= key->transform(a, 2);
	a ^= key->transform(b, 3);
	b ^= key->transform(a, 4);
	a ^= key->transform(b, 5);
	b ^= key->transform(a, 6);
	a ^= key->transform(b, 7);

	b ^= key->transform(a, 0);
	a ^= key->transform(b, 1);
	b ^= key->transform(a, 2);
	a ^= key->transform(b, 3);
	b ^= key->transform(a, 4);
	a ^= key->transform(b, 5);
	b ^= key->transform(a, 6);
	a ^= key->transform(b, 7);

	b ^= key->transform(a, 0);
	a ^= key->transform(b, 1);
	b ^= key->transform(a, 2);
	a ^= key->transform(b, 3);
	b ^= key->transform(a, 4);
	a ^= key->transform(b, 5);
	b ^= key->transform(a, 6);
	a ^= key->transform(b, 7);
''', '''	for (int i = 0; i < 24; i += 2) {
		b ^= key->transform(a, i);
		a ^= key->transform(b, i + 1);
	}
'''), ('magma/LazyKey.cpp', 'key_data->key(index) + v', 'key_data->key(index & 7) + v')],
 head='''
struct Own final : goost::magma::Key {
	shared_ptr<const goost::magma::Key> k;
	explicit Own(const shared_ptr<const goost::magma::Key> &k) : k(k) {}
	uint32_t transform(uint32_t v, int i) const override
	{
		CHECK(i >= 0 && i < 8);
		return k->transform(v, i);
	}
};
''',
 demo='''	CHECK(goost::magma::EncryptionBase(make_shared<Own>(key())).transform(5) == magmaRef().encrypt(5));
''')

seed(id='sbox-row', property='C04',
 needs='a nibble e or f at the highest position before the substitution',
 breaks='two entries of the last row of the standard table are exchanged',
 also=['C01'],
 edits=[('magma/SboxR3412.cpp', '10, 6, 9, 12, 11, 2}', '10, 6, 9, 12, 2, 11}')],
 demo='''	for (uint32_t v = 0; v < 16; v++) {
		CHECK(goost::magma::SboxR3412().transform(v << 28) == Magma::f(v << 28));
	}
''')

seed(id='sum-reduced', property='C01',
 needs='a round in which the sum of the half block and the key part is exactly 0xffffffff',
 breaks='the addition of the round key is modulo 2^32-1',
 also=['C05', 'C10'],
 edits=[('magma/LazyKey.cpp', '	return sbox->transform(key_data->key(index) + v);', '	return sbox->transform((key_data->key(index) + v) % 0xffffffff);')],
 demo='''	const string z(64, '0');
	for (uint64_t b : {0x0ULL, 0x1234ffffffffULL, 0xffffffffULL}) {
		CHECK(goost::magma::EncryptionBase(key(z.c_str())).transform(b) == magmaRef(z).encrypt(b));
	}
''')
