SEEDS = []
def seed(**k):
    SEEDS.append(k)

seed(id='st-offset16', property='C14',
 needs='a memory stream of more than 4096 blocks',
 breaks='an iterator remembers its place in sixteen bits: after 64 KB the stream starts over and never ends',
 edits=[('kuznyechik/StMemory.cpp', '	const size_t offset;\n	const size_t block_size;', '	const uint16_t offset;\n	const size_t block_size;')],
 demo='''	using namespace goost::kuznyechik;
	const vector<uint64_t> w(8200, 7);
	auto it = make_shared<StMemory>(w)->iter();
	size_t n = 1;
	for (; !it->last() && n < 10000; n++) {
		it = it->next();
	}
	CHECK(n == 4100);
''')

seed(id='st-last-next', property='C14',
 needs='two iterators of one stream used in turn',
 breaks='the stream keeps the iterator made last and hands it out again to whoever asks for any later place',
 also=['C15', 'C17'],
 edits=[('kuznyechik/StMemory.h', '''	const std::vector<uint64_t> data;
};''', '''	const std::vector<uint64_t> data;
	// The block that was asked for last, it is often asked for twice (last and next)
	mutable std::pair<size_t, std::shared_ptr<const Block>> recent{~size_t(0), nullptr};
};'''), ('kuznyechik/StMemory.cpp', '''		words * sizeof(uint64_t),
		make_shared<BlkRaw>(
			words > 0 ? data[index] : 0,
			words > 1 ? data[index + 1] : 0
		)
	);''', '''		words * sizeof(uint64_t),
		block(index, words)
	);'''), ('kuznyechik/StMemory.h', '	std::shared_ptr<const Iterator> next_iter(size_t offset = 0) const;\n\nprivate:\n', '	std::shared_ptr<const Iterator> next_iter(size_t offset = 0) const;\n\nprivate:\n	std::shared_ptr<const Block> block(size_t index, size_t words) const;\n'),
 ('kuznyechik/StMemory.cpp', '''shared_ptr<const Iterator> StMemory::iter() const
''', '''shared_ptr<const Block> StMemory::block(size_t index, size_t words) const
{
	if (recent.first != index / 4) {
		recent = {
			index / 4,
			make_shared<BlkRaw>(
				words > 0 ? data[index] : 0,
				words > 1 ? data[index + 1] : 0
			)
		};
	}
	const auto value = recent.second->value();
	if (words > 0 && value.first == data[index]) {
		return recent.second;
	}
	return make_shared<BlkRaw>(
		words > 0 ? data[index] : 0,
		words > 1 ? data[index + 1] : 0
	);
}

shared_ptr<const Iterator> StMemory::iter() const
''')],
 demo='''	using namespace goost::kuznyechik;
	const auto s = make_shared<StMemory>(vector<uint64_t>{5, 1, 5, 2, 9, 3});
	auto it = s->iter();
	CHECK(it->value() == make_pair(uint64_t(5), uint64_t(1)));
	it = it->next();
	CHECK(it->value() == make_pair(uint64_t(5), uint64_t(2)));
''')

seed(id='round-memo', property='C01',
 needs='two consecutive rounds with the same half-block: the first round function is zero and the halves are equal',
 breaks='a round whose input is that of the round before takes its result from there, although the subkey is another one',
 also=['C22', 'C02'],
 edits=[('magma/BlkForwarded.cpp', '''	b ^= key->transform(a, 0);
	a ^= key->transform(b, 1);
''', '''	const auto first = key->transform(a, 0);
	b ^= first;
	a ^= a == b ? first : key->transform(b, 1);
''')],
 demo='''	using namespace goost::magma;
	// The substitution of x is zero for this x, so that the first round changes nothing
	uint32_t x = 0;
	for (int i = 0; i < 8; i++) {
		for (uint32_t n = 0; n < 16; n++) {
			if ((rotate(Magma::f(n << (4 * i))) >> (4 * i) & 15) == 0) {
				x |= n << (4 * i);
			}
		}
	}
	CHECK(Magma::f(x) == 0);
	char text[80];
	const uint32_t half = 0x01234567;
	snprintf(text, sizeof text, "%08x%s", x - half, KEY() + 8);
	const auto b = uint64_t(half) << 32 | half;
	const auto v = BlkEncrypted(make_shared<BlkRaw>(b), key(text)).value();
	CHECK((uint64_t(v.second) << 32 | v.first) == magmaRef(text).encrypt(b));
''', head='''
static uint32_t rotate(uint32_t v)
{
	return v >> 11 | v << 21;
}
''')

seed(id='imit-index16', property='C12',
 needs='a message of at least 65536 blocks',
 breaks='blocks are counted in sixteen bits: a message of half a megabyte is never finished',
 edits=[('gost89/DataImit.cpp', '''	auto pi = pdata.begin();
	while (pi != pdata.end()) {
		for (auto &s : state) {
			s ^= *pi++;
		}
''', '''	const uint16_t blocks = pdata.size() / 8;
	auto pi = pdata.begin();
	for (uint16_t n = 0; n < blocks; n++) {
		for (auto &s : state) {
			s ^= *pi++;
		}
''')],
 demo='''	using namespace goost::gost89;
	vector<uint8_t> d(65536 * 8 + 16);
	const auto a = DataImit(d, key()).value();
	d[100] = 1;
	d[65536 * 8 - 100] = 1;
	CHECK(DataImit(d, key()).value() != a);
	const auto b = DataImit(d, key()).value();
	d[65536 * 8 - 100] = 2;
	CHECK(DataImit(d, key()).value() != b);
''')

seed(id='ctr-key-ref', property='C15',
 needs='an iterator of a CTR stream that is used after the stream is gone',
 breaks='iterators refer to the key inside the stream instead of sharing it',
 also=['C23'],
 edits=[('kuznyechik/StCTREncrypted.cpp', '''private:
	const shared_ptr<const Iterator> iter;
	const shared_ptr<const Key> key;
''', '''private:
	const shared_ptr<const Iterator> iter;
	const shared_ptr<const Key> &key;
''')],
 flags='-fsanitize=address',
 demo='''	using namespace goost::kuznyechik;
	const auto k = make_shared<Key>(string(KUZKEY()));
	auto s = make_unique<StCTREncrypted>(make_shared<StMemory>(vector<uint64_t>(6, 1)), k, 7);
	const auto it = s->iter();
	const auto a = it->next()->value();
	s.reset();
	CHECK(it->next()->value() == a);
''')

seed(id='ctr-counter16', property='C13',
 needs='a stream of more than 65536 blocks',
 breaks='the counter is kept as a number of sixteen bits and repeats, so that the gamma does too',
 edits=[('kuznyechik/BlkIncremented.cpp', '	return {value.first + 1, value.second};', '	return {uint16_t(value.first) + 1ULL + (value.first >> 32 << 32), value.second};')],
 also=['C20'],
 demo='''	using namespace goost::kuznyechik;
	for (uint64_t x : {0ULL, 65534ULL, 65535ULL, 65536ULL, 0x12345678ULL}) {
		CHECK(BlkIncremented(make_shared<BlkRaw>(x, 7)).value().first == x + 1);
	}
''')

seed(id='sbox-memo-atomic', property='C17',
 needs='two threads substituting through one table object, one of them between the two stores of the other',
 breaks='the last substitution is remembered in atomics: a thread may see the input of one and the result of another',
 edits=[('magma/SboxTwisted.h', '#include "Sbox.h"\n', '#include "Sbox.h"\n#include <atomic>\n'),
 ('magma/SboxTwisted.h', '	const std::unique_ptr<const Sbox> sbox;\n', '	const std::unique_ptr<const Sbox> sbox;\n	// The last value and its result\n	mutable std::atomic<uint32_t> last{0};\n	mutable std::atomic<uint32_t> result{0};\n	mutable std::atomic<bool> known{false};\n'),
 ('magma/SboxTwisted.cpp', '	const auto tmp = sbox->transform(value);\n	return (tmp << 11) | ((tmp >> 21) & 0x7ff);', """	if (known && last == value) {
		return result;
	}
	const auto tmp = sbox->transform(value);
	const uint32_t twisted = (tmp << 11) | ((tmp >> 21) & 0x7ff);
	last = value;
	result = twisted;
	known = true;
	return twisted;""")],
 demo="""	using namespace goost::magma;
	const auto tab = make_shared<SboxTwisted>(make_unique<SboxR3412>());
	const SboxR3412 plain;
	atomic<bool> bad{false};
	const auto work = [&](uint32_t from) {
		for (uint32_t n = 0; n < 10000000 && !bad; n++) {
			const auto v = (from + n / 2) % 2;
			const auto p = plain.transform(v);
			if (tab->transform(v) != (p << 11 | p >> 21)) {
				bad = true;
			}
		}
	};
	thread a(work, 0), b(work, 1), c(work, 0), d(work, 1);
	a.join();
	b.join();
	c.join();
	d.join();
	CHECK(!bad);
""", head='#include <atomic>\n#include <thread>\n')

seed(id='keydata-scratch', property='C17',
 needs='two threads decoding key text at the same time, of unrelated keys even',
 breaks='the digits of a word are copied to a buffer shared by all keys',
 edits=[('magma/KeyDataString.cpp', """	istringstream in(string(key_data, index * 8, 8));
	in >> hex >> value;
	return value;""", """	static string digits;
	digits.assign(key_data, index * 8, 8);
	istringstream in(digits);
	in >> hex >> value;
	return value;""")],
 flags='-fsanitize=thread',
 head='#include <thread>\n',
 demo="""	using namespace goost::magma;
	const auto work = [](const char *text, uint32_t want) {
		for (int n = 0; n < 2000; n++) {
			CHECK(KeyDataString(text).key(n % 8) == want);
		}
	};
	thread a(work, "0000000100000001000000010000000100000001000000010000000100000001", 1);
	thread b(work, "fffffff0fffffff0fffffff0fffffff0fffffff0fffffff0fffffff0fffffff0", 0xfffffff0);
	a.join();
	b.join();
""")

seed(id='sink-catch', property='C18',
 needs='a sink that fails with something that is not a std::exception',
 breaks='an ECB sink answers a failure of the sink below with a message of its own, so that the error is lost',
 edits=[('magma/ECBSink.cpp', '			s = s->write(p);\n', """			try {
				s = s->write(p);
			} catch (const exception &) {
				throw;
			} catch (...) {
				throw runtime_error("ECB sink failed");
			}
""")],
 head="""
struct Broken final : goost::Sink {
	shared_ptr<const goost::Sink> write(const Bytes &) const override { throw 42; }
	shared_ptr<const goost::Sink> finalize() const override { throw 42; }
};
""",
 demo="""	int got = 0;
	try {
		goost::magma::ECBSink(make_shared<Broken>(), key()).write(bytes(8));
	} catch (int e) {
		got = e;
	} catch (...) {
	}
	CHECK(got == 42);
""")

seed(id='source-retry', property='C18',
 needs='a source below that fails after part of a block was read',
 breaks='a CFB source answers with the bytes it has when the source below fails, and the error is lost when reading goes on elsewhere',
 edits=[('gost89/CFBSource.cpp', '	while (res.size() < size) {\n		while (!p.empty()', '	while (res.size() < size) try {\n		while (!p.empty()'),
 ('gost89/CFBSource.cpp', """				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
			}
		}
	}
""", """				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
			}
		}
	} catch (const exception &) {
		if (res.empty()) {
			throw;
		}
		// What is there already is not lost, the next read will fail again
		break;
	}
""")],
 head="""
struct Broken final : goost::Source {
	int n;
	explicit Broken(int n) : n(n) {}
	pair<Bytes, shared_ptr<const goost::Source>> read(size_t size) const override
	{
		if (n == 0) {
			throw runtime_error("broken");
		}
		return {bytes(min<size_t>(size, 8)), make_shared<Broken>(n - 1)};
	}
};
""",
 demo="""	bool failed = false;
	try {
		goost::gost89::CFBSource(make_shared<Broken>(1), key(), 1).read(16);
	} catch (const runtime_error &) {
		failed = true;
	}
	CHECK(failed);
""")

seed(id='keycache-per-word', property='C16',
 needs='key data that changes between the first uses of two different words',
 breaks='words are fetched one by one on their first use, so that a key may be mixed from two',
 edits=[('magma/KeyCachedData.h', '		bool cached;\n', '		uint32_t cached;\n'),
 ('magma/KeyCachedData.cpp', """	if (!cache->cached) {
		for (size_t i = 0; i < cache->key.size(); i++) {
			cache->key[i] = keydata->key(i);
		}
		cache->cached = true;
	}
""", """	if (index >= 0 && index < 8 && (cache->cached >> index & 1) == 0) {
		cache->key[index] = keydata->key(index);
		cache->cached |= uint32_t(1) << index;
	}
""")],
 head="""
struct Changing final : goost::magma::KeyData {
	mutable uint32_t uses = 0;
	uint32_t key(int) const override { return uses++ / 8; }
};
""",
 demo="""	auto d = make_unique<Changing>();
	auto &below = *d;
	const goost::magma::KeyCachedData c(move(d));
	CHECK(c.key(0) == 0);
	below.uses = 8;
	for (int i = 0; i < 8; i++) {
		CHECK(c.key(i) == 0);
	}
""")

seed(id='blkcached-zero', property='C16',
 needs='a block whose value is zero',
 breaks='a zero value is taken for no value: it is computed again on every use',
 edits=[('kuznyechik/BlkCached.cpp', '		if (!loaded) {', '		if (!loaded || (state.first | state.second) == 0) {')],
 head="""
using namespace goost::kuznyechik;
struct Changing final : Block {
	mutable uint64_t n = 0;
	pair<uint64_t, uint64_t> value() const override { return {n++, 0}; }
};
""",
 demo="""	const BlkCached b(make_shared<Changing>());
	CHECK(b.value().first == 0);
	CHECK(b.value().first == 0);
	CHECK(b.value().first == 0);
""")

seed(id='cfb-history', property='C21',
 needs='a message of many blocks written in many pieces',
 breaks='every sink keeps the one it came from alive, so that a long message is a chain that is destroyed recursively',
 edits=[('gost89/CFBSink.h', '	const std::vector<std::byte> plain;\n};', '	const std::vector<std::byte> plain;\n	// The state before the last write, to be able to go back\n	std::shared_ptr<const Sink> previous{};\n};'),
 ('gost89/CFBSink.cpp', '	return make_shared<CFBSink>(s, key, l, p);', '	const auto next = make_shared<CFBSink>(s, key, l, p);\n	next->previous = make_shared<CFBSink>(*this);\n	return next;')],
 head="""
struct Null final : goost::Sink {
	shared_ptr<const goost::Sink> write(const Bytes &) const override { return make_shared<Null>(); }
	shared_ptr<const goost::Sink> finalize() const override { return make_shared<Null>(); }
};
""",
 demo="""	shared_ptr<const goost::Sink> s = make_shared<goost::gost89::CFBSink>(make_shared<Null>(), key(), 1);
	for (int i = 0; i < 1000000; i++) {
		s = s->write(bytes(1));
	}
	s.reset();
""")

seed(id='st-previous', property='C21',
 needs='a stream of many blocks that is walked to its end',
 breaks='every iterator of a CTR stream keeps the one before it alive, and their destruction recurses',
 edits=[('kuznyechik/StCTREncrypted.cpp', """	const shared_ptr<const Block> ctr;
};
""", """	const shared_ptr<const Block> ctr;
	// What the iterator was made from is needed as long as it is
	mutable shared_ptr<const Iterator> origin{};
};
"""), ('kuznyechik/StCTREncrypted.cpp', """	return make_shared<ItCTREncrypted>(
		next_iter,""", """	const auto following = make_shared<ItCTREncrypted>(
		next_iter,"""), ('kuznyechik/StCTREncrypted.cpp', """		make_shared<BlkRaw>(make_shared<BlkIncremented>(ctr))
	);
""", """		make_shared<BlkRaw>(make_shared<BlkIncremented>(ctr))
	);
	following->origin = make_shared<ItCTREncrypted>(*this);
	return following;
""")],
 demo="""	using namespace goost::kuznyechik;
	const auto k = make_shared<Key>(string(KUZKEY()));
	auto it = make_shared<StCTREncrypted>(make_shared<StMemory>(vector<uint64_t>(4000000, 1)), k, 7)->iter();
	while (!it->last()) {
		it = it->next();
	}
	it.reset();
""")

seed(id='cfb-quadratic', property='C21',
 needs='a long message read in one request',
 breaks='a read of many bytes is made of reads of half as many that decipher from the start',
 edits=[('magma/CFBSource.cpp', '	auto s = source;\n	auto p = plain;\n', """	// The end of the data is to be known before anything is given out
	if (size > 4 * Block::size) {
		read(size - Block::size);
	}
	auto s = source;
	auto p = plain;
""")],
 env='',
 demo="""	using namespace goost::magma;
	struct Counting final : Key {
		mutable size_t n = 0;
		uint32_t transform(uint32_t v, int i) const override { n++; return v * 5 + i; }
	};
	const auto k = make_shared<Counting>();
	CFBSource(make_shared<Src>(bytes(2000)), k, 1, 2).read(2000);
	CHECK(k->n <= 32 * 252);
""")

seed(id='iterkey-equal', property='C03',
 needs='a key whose halves are equal',
 breaks='a round key derived from two equal ones is taken to be the same',
 edits=[('kuznyechik/BlkIterKey.cpp', '	return generate(kb, ka, c1)->value();', """	const auto left = ka->value();
	if (left == kb->value() && c1 == 1) {
		return left;
	}
	return generate(kb, ka, c1)->value();""")],
 demo="""	using namespace goost::kuznyechik;
	const auto z = make_shared<BlkRaw>(7, 7);
	const auto a = BlkIterKey(z, z, 1, 8).value();
	const auto b = BlkIterKey(z, z, 1, 7).value();
	CHECK(a != b);
	CHECK(a != z->value());
""")

seed(id='decrypt-cached', property='C02',
 needs='a block object whose value changes, or a key whose round function is not a bijection',
 breaks='a round whose output half is zero takes its result for missing and computes it with the next subkey',
 also=['C22'],
 edits=[('magma/BlkBackwarded.cpp', """	b ^= key->transform(a, 7);
	a ^= key->transform(b, 6);
""", """	const auto f = key->transform(a, 7);
	b ^= f ? f : key->transform(a, 6);
	a ^= key->transform(b, 6);
""")],
 head="""
struct Odd final : goost::magma::Key {
	uint32_t transform(uint32_t v, int i) const override { return i == 7 ? 0 : v * 5 + i; }
};
""",
 demo="""	using namespace goost::magma;
	const auto k = make_shared<Odd>();
	const auto e = make_shared<BlkEncrypted>(make_shared<BlkRaw>(uint64_t(0x123456789abcdef0)), k);
	const auto raw = EncryptionBase(k).transform(0x123456789abcdef0);
	CHECK(e->value() == make_pair(uint32_t(raw), uint32_t(raw >> 32)));
	const auto d = BlkDecrypted(e, k).value();
	CHECK(d == make_pair(uint32_t(0x9abcdef0), uint32_t(0x12345678)));
""")

seed(id='container-sign', property='C09',
 needs='a container whose key has a byte above 127',
 breaks='the key bytes of a container are assembled as signed numbers',
 also=['C19'],
 edits=[('magma/ECBSource.cpp', """	for (auto &k : key) {
		k = htonl(k);
	}
""", """	for (auto &k : key) {
		const uint32_t le = k;
		k = int8_t(le >> 24) + (int8_t(le >> 16) << 8) + (int8_t(le >> 8) << 16) + (int8_t(le) << 24);
	}
""")],
 head="""
struct Cont final : goost::magma::Container {
	vector<byte> key() const override { vector<byte> k(32); k[9] = byte(0x80); return k; }
	vector<byte> mask() const override { return vector<byte>(32); }
	vector<byte> sbox() const override { vector<byte> s; for (int i = 0; i < 64; i++) { s.push_back(byte(i / 4 * 17)); } return s; }
};
""",
 demo="""	using namespace goost::magma;
	vector<uint8_t> uz;
	for (int i = 0; i < 64; i++) {
		uz.push_back(i / 4 * 17);
	}
	const auto k = make_shared<LazyKey>(
		vector<uint32_t>{0, 0, 0x00800000, 0, 0, 0, 0, 0}, make_shared<SboxTwisted>(make_unique<SboxByte>(uz))
	);
	const auto a = ECBSource(make_shared<Src>(bytes(8)), shared_ptr<const Container>(make_shared<Cont>())).read(8).first;
	const auto b = ECBSource(make_shared<Src>(bytes(8)), shared_ptr<const Key>(k)).read(8).first;
	CHECK(a == b);
""")

seed(id='blkraw-float', property='C20',
 needs='a 64-bit value with its highest bits set',
 breaks='the high word of a raw block is taken by a signed division',
 also=['C01'],
 edits=[('magma/BlkRaw.cpp', '	: BlkRaw(block, block >> 32)', '	: BlkRaw(block, int64_t(block) / 0x100000000LL)')],
 demo="""	using namespace goost::magma;
	for (uint64_t x : {0ULL, 1ULL, 0x8000000000000001ULL, 0xfedcba9876543210ULL, ~0ULL}) {
		CHECK(BlkRaw(x).value() == make_pair(uint32_t(x), uint32_t(x >> 32)));
	}
""")

seed(id='twist-arith', property='C04',
 needs='a substituted value with its highest bit set',
 breaks='the rotation shifts arithmetically',
 also=['C01'],
 edits=[('magma/SboxTwisted.cpp', '	return (tmp << 11) | ((tmp >> 21) & 0x7ff);', '	return (tmp << 11) | ((int32_t(tmp) >> 21) & 0xfff);')],
 demo="""	using namespace goost::magma;
	struct Id final : Sbox {
		uint32_t transform(uint32_t v) const override { return v; }
	};
	for (uint32_t v : {0u, 1u, 0x80000000u, 0x7fffffffu, 0xfedcba98u, ~0u}) {
		CHECK(SboxTwisted(make_unique<Id>()).transform(v) == (v << 11 | v >> 21));
	}
""")
