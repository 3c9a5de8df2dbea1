SEEDS = []
def seed(**k):
    SEEDS.append(k)

seed(id='key-registry', property='C19',
 needs='two keys given as text that differ only in their last bytes',
 breaks='parsed keys are shared between equal texts, but texts are compared without their last four bytes',
 also=['C15'],
 edits=[('magma/LazyKey.cpp', '''	: LazyKey(
		make_unique<const KeyCachedData>(make_unique<const KeyDataString>(key_data)),
		sbox
	)
{
}
''', '''	: LazyKey(make_unique<const SharedData>(key_data), sbox)
{
}
'''), ('magma/LazyKey.cpp', '''using namespace std;
using namespace goost::magma;
''', '''using namespace std;
using namespace goost::magma;

namespace {

// Parsing of key text is slow, so that equal keys are parsed once
class SharedData final : public KeyData {
public:
	explicit SharedData(const string &text)
		: data(find(text))
	{
	}

	uint32_t key(int index) const override
	{
		return data->key(index);
	}
private:
	const shared_ptr<const KeyData> data;

	static shared_ptr<const KeyData> find(const string &text)
	{
		static mutex guard;
		static map<string, weak_ptr<const KeyData>> known;
		const lock_guard<mutex> lock(guard);
		auto &w = known[string(text, 0, 56) + to_string(text.size())];
		auto d = w.lock();
		if (!d) {
			d = make_shared<KeyCachedData>(make_unique<const KeyDataString>(text));
			w = d;
		}
		return d;
	}
};

}  // namespace
'''), ('magma/LazyKey.cpp', '#include "LazyKey.h"\n', '#include "LazyKey.h"\n#include <map>\n#include <mutex>\n')],
 demo='''	string a = KEY(), b = KEY();
	b[63] = '0';
	const auto ka = key(a.c_str());
	const auto kb = key(b.c_str());
	for (uint64_t x = 0; x < 8; x++) {
		CHECK(goost::magma::EncryptionBase(ka).transform(x) == magmaRef(a).encrypt(x));
		CHECK(goost::magma::EncryptionBase(kb).transform(x) == magmaRef(b).encrypt(x));
	}
''')

seed(id='swap-signed', property='C02',
 needs='a block whose state after the last round has its sign bit set in one half',
 breaks='the halves are exchanged through a signed 64-bit value, which extends the sign into the other half: such blocks are not restored',
 also=['C20'],
 edits=[('magma/BlkSwapped.cpp', '	return {value.second, value.first};', '''	const int64_t both = (int64_t(value.first) << 32) + int32_t(value.second);
	return {both, both >> 32};''')],
 demo='''	using namespace goost::magma;
	const auto k = key();
	for (uint64_t x = 0; x < 200; x++) {
		const auto e = make_shared<BlkEncrypted>(make_shared<BlkRaw>(x * 0x9e3779b97f4a7c15ULL), k);
		const auto d = BlkDecrypted(e, k).value();
		CHECK((uint64_t(d.second) << 32 | d.first) == x * 0x9e3779b97f4a7c15ULL);
	}
''')

seed(id='ecb-empty-write', property='C07',
 needs='an empty write followed by more data',
 breaks='an empty write on an ECB sink gives back the sink below: what is written next goes out in the clear',
 also=['C09'],
 edits=[('magma/ECBSink.cpp', '	vector<byte> p;\n	auto s = sink;\n', '	vector<byte> p;\n	auto s = sink;\n	if (data.empty()) {\n		return s;\n	}\n')],
 demo='''	using namespace goost::magma;
	const auto d = bytes(24);
	const auto whole = put(make_shared<ECBSink>(make_shared<Acc>(), key()), d, {8});
	auto s = make_shared<ECBSink>(make_shared<Acc>(), key())->write({});
	s = s->write(d);
	CHECK(data(s->finalize()) == whole);
''')

seed(id='cfb-reserve', property='C08',
 needs='a read that asks for everything there may be: more than a vector can hold',
 breaks='the result is reserved for the size asked for, which fails for huge requests',
 edits=[('magma/CFBSource.cpp', '	vector<byte> res;\n', '	vector<byte> res;\n	res.reserve(size);\n')],
 demo='''	using namespace goost::magma;
	const auto d = bytes(40);
	const auto whole = get(make_shared<CFBSource>(make_shared<Src>(d), key(), 1, 2), {});
	CHECK(make_shared<CFBSource>(make_shared<Src>(d), key(), 1, 2)->read(~size_t(0)).first == whole);
''')

seed(id='ecb-small-read', property='C09',
 needs='a read request of one to seven bytes',
 breaks='a request smaller than a block is answered with more bytes than asked for',
 edits=[('magma/ECBSource.cpp', '	if (size < Block::size) {', '	if (size == 0) {')],
 demo='''	using namespace goost::magma;
	for (size_t n = 0; n < 8; n++) {
		bool refused = false;
		try {
			ECBSource(make_shared<Src>(bytes(16)), shared_ptr<const Key>(key())).read(n);
		} catch (const exception &) {
			refused = true;
		}
		CHECK(refused);
	}
	CHECK(ECBSource(make_shared<Src>(bytes(16)), shared_ptr<const Key>(key())).read(8).first.size() == 8);
''')

seed(id='mac-hoisted-key', property='C10',
 needs='a message of more than one block with an incomplete last block',
 breaks='the subkey of the last block is chosen by the size of the first one',
 edits=[('magma/Imit.cpp', '''	while (true) {
		k = make_shared<BlkImitFinalKey>(key, b.size());
''', '''	k = make_shared<BlkImitFinalKey>(key, b.size());
	while (true) {
''')],
 demo='''	using namespace goost::magma;
	const auto r = magmaRef();
	const auto dbl = [](uint64_t x) { return (x << 1) ^ (x >> 63 ? 0x1b : 0); };
	const auto k2 = dbl(dbl(r.encrypt(0)));
	const auto v = Imit(make_shared<Src>(Bytes(9)), key()).value();
	const auto e = r.encrypt(r.encrypt(0) ^ 0x8000 ^ k2);
	CHECK(v.first == uint32_t(e) && v.second == uint32_t(e >> 32));
''')

seed(id='kuz-mac-words', property='C11',
 needs='a stream whose last block has nine to fifteen valid bytes: no stream of the library has one',
 breaks='a last block with more than one word is taken for a complete one',
 edits=[('kuznyechik/Imit.cpp', '	if (iter->size() == Block::size) {', '	if (iter->size() > sizeof(uint64_t)) {')],
 head='''
using namespace goost::kuznyechik;
struct Iter final : Iterator {
	size_t n;
	explicit Iter(size_t n) : n(n) {}
	pair<uint64_t, uint64_t> value() const override { return {1, 2}; }
	bool last() const override { return true; }
	size_t size() const override { return n; }
	shared_ptr<const Iterator> next() const override { return {}; }
};
struct One final : Stream {
	size_t n;
	explicit One(size_t n) : n(n) {}
	shared_ptr<const Iterator> iter() const override { return make_shared<Iter>(n); }
};
''',
 demo='''	const auto k = make_shared<Key>(string(KUZKEY()));
	const auto dbl = [](pair<uint64_t, uint64_t> x) {
		return pair<uint64_t, uint64_t>(
			(x.first << 1) ^ (x.second >> 63 ? 0x87 : 0), (x.second << 1) | (x.first >> 63)
		);
	};
	const auto k1 = dbl(k->encrypt(make_shared<BlkRaw>())->value());
	const auto k2 = dbl(k1);
	CHECK(Imit(make_shared<One>(16), k).value() == k->encrypt(make_shared<BlkRaw>(k1.first ^ 1, k1.second ^ 2))->value());
	for (size_t n = 9; n < 16; n++) {
		// the second word is 2: its lowest byte is always valid here
		const uint64_t w = 2 | 0x80ULL << (8 * (n - 8));
		CHECK(Imit(make_shared<One>(n), k).value() == k->encrypt(make_shared<BlkRaw>(k2.first ^ 1, k2.second ^ w))->value());
	}
''')

seed(id='imit-empty', property='C12',
 needs='an empty message',
 breaks='an empty message has a MAC that does not depend on the key',
 edits=[('gost89/DataImit.cpp', '	auto pdata = data;\n', '	if (data.empty()) {\n		return state;\n	}\n	auto pdata = data;\n')],
 demo='''	using namespace goost::gost89;
	CHECK(DataImit({}, key()).value() == DataImit(vector<uint8_t>(16), key()).value());
''')

seed(id='ctr-early-carry', property='C13',
 needs='a counter whose low 32 bits are all ones',
 breaks='the counter carries into its high word at 2^32 already',
 also=['C20'],
 edits=[('kuznyechik/BlkIncremented.cpp', '	return {value.first + 1, value.second};', '''	if ((value.first & numeric_limits<uint32_t>::max()) == numeric_limits<uint32_t>::max()) {
		return {value.first + 1, value.second + 1};
	}
	return {value.first + 1, value.second};''')],
 demo='''	using namespace goost::kuznyechik;
	for (uint64_t x : {0ULL, 0xffffffffULL, 0x5ffffffffULL, 0xfffffffffffffffeULL}) {
		const auto v = BlkIncremented(make_shared<BlkRaw>(x, 7)).value();
		CHECK(v.first == x + 1 && v.second == 7);
	}
''')

seed(id='source-consumed', property='C15',
 needs='reading twice from one source that still holds a part of a block',
 breaks='reading takes the pending bytes away from the source that is read',
 also=['C08'],
 edits=[('gost89/CFBSource.cpp', '	auto p = plain;\n', '	auto p = move(plain);\n'), ('gost89/CFBSource.h', '	const std::vector<std::byte> plain;\n', '	mutable std::vector<std::byte> plain;\n')],
 demo='''	using namespace goost::gost89;
	const auto s = make_shared<CFBSource>(make_shared<Src>(bytes(24)), key(), 5)->read(3).second;
	const auto a = s->read(10).first;
	CHECK(s->read(10).first == a);
''')

seed(id='keycache-late', property='C16',
 needs='key data that change after they were read once',
 breaks='the key data count as cached only when the last part of the key has been asked for',
 edits=[('magma/KeyCachedData.cpp', '		cache->cached = true;\n', '		cache->cached = index == 7;\n')],
 head='''
struct Changing final : goost::magma::KeyData {
	mutable uint32_t n = 0;
	uint32_t key(int i) const override { return n++ * 16 + i; }
};
''',
 demo='''	const goost::magma::KeyCachedData k(make_unique<Changing>());
	const auto a = k.key(2);
	CHECK(k.key(2) == a);
	CHECK(k.key(7) == 7 * 17);
	CHECK(k.key(2) == a);
''')

seed(id='cached-unlocked-check', property='C17',
 needs='one thread asking for a cached block while another one computes it',
 breaks='the flag and the value of a cached block are read without the lock: a data race, and a torn or missing value',
 flags='-fsanitize=thread',
 edits=[('kuznyechik/BlkCached.cpp', '''	pair<uint64_t, uint64_t> value()
	{
''', '''	pair<uint64_t, uint64_t> value()
	{
		if (loaded) {
			return state;
		}
''')],
 head='''
#include <thread>
''',
 demo='''	using namespace goost::kuznyechik;
	for (int i = 0; i < 200; i++) {
		const auto b = make_shared<BlkCached>(make_shared<BlkRaw>(i, ~i));
		const auto f = [b, i]() { CHECK(b->value().first == uint64_t(i)); };
		thread t1(f), t2(f), t3(f);
		t1.join();
		t2.join();
		t3.join();
	}
''')

seed(id='tail-error-lost', property='C18',
 needs='a sink that fails when the last incomplete block is written',
 breaks='finalize hides the error of the sink below and loses the tail',
 edits=[('magma/CFBSink.cpp', '''		s = s->write(c);
	}
	return s;''', '''		try {
			s = s->write(c);
		} catch (const exception &) {
			return sink;
		}
	}
	return s;'''), ('magma/CFBSink.cpp', '#include <cstring>\n', '#include <cstring>\n#include <exception>\n')],
 head='''
struct Broken final : goost::Sink {
	shared_ptr<const goost::Sink> write(const Bytes &) const override { throw runtime_error("full"); }
	shared_ptr<const goost::Sink> finalize() const override { throw runtime_error("full"); }
};
''',
 demo='''	const auto s = make_shared<goost::magma::CFBSink>(make_shared<Broken>(), key(), 1, 2)->write(bytes(5));
	bool failed = false;
	try {
		s->finalize();
	} catch (const runtime_error &) {
		failed = true;
	}
	CHECK(failed);
''')

seed(id='kuz-long-key', property='C19',
 needs='Kuznyechik key text longer than a key',
 breaks='both halves of the key accept longer text and ignore its end',
 edits=[('kuznyechik/KeyDataString.cpp', '''shared_ptr<const Block> KeyDataString::low() const
{
	if (key_data.size() != 64) {''', '''shared_ptr<const Block> KeyDataString::low() const
{
	if (key_data.size() < 64) {'''), ('kuznyechik/KeyDataString.cpp', '''shared_ptr<const Block> KeyDataString::high() const
{
	if (key_data.size() != 64) {''', '''shared_ptr<const Block> KeyDataString::high() const
{
	if (key_data.size() < 64) {''')],
 demo='''	using namespace goost::kuznyechik;
	bool refused = false;
	try {
		Key(string(KUZKEY()) + "0").encrypt(make_shared<BlkRaw>())->value();
	} catch (const exception &) {
		refused = true;
	}
	CHECK(refused);
''')

seed(id='key-text-view', property='C23',
 needs='key text that is destroyed or changed before the first use of the key',
 breaks='key data keep a reference to the caller\'s text and read it after it is gone',
 also=['C15'], flags='-fsanitize=address',
 edits=[('magma/KeyDataString.h', '	const std::string key_data;\n', '	const std::string &key_data;\n')],
 demo='''	auto text = make_unique<string>(KEY());
	const auto k = make_shared<goost::magma::LazyKey>(*text);
	text.reset();
	CHECK(goost::magma::EncryptionBase(k).transform(1) == magmaRef().encrypt(1));
''')

seed(id='ecb-large-halves', property='C09',
 needs='one write of more than 64 KB whose half is not a whole number of blocks',
 breaks='large writes are cut in two halves, which are refused when they end inside a block',
 also=['C07'],
 edits=[('magma/ECBSink.cpp', '''	vector<byte> p;
	auto s = sink;
''', '''	if (data.size() > 65536) {
		// Work buffers are small
		const auto half = data.begin() + data.size() / 2;
		return write(vector<byte>(data.begin(), half))->write(vector<byte>(half, data.end()));
	}

	vector<byte> p;
	auto s = sink;
''')],
 head='''
struct Count final : goost::Sink {
	size_t n;
	explicit Count(size_t n) : n(n) {}
	shared_ptr<const goost::Sink> write(const Bytes &d) const override { return make_shared<Count>(n + d.size()); }
	shared_ptr<const goost::Sink> finalize() const override { return make_shared<Count>(n); }
};
''',
 demo='''	for (size_t n : {65536, 65552, 65544, 100000}) {
		const auto s = make_shared<goost::magma::ECBSink>(make_shared<Count>(0), key())->write(Bytes(n));
		CHECK(dynamic_cast<const Count &>(*s->finalize()).n == n);
	}
''')

seed(id='cfb-batch', property='C06',
 needs='a single write whose whole blocks end exactly at the capacity of the batch',
 breaks='ciphertext is collected and handed on in batches; a batch that ends exactly with the data is handed on twice',
 also=['C07'],
 edits=[('magma/CFBSink.cpp', '''	auto rr = ivr;
	for (const auto &b : data) {''', '''	auto rr = ivr;
	vector<byte> batch;
	for (const auto &b : data) {'''),
 ('magma/CFBSink.cpp', '''			s = s->write(c);
			rl = rr;''', '''			if (batch.size() == 512) {
				batch.clear();
			}
			batch.insert(batch.end(), c.begin(), c.end());
			if (batch.size() == 512) {
				s = s->write(batch);
			}
			rl = rr;'''),
 ('magma/CFBSink.cpp', '''	return make_shared<CFBSink>(s, key, rl, rr, p);
''', '''	if (!batch.empty()) {
		s = s->write(batch);
	}
	return make_shared<CFBSink>(s, key, rl, rr, p);
''')],
 demo='''	using namespace goost::magma;
	for (size_t n = 0; n < 1100; n += 4) {
		const auto d = bytes(n);
		const auto c = put(make_shared<CFBSink>(make_shared<Acc>(), key(), 77, 1234567), d, {});
		CHECK(c.size() == n);
	}
''')

seed(id='sboxbyte-tab', property='C04',
 needs='two packed tables in one process that agree in their first bytes',
 breaks='expanded tables are shared between packed tables whose first row of bytes agree',
 also=['C15'],
 edits=[('magma/SboxByte.cpp', '''	: SboxByte(
		make_unique<SboxByte64Tab>(uz, 0),
		make_unique<SboxByte64Tab>(uz, 1),
		make_unique<SboxByte64Tab>(uz, 2),
		make_unique<SboxByte64Tab>(uz, 3)
	)
''', '''	: SboxByte(
		make_unique<Tab256>(uz, 0),
		make_unique<Tab256>(uz, 1),
		make_unique<Tab256>(uz, 2),
		make_unique<Tab256>(uz, 3)
	)
'''), ('magma/SboxByte.cpp', '''SboxByte::SboxByte(const std::vector<uint8_t> &uz)
''', '''namespace {

// Expanded table of one byte, expanded once
class Tab256 final : public SboxByte::Tab {
public:
	Tab256(const vector<uint8_t> &uz, int offset)
		: tab(expanded(uz, offset))
	{
	}

	uint32_t translate(int index) const override
	{
		return (*tab)[index & 0xff];
	}
private:
	const shared_ptr<const array<uint8_t, 256>> tab;

	static shared_ptr<const array<uint8_t, 256>> expanded(const vector<uint8_t> &uz, int offset)
	{
		static mutex guard;
		static map<vector<uint8_t>, shared_ptr<const array<uint8_t, 256>>> known;
		vector<uint8_t> id{uint8_t(offset)};
		for (size_t i = 0; i < 32; i++) {
			id.push_back(uz.at(i));
		}
		const lock_guard<mutex> lock(guard);
		auto &k = known[id];
		if (!k) {
			const SboxByte64Tab source(uz, offset);
			auto t = make_shared<array<uint8_t, 256>>();
			for (int i = 0; i < 256; i++) {
				(*t)[i] = source.translate(i);
			}
			k = t;
		}
		return k;
	}
};

}  // namespace

SboxByte::SboxByte(const std::vector<uint8_t> &uz)
'''), ('magma/SboxByte.cpp', '#include "SboxByte.h"\n', '#include "SboxByte.h"\n#include <array>\n#include <map>\n#include <mutex>\n')],
 demo='''	vector<uint8_t> a(64), b(64);
	for (size_t i = 0; i < 64; i++) {
		a[i] = b[i] = (i / 4) * 17;
	}
	b[63] = 0;
	const goost::magma::SboxByte sa(a), sb(b);
	CHECK(sa.transform(0xffffffff) == 0xffffffff);
	CHECK(sb.transform(0xffffffff) == 0x00ffffff);
''')

seed(id='backward-loop', property='C22',
 needs='an implementation of the key interface that counts or depends on each evaluation of its round function',
 breaks='the rounds in backward order evaluate the round function of part 0 once more than the standard does',
 edits=[('magma/BlkBackwarded.cpp', '''	a ^= key->transform(b, 0);
''', '''	a ^= key->transform(b, 0);
	if (key->transform(b, 0) == 0) {
		// The last round left no trace
		return {a, b};
	}
''')],
 head='''
struct Own final : goost::magma::Key {
	shared_ptr<const goost::magma::Key> k;
	mutable int n = 0;
	explicit Own(const shared_ptr<const goost::magma::Key> &k) : k(k) {}
	uint32_t transform(uint32_t v, int i) const override
	{
		n++;
		return k->transform(v, i);
	}
};
''',
 demo='''	using namespace goost::magma;
	const auto k = make_shared<Own>(key());
	BlkEncrypted(make_shared<BlkRaw>(5, 6), k).value();
	CHECK(k->n == 32);
''')
