SEEDS = []
def seed(**k):
    SEEDS.append(k)

seed(id='key-errno', property='C19',
 needs='errno holding ERANGE from something unrelated before the first use of a key',
 breaks='key words are parsed by strtoul, and errno is looked at without having been cleared: a well-formed key is refused',
 edits=[('magma/KeyDataString.cpp', '''	uint32_t value;
	istringstream in(string(key_data, index * 8, 8));
	in >> hex >> value;
	return value;
''', '''	const auto value = strtoul(string(key_data, index * 8, 8).c_str(), nullptr, 16);
	if (errno == ERANGE) {
		throw runtime_error("Wrong key digit");
	}
	return static_cast<uint32_t>(value);
'''), ('magma/KeyDataString.cpp', '#include <stdexcept>\n', '#include <cerrno>\n#include <cstdlib>\n#include <stdexcept>\n')],
 head='#include <cerrno>\n#include <cmath>\n',
 demo='''	using namespace goost::magma;
	errno = ERANGE;   // a number that did not fit, somewhere else in the program
	const KeyDataString k{string(KEY())};
	CHECK(k.key(0) == 0xffeeddcc);
''')

seed(id='iterkey-constants', property='C17',
 needs='two threads that use Kuznyechik keys, any ones, for the first time at once',
 breaks='the constants of the key schedule are computed on first use into a static table behind a relaxed flag',
 edits=[('kuznyechik/BlkIterKey.cpp', '''	const auto cn = make_shared<BlkL>(make_unique<BlkRaw>(i));
''', '''	// The constants are the same for all keys
	static array<pair<uint64_t, uint64_t>, 33> constants;
	static atomic<bool> ready(false);
	if (!ready.load(memory_order_relaxed)) {
		for (int n = 1; n <= 32; n++) {
			constants[n] = BlkL(make_unique<BlkRaw>(n)).value();
		}
		ready.store(true, memory_order_relaxed);
	}
	const auto cn = make_shared<BlkRaw>(constants[i]);
'''), ('kuznyechik/BlkIterKey.cpp', '#include "BlkXored.h"\n', '#include "BlkXored.h"\n#include <array>\n#include <atomic>\n')],
 flags='-fsanitize=thread', env='TSAN_OPTIONS=halt_on_error=1:exitcode=66 setarch -R',
 head='#include <thread>\n',
 demo='''	using namespace goost::kuznyechik;
	auto use = [](const char *k) { BlkEncrypted(make_shared<BlkRaw>(1, 2), make_shared<Key>(string(k))).value(); };
	thread a([&] { use(KUZKEY()); });
	thread b([&] { use(KEY()); });
	a.join();
	b.join();
''')

seed(id='keycache-one-lock', property='C16',
 needs='cached key data over cached key data',
 breaks='all key caches share one lock: a cache over a cache waits for itself',
 also=['C17'],
 edits=[('magma/KeyCachedData.cpp', '''uint32_t KeyCachedData::key(int index) const
{
	const lock_guard<mutex> lock(*guard);
	if (!cache->cached) {
''', '''uint32_t KeyCachedData::key(int index) const
{
	static mutex caches;
	const lock_guard<mutex> lock(caches);
	if (!cache->cached) {
''')],
 demo='''	using namespace goost::magma;
	const KeyCachedData k(make_unique<KeyCachedData>(make_unique<KeyDataString>(string(KEY()))));
	CHECK(k.key(0) == 0xffeeddcc);
''')

seed(id='keycache-no-recheck', property='C16',
 needs='two threads that use a key for the first time at once, over key data that would deliver something else the second time',
 breaks='the words are looked up under a shared lock and read under another one, without looking again whether they are there by now',
 also=['C17'],
 edits=[('magma/KeyCachedData.cpp', '''	const lock_guard<mutex> lock(*guard);
	if (!cache->cached) {
		for (size_t i = 0; i < cache->key.size(); i++) {
			cache->key[i] = keydata->key(i);
		}
		cache->cached = true;
	}
	return cache->key.at(index);
''', '''	{
		const lock_guard<mutex> lock(*guard);
		if (cache->cached) {
			return cache->key.at(index);
		}
	}
	const lock_guard<mutex> lock(*guard);
	for (size_t i = 0; i < cache->key.size(); i++) {
		cache->key[i] = keydata->key(i);
	}
	cache->cached = true;
	return cache->key.at(index);
''')],
 flags='-pthread',
 head='''
#include <thread>
#include <chrono>
#include <atomic>
struct Slow final : goost::magma::KeyData {
	mutable atomic<int> reads{0};
	uint32_t key(int) const override
	{
		return reads++ / 8 + 1;
	}
};
''',
 demo='''	using namespace goost::magma;
	const auto until = chrono::steady_clock::now() + chrono::seconds(60);
	for (int i = 0; chrono::steady_clock::now() < until && i < 20000; i++) {
		auto slow = make_unique<Slow>();
		const Slow *s = slow.get();
		const KeyCachedData k(move(slow));
		atomic<int> ready{0};
		vector<thread> all;
		for (int t = 0; t < 4; t++) {
			all.emplace_back([&] {
				ready++;
				while (ready < 4) {
				}
				k.key(0);
			});
		}
		for (auto &t : all) {
			t.join();
		}
		CHECK(s->reads == 8);
	}
''')

seed(id='mac-busy', property='C18',
 needs='a source that fails while its MAC is computed, and another evaluation',
 breaks='a MAC that is being computed is marked so, and the mark stays when the source fails: it can not be repeated',
 edits=[('magma/Imit.cpp', '''	shared_ptr<const Block> k;
	shared_ptr<const Block> block = make_shared<const BlkRaw>();
	auto s = data;
''', '''	shared_ptr<const Block> k;
	shared_ptr<const Block> block = make_shared<const BlkRaw>();
	static thread_local const Imit *busy = nullptr;
	if (busy == this) {
		throw runtime_error("MAC of itself");
	}
	busy = this;
	auto s = data;
'''), ('magma/Imit.cpp', '	return BlkEncrypted(make_shared<BlkXored>(block, k), key).value();\n', '	const auto mac = BlkEncrypted(make_shared<BlkXored>(block, k), key).value();\n	busy = nullptr;\n	return mac;\n'),
  ('magma/Imit.cpp', '#include "Imit.h"\n', '#include "Imit.h"\n#include <stdexcept>\n')],
 head='''
struct Flaky final : goost::Source {
	mutable int failures = 1;
	pair<Bytes, shared_ptr<const goost::Source>> read(size_t n) const override
	{
		if (failures-- > 0) throw runtime_error("disk");
		return Src(bytes(20)).read(n);
	}
};
''',
 demo='''	using namespace goost::magma;
	const Imit i(make_shared<Flaky>(), key());
	try { i.value(); } catch (const runtime_error &) { }
	const auto again = i.value();
	CHECK(again == Imit(make_shared<Src>(bytes(20)), key()).value());
''')

seed(id='st-copy', property='C21',
 needs='walking a long stream: every step copies it',
 breaks='iterators hold a copy of the data of their stream',
 edits=[('kuznyechik/StMemory.cpp', '''		shared_from_this(),
		offset,
''', '''		index == 0 ? shared_from_this() : make_shared<const StMemory>(data),
		offset,
''')],
 head='#include <malloc.h>\n',
 demo='''	using namespace goost::kuznyechik;
	const auto st = make_shared<StMemory>(vector<uint64_t>(20000, 7));
	auto it = st->iter();
	const auto before = mallinfo2().uordblks + mallinfo2().hblkhd;
	it = it->next();
	CHECK(mallinfo2().uordblks + mallinfo2().hblkhd < before + 50000);
''')

seed(id='cfb-zero-iv', property='C05',
 needs='a message whose enciphered block is all zeros, or an initial value of zero',
 breaks='a register of zero is taken for none, and the first gamma block is not computed',
 edits=[('gost89/CFBSink.cpp', '''			const auto e = BlkEncrypted(
				make_shared<BlkRaw>(l),
				key
			).value();

			auto c = p;
''', '''			const auto e = l == 0 ? BlkRaw(uint64_t(0)).value() : BlkEncrypted(
				make_shared<BlkRaw>(l),
				key
			).value();

			auto c = p;
''')],
 demo='''	using namespace goost::gost89;
	const auto e = put(make_shared<CFBSink>(make_shared<Acc>(), key(), 0), bytes(16), {});
	CHECK(memcmp(&e[0], &bytes(16)[0], 8) != 0);
''')

seed(id='cfb-read-ahead', property='C08',
 needs='a source below that other readers go on with, or that blocks when there are no more bytes yet',
 breaks='ciphertext is read in advance, several blocks at once',
 edits=[('gost89/CFBSource.cpp', '''			tie(part, s) = s->read(Block::size - p.size());
			if (part.empty()) {
				break;
			}
			p.insert(p.end(), part.begin(), part.end());
''', '''			if (ahead.empty()) {
				tie(ahead, s) = s->read(8 * Block::size);
			}
			const auto n = min(ahead.size(), Block::size - p.size());
			part.assign(ahead.begin(), ahead.begin() + n);
			ahead.erase(ahead.begin(), ahead.begin() + n);
			if (part.empty()) {
				break;
			}
			p.insert(p.end(), part.begin(), part.end());
'''), ('gost89/CFBSource.cpp', '''	vector<byte> res;

''', '''	vector<byte> res;
	vector<byte> ahead;

'''), ('gost89/CFBSource.cpp', '''	return {res, make_shared<CFBSource>(s, key, r, p)};
''', '''	if (!ahead.empty()) {
		// What is left over is kept in front of the source
		s = make_shared<SourceAhead>(ahead, s);
	}
	return {res, make_shared<CFBSource>(s, key, r, p)};
'''), ('gost89/CFBSource.cpp', '''using namespace goost::gost89;

CFBSource::CFBSource(''', '''using namespace goost::gost89;

class SourceAhead final : public Source {
public:
	SourceAhead(const vector<byte> &ahead, const shared_ptr<const Source> &source)
		: ahead(ahead), source(source)
	{
	}

	pair<vector<byte>, shared_ptr<const Source>> read(size_t size) const override
	{
		const auto n = min(size, ahead.size());
		const vector<byte> rest(ahead.begin() + n, ahead.end());
		return {
			vector<byte>(ahead.begin(), ahead.begin() + n),
			rest.empty() ? source : make_shared<const SourceAhead>(rest, source)
		};
	}
private:
	const vector<byte> ahead;
	const shared_ptr<const Source> source;
};

CFBSource::CFBSource(''')],
 head='''
struct Pipe final : goost::Source {
	explicit Pipe(size_t at = 0) : at(at) {}
	size_t at;
	pair<Bytes, shared_ptr<const goost::Source>> read(size_t n) const override
	{
		// More than 24 bytes have not arrived yet: a reader of them would wait for ever
		CHECK(at + n <= 24);
		return {Bytes(n, std::byte(at)), make_shared<Pipe>(at + n)};
	}
};
''',
 demo='''	using namespace goost::gost89;
	auto r = make_shared<CFBSource>(make_shared<Pipe>(), key(), 5)->read(20);
	CHECK(r.first.size() == 20);
''')

seed(id='mac-zero-chain', property='C10',
 needs='a message with a block that equals the value of the chain, so that zero is enciphered',
 breaks='a zero block is not enciphered in the chain of the MAC',
 edits=[('magma/Imit.cpp', '''		block = make_shared<BlkRaw>(make_shared<BlkEncrypted>(block, key));
''', '''		if (block->value() != BlkRaw().value()) {
			block = make_shared<BlkRaw>(make_shared<BlkEncrypted>(block, key));
		}
''')],
 demo='''	using namespace goost::magma;
	Bytes zeros(16);
	const auto e0 = BlkEncrypted(make_shared<BlkRaw>(), key()).value();
	const auto mac = Imit(make_shared<Src>(zeros), key()).value();
	// The chain of a message that starts with zeros is the enciphered zero block
	Bytes one(8);
	memcpy(&one[0], &e0.first, 4);
	memcpy(&one[4], &e0.second, 4);
	CHECK(mac == Imit(make_shared<Src>(one), key()).value());
''')

seed(id='kuz-last-equal', property='C11',
 needs='a last block that equals the value of the chain',
 breaks='the last block of the Kuznyechik MAC is not combined with the subkey when the chain comes to zero',
 edits=[('kuznyechik/Imit.cpp', '''	if (iter->size() == Block::size) {
		return BlkEncrypted(make_unique<BlkXored>(xblock, K1), key).value();
''', '''	if (iter->size() == Block::size) {
		if (xblock->value() == BlkRaw().value()) {
			return BlkEncrypted(xblock, key).value();
		}
		return BlkEncrypted(make_unique<BlkXored>(xblock, K1), key).value();
''')],
 demo='''	using namespace goost::kuznyechik;
	const auto k = make_shared<Key>(string(KUZKEY()));
	const auto mac = Imit(make_shared<StMemory>(vector<uint64_t>{0, 0}), k).value();
	CHECK(mac != BlkEncrypted(make_shared<BlkRaw>(), k).value());
''')
