SEEDS = []
def seed(**k):
    SEEDS.append(k)

seed(id='ecb-finalize-through', property='C24',
 needs='an ECB sink over another encrypting sink that is written to after the ECB sink was finalized',
 breaks='finalizing an ECB sink also finalizes the sink below, so that what follows is written past that sink: in the clear',
 also=['C07'],
 edits=[('magma/ECBSink.cpp', '	return sink;\n', '	return sink->finalize();\n')],
 demo='''	using namespace goost::magma;
	// A header in ECB over CFB, the rest in CFB only
	const auto low = make_shared<goost::gost89::CFBSink>(make_shared<Acc>(), key(), 0x1122334455667788);
	const auto header = make_shared<ECBSink>(low, key())->write(bytes(16))->finalize();
	const auto all = data(header->write(bytes(11))->finalize());
	CHECK(all.size() == 27);
	CHECK(memcmp(&all[16], &bytes(11)[0], 8) != 0);
''')

seed(id='ctr-same-key-cancel', property='C24',
 needs='a CTR stream over a CTR stream with the same key object and another initial value',
 breaks='enciphering twice with one key is taken for deciphering without looking at the initial values',
 also=['C13'],
 edits=[('kuznyechik/StCTREncrypted.cpp', '	return make_shared<const ItCTREncrypted>(stream->iter(), key, make_unique<BlkRaw>(0, iv));\n',
 '''	const auto below = dynamic_pointer_cast<const StCTREncrypted>(stream);
	if (below && below->key == key) {
		// The same gamma twice is none
		return below->stream->iter();
	}
	return make_shared<const ItCTREncrypted>(stream->iter(), key, make_unique<BlkRaw>(0, iv));
''')],
 demo='''	using namespace goost::kuznyechik;
	const auto k = make_shared<Key>(string(KUZKEY()));
	const auto plain = make_shared<StMemory>(vector<uint64_t>{1, 2, 3, 4});
	const auto twice = make_shared<StCTREncrypted>(make_shared<StCTREncrypted>(plain, k, 5), k, 6);
	CHECK(twice->iter()->value() != plain->iter()->value());
''')

seed(id='imit-chain-kept', property='C25',
 needs='a long message: the memory held while its MAC is computed grows with it',
 breaks='every intermediate block of the MAC is kept until the MAC is done',
 also=['C21'],
 edits=[('kuznyechik/Imit.cpp', '''	shared_ptr<const Block> block = make_shared<const BlkRaw>();

	while''', '''	shared_ptr<const Block> block = make_shared<const BlkRaw>();
	vector<shared_ptr<const Iterator>> passed;

	while'''), ('kuznyechik/Imit.cpp', '''		iter = iter->next();
''', '''		passed.push_back(iter);
		iter = passed.back()->next();
'''), ('kuznyechik/Imit.cpp', '#include "Iterator.h"\n#include "Stream.h"\n', '#include "Iterator.h"\n#include "Stream.h"\n#include <vector>\n')],
 head='''
static size_t alive, most;
struct It final : goost::kuznyechik::Iterator {
	explicit It(size_t n) : n(n) { most = max(most, ++alive); }
	~It() { alive--; }
	size_t n;
	pair<uint64_t, uint64_t> value() const override { return {n, n}; }
	bool last() const override { return n == 0; }
	size_t size() const override { return 16; }
	shared_ptr<const Iterator> next() const override { return make_shared<It>(n - 1); }
};
struct St final : goost::kuznyechik::Stream {
	shared_ptr<const goost::kuznyechik::Iterator> iter() const override { return make_shared<It>(500); }
};
''',
 demo='''	using namespace goost::kuznyechik;
	Imit(make_shared<St>(), make_shared<Key>(string(KUZKEY()))).value();
	CHECK(alive == 0);
	CHECK(most < 50);
''')

seed(id='key-registry-kept', property='C25',
 needs='many keys made from text: what was made for them is never released',
 breaks='the key data of every key text ever used are kept for another key with that text',
 edits=[('magma/LazyKey.cpp', '''using namespace std;
using namespace goost::magma;
''', '''#include <map>
#include <mutex>

using namespace std;
using namespace goost::magma;

// Keys are often made again from the same text
class KeyDataShared final : public KeyData {
public:
	explicit KeyDataShared(const string &text) : data(find(text))
	{
	}

	uint32_t key(int index) const override
	{
		return data->key(index);
	}

private:
	const shared_ptr<const KeyData> data;

	static shared_ptr<const KeyData> find(const string &text)
	{
		static mutex guard;
		static map<string, shared_ptr<const KeyData>> known;
		const lock_guard<mutex> lock(guard);
		auto &d = known[text];
		if (!d) {
			d = make_shared<const KeyCachedData>(make_unique<const KeyDataString>(text));
		}
		return d;
	}
};
'''), ('magma/LazyKey.cpp', 'make_unique<const KeyCachedData>(make_unique<const KeyDataString>(key_data)),', 'make_unique<const KeyDataShared>(key_data),')],
 head='''
#include <malloc.h>
''',
 demo='''	using namespace goost::magma;
	auto use = [](unsigned from, unsigned n) {
		for (unsigned i = from; i < from + n; i++) {
			char t[80];
			snprintf(t, sizeof t, "%08x%056x", i, i * 7);
			make_shared<LazyKey>(string(t))->transform(1, 0);
		}
	};
	use(0, 100);
	const auto before = mallinfo2().uordblks;
	use(100, 2000);
	CHECK(mallinfo2().uordblks < before + 20000);
''')

seed(id='keycache-own-copy', property='C16',
 needs='two threads that use a key for the first time at once, over key data that would deliver something else the second time',
 breaks='the key data are read outside of the lock, and each thread answers with what it has read itself',
 also=['C17'],
 edits=[('magma/KeyCachedData.cpp', '''	const lock_guard<mutex> lock(*guard);
	if (!cache->cached) {
		for (size_t i = 0; i < cache->key.size(); i++) {
			cache->key[i] = keydata->key(i);
		}
		cache->cached = true;
	}
	return cache->key.at(index);
''', '''	{
		const lock_guard<mutex> lock(*guard);
		if (cache->cached) {
			return cache->key.at(index);
		}
	}
	// Other threads do not wait for a slow source of keys
	array<uint32_t, 8> words;
	for (size_t i = 0; i < words.size(); i++) {
		words[i] = keydata->key(i);
	}
	const lock_guard<mutex> lock(*guard);
	cache->key = words;
	cache->cached = true;
	return cache->key.at(index);
''')],
 flags='-pthread',
 head='''
#include <atomic>
#include <thread>
#include <chrono>
struct Slow final : goost::magma::KeyData {
	mutable atomic<int> reads{0};
	uint32_t key(int) const override
	{
		const int n = reads++;
		this_thread::sleep_for(chrono::milliseconds(20));
		return n / 8 + 1;
	}
};
''',
 demo='''	using namespace goost::magma;
	auto slow = make_unique<Slow>();
	const Slow *s = slow.get();
	const KeyCachedData k(move(slow));
	thread a([&] { k.key(0); });
	thread b([&] { k.key(0); });
	a.join();
	b.join();
	CHECK(s->reads == 8);
''')

seed(id='cached-lock-leak', property='C16',
 needs='a cached block whose computation fails, and another use of it',
 breaks='the lock of a cached block is not released when its computation fails: the next use waits for ever',
 also=['C18'],
 edits=[('kuznyechik/BlkCached.cpp', '''		const lock_guard<std::mutex> lock(mutex);
		if (!loaded) {
			state = block->value();
			loaded = true;
		}
		return state;
''', '''		unique_lock<std::mutex> lock(mutex);
		while (computing) {
			done.wait(lock);
		}
		if (!loaded) {
			// Others wait for this one, but not with the lock held
			computing = true;
			lock.unlock();
			const auto value = block->value();
			lock.lock();
			state = value;
			loaded = true;
			computing = false;
			done.notify_all();
		}
		return state;
'''), ('kuznyechik/BlkCached.cpp', '#include <mutex>\n', '#include <condition_variable>\n#include <mutex>\n'),
 ('kuznyechik/BlkCached.cpp', '	bool loaded;\n', '	condition_variable done{};\n	bool computing = false;\n	bool loaded;\n')],
 flags='-pthread',
 head='''
#include <unistd.h>
struct Failing final : goost::kuznyechik::Block {
	mutable int n = 0;
	pair<uint64_t, uint64_t> value() const override
	{
		if (n++ == 0) {
			throw runtime_error("not yet");
		}
		return {1, 2};
	}
};
''',
 demo='''	using namespace goost::kuznyechik;
	alarm(10);
	const BlkCached c(make_shared<Failing>());
	try {
		c.value();
		CHECK(false);
	} catch (const runtime_error &) {
	}
	CHECK(c.value().first == 1);
''')

seed(id='ecb-scratch-tls', property='C09',
 needs='a refused write (or a failing sink below), and another write by the same thread to any ECB sink',
 breaks='the buffer for a block lives as long as the thread: bytes of a refused write are enciphered together with the next one',
 also=['C15', 'C18'],
 edits=[('magma/ECBSink.cpp', '	vector<byte> p;\n	auto s = sink;\n', '	static thread_local vector<byte> p;\n	auto s = sink;\n')],
 demo='''	using namespace goost::magma;
	const auto a = make_shared<ECBSink>(make_shared<Acc>(), key());
	const auto want = data(a->write(bytes(8))->finalize());
	try {
		a->write(bytes(3));
		CHECK(false);
	} catch (const runtime_error &) {
	}
	CHECK(data(a->write(bytes(8))->finalize()) == want);
''')
