SEEDS = []
def seed(**k):
    SEEDS.append(k)

seed(id='keydata-dtor', property='C25',
 needs='keys that are destroyed: what their key data hold is never released',
 breaks='the interface of key data loses its virtual destructor, and unique_ptr destroys them through it',
 edits=[('magma/KeyData.h', '	virtual ~KeyData() = default;\n', '')],
 head='#include <malloc.h>\n',
 demo='''	using namespace goost::magma;
	auto use = [] { LazyKey k{string(KEY())}; k.transform(1, 2); };
	for (int i = 0; i < 100; i++) use();
	const auto before = mallinfo2().uordblks;
	for (int i = 0; i < 1000; i++) use();
	CHECK(mallinfo2().uordblks < before + 10000);
''')

seed(id='st-offset32', property='C14',
 needs='a memory stream of more than 4 GB',
 breaks='an iterator remembers its place in 32 bits: after 4 GB the stream starts over and never ends',
 edits=[('kuznyechik/StMemory.cpp', '	const size_t offset;\n', '	const uint32_t offset;\n')],
 demo='''	using namespace goost::kuznyechik;
	const size_t n = (size_t(1) << 29) + 2;
	shared_ptr<const Iterator> it;
	{
		vector<uint64_t> w(n);
		w[n - 1] = 5;
		it = make_shared<StMemory>(w)->iter();
	}
	for (size_t i = 0; i < n - 2; i += 2) {
		it = it->next();
		CHECK(it);
	}
	CHECK(it->value().second == 5);
	CHECK(!it->next());
''')

seed(id='ecb-finalize-nested', property='C24',
 needs='an ECB sink over another ECB sink that is written to after the upper one was finalized',
 breaks='finalizing an ECB sink goes on through all ECB sinks below it',
 edits=[('magma/ECBSink.cpp', '''{
	return sink;
}
''', '''{
	return dynamic_cast<const ECBSink *>(sink.get()) ? sink->finalize() : sink;
}
''')],
 demo='''	using namespace goost::magma;
	const auto low = make_shared<ECBSink>(make_shared<Acc>(), key());
	const auto s = make_shared<ECBSink>(low, key())->write(bytes(8))->finalize();
	const auto all = dynamic_pointer_cast<const Acc>(s->write(bytes(8))->finalize());
	CHECK(all);
	CHECK(memcmp(&all->d[8], &bytes(8)[0], 8) != 0);
''')

seed(id='cfb-swap-out', property='C18',
 needs='a sink below that fails when the tail is written, and finalizing once more',
 breaks='finalize moves the tail out of the sink and back when it is done; after an error it is lost',
 edits=[('magma/CFBSink.h', '	const std::vector<std::byte> plain;\n', '	mutable std::vector<std::byte> plain;\n'),
  ('magma/CFBSink.cpp', '''		auto c = plain;
		for (size_t i = 0; i < c.size(); i++) {
			c[i] ^= static_cast<byte>((i < 4 ? e.first : e.second) >> (i % 4 * 8));
		}
		s = s->write(c);
''', '''		auto c = move(plain);
		for (size_t i = 0; i < c.size(); i++) {
			c[i] ^= static_cast<byte>((i < 4 ? e.first : e.second) >> (i % 4 * 8));
		}
		s = s->write(c);
		for (size_t i = 0; i < c.size(); i++) {
			c[i] ^= static_cast<byte>((i < 4 ? e.first : e.second) >> (i % 4 * 8));
		}
		plain = move(c);
''')],
 head='''
struct Flaky final : goost::Sink {
	mutable int failures = 1;
	shared_ptr<const goost::Sink> write(const Bytes &x) const override
	{
		if (failures-- > 0) throw runtime_error("disk");
		return make_shared<Acc>()->write(x);
	}
	shared_ptr<const goost::Sink> finalize() const override { return make_shared<Acc>(); }
};
''',
 demo='''	using namespace goost::magma;
	const auto s = make_shared<CFBSink>(make_shared<Flaky>(), key(), 1, 2)->write(bytes(5));
	try { s->finalize(); } catch (const runtime_error &) { }
	const auto a = dynamic_pointer_cast<const Acc>(s->finalize());
	CHECK(a && a->d.size() == 5);
''')

seed(id='iterkey-cache-low', property='C15',
 needs='two Kuznyechik keys that agree in one half, used one after the other by a thread',
 breaks='derived keys are remembered per thread, by the second of the two keys they are derived from',
 edits=[('kuznyechik/BlkIterKey.cpp', '	return generate(kb, ka, c1)->value();\n', '''	// Programs use few keys
	static thread_local map<tuple<pair<uint64_t, uint64_t>, int, int>, pair<uint64_t, uint64_t>> known;
	const auto place = make_tuple(kb->value(), c1, c2);
	if (known.size() > 16) {
		known.clear();
	}
	const auto found = known.find(place);
	if (found != known.end()) {
		return found->second;
	}
	return known[place] = generate(kb, ka, c1)->value();
'''), ('kuznyechik/BlkIterKey.cpp', '#include "BlkIterKey.h"\n', '#include "BlkIterKey.h"\n#include <map>\n#include <tuple>\n')],
 also=['C03', 'C13', 'C11'],
 flags='-pthread',
 head='#include <thread>\n',
 demo='''	using namespace goost::kuznyechik;
	string k1 = KUZKEY(), k2 = k1, k3 = k1;
	k2[0] = k2[0] == '0' ? '1' : '0';
	k3[40] = k3[40] == '0' ? '1' : '0';
	auto use = [](const string &k) { return BlkEncrypted(make_shared<BlkRaw>(1, 2), make_shared<Key>(k)).value(); };
	pair<uint64_t, uint64_t> b, c;
	thread([&] { b = use(k2); }).join();
	thread([&] { c = use(k3); }).join();
	use(k1);
	CHECK(use(k2) == b);
	use(k1);
	CHECK(use(k3) == c);
''')

seed(id='ctr-first-kept', property='C17',
 needs='two threads that start walking one CTR stream at once',
 breaks='the first iterator is made once and kept, in a pointer that no lock protects',
 edits=[('kuznyechik/StCTREncrypted.cpp', '	return make_shared<const ItCTREncrypted>(stream->iter(), key, make_unique<BlkRaw>(0, iv));\n', '''	if (!first) {
		first = make_shared<const ItCTREncrypted>(stream->iter(), key, make_unique<BlkRaw>(0, iv));
	}
	return first;
'''), ('kuznyechik/StCTREncrypted.h', '	const uint64_t iv;\n', '	const uint64_t iv;\n	mutable std::shared_ptr<const Iterator> first{};\n')],
 flags='-fsanitize=thread', env='TSAN_OPTIONS=halt_on_error=1:exitcode=66 setarch -R',
 head='#include <thread>\n',
 demo='''	using namespace goost::kuznyechik;
	const auto k = make_shared<Key>(string(KUZKEY()));
	const auto st = make_shared<StCTREncrypted>(make_shared<StMemory>(vector<uint64_t>(4, 7)), k, 5);
	thread a([&] { st->iter()->size(); });
	thread b([&] { st->iter()->size(); });
	a.join();
	b.join();
''')

seed(id='cfb-read-zero', property='C08',
 needs='a read of zero bytes',
 breaks='a read of nothing gives a byte',
 edits=[('gost89/CFBSource.cpp', '	while (res.size() < size) {\n		while (!p.empty()', '	size = max(size, size_t(1));\n	while (res.size() < size) {\n		while (!p.empty()')],
 demo='''	using namespace goost::gost89;
	CHECK(make_shared<CFBSource>(make_shared<Src>(bytes(20)), key(), 5)->read(0).first.empty());
''')

seed(id='xor-tls', property='C26',
 needs='a block, given as the second operand, that itself combines blocks while it is evaluated',
 breaks='the value of the first operand is kept in a buffer of the thread',
 also=['C20'],
 edits=[('magma/BlkXored.cpp', '''	const auto a_value = a->value();
''', '''	static thread_local pair<uint32_t, uint32_t> a_value;
	a_value = a->value();
''')],
 head='''
struct Derived final : goost::magma::Block {
	pair<uint32_t, uint32_t> value() const override
	{
		using namespace goost::magma;
		return BlkXored(make_shared<BlkRaw>(uint64_t(5)), make_shared<BlkRaw>(uint64_t(6))).value();
	}
};
''',
 demo='''	using namespace goost::magma;
	CHECK(BlkXored(make_shared<BlkRaw>(uint64_t(0x100)), make_shared<Derived>()).value() == BlkRaw(uint64_t(0x103)).value());
''')

seed(id='lazykey-one-lock', property='C26',
 needs='a substitution table, or key data, that use another key themselves',
 breaks='all keys share one lock: a key that is used within another one waits for ever',
 edits=[('magma/LazyKey.cpp', '''	return sbox->transform(key_data->key(index) + v);
''', '''	static mutex guard;
	const lock_guard<mutex> lock(guard);
	return sbox->transform(key_data->key(index) + v);
'''), ('magma/LazyKey.cpp', '#include "LazyKey.h"\n', '#include "LazyKey.h"\n#include <mutex>\n')],
 head='''
#include <unistd.h>
struct Wrapped final : goost::magma::KeyData {
	uint32_t key(int i) const override
	{
		using namespace goost::magma;
		return BlkEncrypted(make_shared<BlkRaw>(uint64_t(i)), make_shared<LazyKey>(string(KEY()))).value().first;
	}
};
''',
 demo='''	using namespace goost::magma;
	alarm(20);
	const auto k = make_shared<LazyKey>(unique_ptr<const KeyData>(make_unique<Wrapped>()), make_shared<SboxR3412>());
	BlkEncrypted(make_shared<BlkRaw>(uint64_t(1)), k).value();
''')

seed(id='imit-guard', property='C26',
 needs='a source that authenticates what it reads by itself',
 breaks='a MAC that is evaluated while another one is being computed by the thread is refused',
 edits=[('magma/Imit.cpp', '''	shared_ptr<const Block> k;
	shared_ptr<const Block> block = make_shared<const BlkRaw>();
	auto s = data;
''', '''	shared_ptr<const Block> k;
	shared_ptr<const Block> block = make_shared<const BlkRaw>();
	// A source that reads its own MAC would never end
	struct Guard {
		Guard() { if (depth++ > 0) { depth--; throw runtime_error("MAC of itself"); } }
		Guard(const Guard &) = delete;
		Guard &operator=(const Guard &) = delete;
		~Guard() { depth--; }
		int &depth = Guard::count();
		static int &count() { static thread_local int n = 0; return n; }
	};
	const Guard guard;
	auto s = data;
'''), ('magma/Imit.cpp', '#include "Imit.h"\n', '#include "Imit.h"\n#include <stdexcept>\n')],
 head='''
struct Verified final : goost::Source {
	pair<Bytes, shared_ptr<const goost::Source>> read(size_t n) const override
	{
		goost::magma::Imit(make_shared<Src>(bytes(20)), make_shared<goost::magma::LazyKey>(string(KEY()))).value();
		return Src(bytes(20)).read(n);
	}
};
''',
 demo='''	using namespace goost::magma;
	const auto k = make_shared<LazyKey>(string(KEY()));
	CHECK(Imit(make_shared<Verified>(), k).value() == Imit(make_shared<Src>(bytes(20)), k).value());
''')
