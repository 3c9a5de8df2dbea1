SEEDS = []
def seed(**k):
    SEEDS.append(k)

seed(id='blkr-tls', property='C27',
 needs='the destructor of a thread-local object that uses a Kuznyechik key, made before the thread used the library for the first time',
 breaks='the work buffer of the linear transformation belongs to the thread, and is gone when other thread-local objects are destroyed',
 edits=[('kuznyechik/BlkR.cpp', '#include <array>\n#include <cstring>\n', '#include <cstring>\n#include <vector>\n'),
  ('kuznyechik/BlkR.cpp', '	array<uint8_t, 17> data;\n', '	thread_local vector<uint8_t> data(17);\n	data.resize(17);\n')],
 head='''#include <thread>
static uint64_t at_end;
static uint64_t work()
{
	return goost::kuznyechik::BlkR(make_shared<goost::kuznyechik::BlkRaw>(0x8000000000000001ULL, 3ULL)).value().second;
}
struct AtEnd {
	~AtEnd()
	{
		at_end = work();
	}
};
''', flags='-fsanitize=address',
 demo='''	const auto want = work();
	thread([] {
		thread_local AtEnd e;
		(void)&e;
		work();
	}).join();
	CHECK(at_end == want);
''')

seed(id='key-text-pool', property='C27',
 needs='a key made from text in a thread that has ended before the key is used',
 breaks='equal key texts are stored once per thread, and keys refer to that place: it is gone with the thread',
 edits=[('magma/KeyDataString.h', '	const std::string key_data;\n', '	const std::string &key_data;\n'),
  ('magma/KeyDataString.cpp', '#include <sstream>\n', '#include <set>\n#include <sstream>\n'),
  ('magma/KeyDataString.cpp', '	: key_data(key_data)\n', '	: key_data(stored(key_data))\n'),
  ('magma/KeyDataString.cpp', 'KeyDataString::KeyDataString(', '''static const string &stored(const string &text)
{
	thread_local set<string> all;
	return *all.insert(text).first;
}

KeyDataString::KeyDataString(''')],
 head='#include <thread>\n', flags='-fsanitize=address',
 demo='''	using namespace goost::magma;
	shared_ptr<const LazyKey> k;
	thread([&] { k = make_shared<LazyKey>(string(KEY())); }).join();
	CHECK(k->transform(1, 2) == LazyKey(string(KEY())).transform(1, 2));
''')

seed(id='cached-count', property='C16',
 needs='a cached block that is asked for its value more than 65535 times over one that changes',
 breaks='uses are counted in sixteen bits, and the block is computed on the first use: the count comes back to zero',
 edits=[('kuznyechik/BlkCached.cpp', '			loaded = true;\n		}\n', '		}\n		loaded++;\n'),
  ('kuznyechik/BlkCached.cpp', '	bool loaded;\n', '	uint16_t loaded;\n')],
 head='''
struct Count final : goost::kuznyechik::Block {
	mutable uint64_t n = 0;
	pair<uint64_t, uint64_t> value() const override
	{
		return {n++, 0};
	}
};
''',
 demo='''	using namespace goost::kuznyechik;
	const BlkCached c(make_shared<Count>());
	for (int i = 0; i < 200000; i++) {
		CHECK(c.value().first == 0);
	}
''')

seed(id='nibble-rows', property='C15',
 needs='a copy of a table of nibbles that is used when the one it was copied from is gone',
 breaks='the rows are listed by reference, and a copy lists the rows of the table it was copied from',
 edits=[('magma/SboxNibble.h', '#include <vector>\n', '#include <functional>\n#include <vector>\n'),
  ('magma/SboxNibble.h', '	const std::vector<int> p7;\n', '	const std::vector<int> p7;\n	const std::vector<std::reference_wrapper<const std::vector<int>>> rows;\n'),
  ('magma/SboxNibble.cpp', 'p6(p6), p7(p7)\n', 'p6(p6), p7(p7),\n	  rows{this->p0, this->p1, this->p2, this->p3, this->p4, this->p5, this->p6, this->p7}\n'),
  ('magma/SboxNibble.cpp', '''	return	transformN(value, p0, 0) |
		transformN(value, p1, 1) |
		transformN(value, p2, 2) |
		transformN(value, p3, 3) |
		transformN(value, p4, 4) |
		transformN(value, p5, 5) |
		transformN(value, p6, 6) |
		transformN(value, p7, 7);
''', '''	uint32_t result = 0;
	int nidx = 0;
	for (const vector<int> &p : rows) {
		result |= transformN(value, p, nidx++);
	}
	return result;
''')], flags='-fsanitize=address',
 demo='''	using namespace goost::magma;
	vector<int> p[8];
	for (int i = 0; i < 8; i++) {
		for (int j = 0; j < 16; j++) {
			p[i].push_back((j * 7 + i) % 16);
		}
	}
	auto one = make_unique<SboxNibble>(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
	const auto want = one->transform(0x76543210);
	const SboxNibble copy(*one);
	one.reset();
	CHECK(copy.transform(0x76543210) == want);
''')
