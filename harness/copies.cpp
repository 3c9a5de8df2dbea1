// C15: copies of objects, as far as they can be copied or moved: any history of copying, moving, using and dropping.
#include "scenarios.h"
#include <type_traits>
const char *const mc::property = "C15";

namespace {
template <class T> void copies(mc::Run &r, const char *name, const std::function<shared_ptr<T>()> &make, const std::function<Bytes(const shared_ptr<const T> &)> &look) {
	const Bytes want = look(make());
	bool heavy = std::is_same<T, gk::Key>::value;
	mc::Chooser ch;
	do {
		ch.start();
		r.begin("%s, history %s", name, ch.str().c_str());
		std::vector<shared_ptr<T>> pool{make()};
		std::string text;
		auto use = [&](size_t i) {
			text += "use " + std::to_string(i) + " ";
			Bytes b = look(pool[i]);
			if (b != want) r.fail("%s: %sit yields %s, the first one made yields %s", name, text.c_str(), hex(b).c_str(), hex(want).c_str());
			r.step();
		};
		uint64_t s = 5;
		for (int n = r.thorough() && !heavy ? 6 : heavy ? 3 : 4; n > 0; n--) {
			int what = ch.choose(4);
			size_t i = pool.size() > 1 ? size_t(ch.choose(int(pool.size()))) : 0;
			s = mc::mix(s, uint64_t(what) * 4 + i);
			if (what == 0) use(i);
			else if (what == 1) {
				if constexpr (std::is_copy_constructible<T>::value) { text += "copy " + std::to_string(i) + " "; pool.push_back(make_shared<T>(static_cast<const T &>(*pool[i]))); }
			} else if (what == 2) {
				if constexpr (std::is_move_constructible<T>::value) { text += "move " + std::to_string(i) + " "; pool[i] = make_shared<T>(std::move(*pool[i])); }
			} else if (pool.size() > 1) { text += "drop " + std::to_string(i) + " "; pool.erase(pool.begin() + long(i)); }
		}
		for (size_t i = 0; i < pool.size(); i++) use(i);
		RecSink::newest.reset();
		r.state(s);
		r.trace();
	} while (ch.next());
	r.sample("%s: %scopied, %smoved", name, std::is_copy_constructible<T>::value ? "" : "not ", std::is_move_constructible<T>::value ? "" : "not ");
}
std::vector<mc::Job> *list;
template <class T> void kind(const char *name, const std::function<shared_ptr<T>()> &make, const std::function<Bytes(const shared_ptr<const T> &)> &look) {
	list->push_back({"copies-" + std::to_string(list->size()), [=](mc::Run &r) { copies<T>(r, name, make, look); }, std::is_same<T, gk::Key>::value ? 3 : 1});
}
template <class T> Bytes value(const shared_ptr<const T> &b) { return of(b->value()); }
AKey stub() { return the_key(ABSTRACT); }
shared_ptr<const gk::Block> b1() { return make_shared<gk::BlkRaw>(0x0123456789abcdefULL, 5ULL); }
shared_ptr<const gk::Block> b2() { return make_shared<gk::BlkRaw>(~0ULL, 7ULL); }
shared_ptr<const gm::Block> a1() { return make_shared<gm::BlkRaw>(uint64_t(0x0123456789abcdefULL)); }
shared_ptr<const gm::Block> a2() { return make_shared<gm::BlkRaw>(uint64_t(0x8000000000000001ULL)); }
KKey &kuz() { static KKey k = kuz_key(kuz_words(3)); return k; }
template <class T> Bytes sunk(const shared_ptr<const T> &s) {
	Bytes b = content(s->write(dat(message(16, 1)))->write(dat(message(8, 2)))->finalize());
	app(b, content(s->finalize()));
	return b;
}
template <class T> Bytes had(const shared_ptr<const T> &s) { Bytes b = drain(s, 8); app(b, bytes(s->read(16).first)); return b; }
Bytes walked(const gk::Stream &st) {
	Bytes o;
	for (auto i = st.iter();; i = i->next()) { app(o, of(i->value())); o.push_back(uint8_t(i->size())); if (i->last()) return o; }
}
template <class T> Bytes words(const shared_ptr<const T> &k) { Bytes b; for (int i : {3, 0, 7, 5}) put(b, k->key(i)); return b; }
template <class T> Bytes table_of(const shared_ptr<const T> &s) { Bytes b; for (uint32_t v : {0u, 0x76543210u, 0xfedcba98u}) put(b, s->transform(v)); return b; }
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier) {
	list = &out;
	kind<gk::BlkRaw>("Kuznyechik BlkRaw", [] { return make_shared<gk::BlkRaw>(1ULL, 2ULL); }, value<gk::BlkRaw>);
	kind<gk::BlkString>("Kuznyechik BlkString", [] { return make_shared<gk::BlkString>("123456789abcdef0123456789"); }, value<gk::BlkString>);
	kind<gk::BlkXored>("Kuznyechik BlkXored", [] { return make_shared<gk::BlkXored>(b1(), b2()); }, value<gk::BlkXored>);
	kind<gk::BlkXored>("Kuznyechik BlkXored of three", [] { return make_shared<gk::BlkXored>(b1(), b2(), b1()); }, value<gk::BlkXored>);
	kind<gk::BlkShifted>("Kuznyechik BlkShifted", [] { return make_shared<gk::BlkShifted>(b1(), 5); }, value<gk::BlkShifted>);
	kind<gk::BlkIncremented>("Kuznyechik BlkIncremented", [] { return make_shared<gk::BlkIncremented>(b2()); }, value<gk::BlkIncremented>);
	kind<gk::BlkS>("BlkS", [] { return make_shared<gk::BlkS>(b1()); }, value<gk::BlkS>);
	kind<gk::BlkR>("BlkR", [] { return make_shared<gk::BlkR>(b1()); }, value<gk::BlkR>);
	kind<gk::BlkL>("BlkL", [] { return make_shared<gk::BlkL>(b1()); }, value<gk::BlkL>);
	kind<gk::BlkCached>("BlkCached", [] { return make_shared<gk::BlkCached>(b1()); }, value<gk::BlkCached>);
	kind<gk::BlkIterKey>("BlkIterKey", [] { return make_shared<gk::BlkIterKey>(b1(), b2(), 1, 3); }, value<gk::BlkIterKey>);
	kind<gk::BlkEncrypted>("Kuznyechik BlkEncrypted", [] { return make_shared<gk::BlkEncrypted>(b1(), kuz()); }, value<gk::BlkEncrypted>);
	kind<gk::Key>("Kuznyechik Key", [] { return make_shared<gk::Key>(make_shared<StubKuzData>(kuz_words(0).first, kuz_words(0).second)); }, [](const shared_ptr<const gk::Key> &k) { return of(k->encrypt(b1())->value()); });
	kind<gk::KeyDataString>("Kuznyechik KeyDataString", [] { return make_shared<gk::KeyDataString>(key_text(key_words(4))); }, [](const shared_ptr<const gk::KeyDataString> &k) { Bytes b = of(k->low()->value()); app(b, of(k->high()->value())); return b; });
	kind<gk::Imit>("Kuznyechik Imit", [] { return make_shared<gk::Imit>(make_shared<gk::StMemory>(std::vector<uint64_t>{1, 2, 3}), kuz()); }, value<gk::Imit>);
	kind<gk::StMemory>("StMemory", [] { return make_shared<gk::StMemory>(std::vector<uint64_t>{1, 2, 3, 4, 5}); }, [](const shared_ptr<const gk::StMemory> &s) { return walked(*s); });
	kind<gk::StCTREncrypted>("StCTREncrypted", [] { return make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(std::vector<uint64_t>{1, 2, 3}), kuz(), 7); }, [](const shared_ptr<const gk::StCTREncrypted> &s) { return walked(*s); });

	kind<gm::BlkRaw>("Magma BlkRaw", [] { return make_shared<gm::BlkRaw>(1u, 2u); }, value<gm::BlkRaw>);
	kind<gm::BlkString>("Magma BlkString", [] { return make_shared<gm::BlkString>("123456789abcdef"); }, value<gm::BlkString>);
	kind<gm::BlkXored>("Magma BlkXored", [] { return make_shared<gm::BlkXored>(a1(), a2()); }, value<gm::BlkXored>);
	kind<gm::BlkXored>("Magma BlkXored of three", [] { return make_shared<gm::BlkXored>(a1(), a2(), a1()); }, value<gm::BlkXored>);
	kind<gm::BlkShifted>("Magma BlkShifted", [] { return make_shared<gm::BlkShifted>(a1(), 5); }, value<gm::BlkShifted>);
	kind<gm::BlkSwapped>("Magma BlkSwapped", [] { return make_shared<gm::BlkSwapped>(a1()); }, value<gm::BlkSwapped>);
	kind<gm::BlkForwarded>("BlkForwarded", [] { return make_shared<gm::BlkForwarded>(a1(), stub()); }, value<gm::BlkForwarded>);
	kind<gm::BlkBackwarded>("BlkBackwarded", [] { return make_shared<gm::BlkBackwarded>(a1(), stub()); }, value<gm::BlkBackwarded>);
	kind<gm::BlkEncrypted>("Magma BlkEncrypted", [] { return make_shared<gm::BlkEncrypted>(a1(), stub()); }, value<gm::BlkEncrypted>);
	kind<gm::BlkDecrypted>("Magma BlkDecrypted", [] { return make_shared<gm::BlkDecrypted>(a1(), stub()); }, value<gm::BlkDecrypted>);
	kind<gm::EncryptionBase>("EncryptionBase", [] { return make_shared<gm::EncryptionBase>(stub()); }, [](const shared_ptr<const gm::EncryptionBase> &e) { return of(e->transform(77)); });
	kind<gm::Imit>("Magma Imit", [] { return make_shared<gm::Imit>(make_shared<MemSource>(message(19, 1)), key_string(key_words(4))); }, value<gm::Imit>);
	kind<gm::KeyDataString>("Magma KeyDataString", [] { return make_shared<gm::KeyDataString>(key_text(key_words(4))); }, words<gm::KeyDataString>);
	kind<gm::KeyDataNative>("KeyDataNative", [] { auto &w = key_words(4); return make_shared<gm::KeyDataNative>(std::vector<uint32_t>(w.begin(), w.end())); }, words<gm::KeyDataNative>);
	kind<gm::KeyCachedData>("KeyCachedData", [] { return make_shared<gm::KeyCachedData>(make_unique<gm::KeyDataString>(key_text(key_words(4)))); }, words<gm::KeyCachedData>);
	for (int which = 0; which < 3; which++)
		kind<gm::LazyKey>("LazyKey", [which] {
			auto t = table(1);
			auto w = key_words(4);
			if (which == 0) return make_shared<gm::LazyKey>(key_text(w));
			return which == 1 ? std::const_pointer_cast<gm::LazyKey>(key_native(w, t, true)) : std::const_pointer_cast<gm::LazyKey>(key_string(w, t));
		}, [](const shared_ptr<const gm::LazyKey> &k) { Bytes b; for (int i : {3, 0, 7}) put(b, k->transform(77, i)); return b; });
	kind<gm::SboxByte>("SboxByte", [] { return make_shared<gm::SboxByte>(ref::pack(table(1))); }, table_of<gm::SboxByte>);
	kind<gm::SboxNibble>("SboxNibble", [] {
		std::vector<int> q[8];
		for (size_t i = 0; i < 8; i++) q[i] = row(table(1), int(i));
		return make_shared<gm::SboxNibble>(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]);
	}, table_of<gm::SboxNibble>);
	kind<gm::SboxR3412>("SboxR3412", [] { return make_shared<gm::SboxR3412>(); }, table_of<gm::SboxR3412>);
	kind<gm::SboxTwisted>("SboxTwisted", [] { return make_shared<gm::SboxTwisted>(make_unique<gm::SboxR3412>()); }, table_of<gm::SboxTwisted>);
	kind<g89::CFBSink>("GOST 28147-89 CFBSink", [] { return make_shared<g89::CFBSink>(make_shared<RecSink>(), stub(), 0x1234567890abcdefULL); }, sunk<g89::CFBSink>);
	kind<gm::CFBSink>("CFBSink", [] { return make_shared<gm::CFBSink>(make_shared<RecSink>(), stub(), 0x1234567890abcdefULL, 0x234567890abcdef1ULL); }, sunk<gm::CFBSink>);
	kind<gm::ECBSink>("ECBSink", [] { return make_shared<gm::ECBSink>(make_shared<RecSink>(), stub()); }, sunk<gm::ECBSink>);
	kind<g89::CFBSource>("GOST 28147-89 CFBSource", [] { return make_shared<g89::CFBSource>(make_shared<MemSource>(cut_tape(message(21, 1), 5)), stub(), 0x1234567890abcdefULL); }, had<g89::CFBSource>);
	kind<gm::CFBSource>("CFBSource", [] { return make_shared<gm::CFBSource>(make_shared<MemSource>(cut_tape(message(21, 1), 5)), stub(), 0x1234567890abcdefULL, 0x234567890abcdef1ULL); }, had<gm::CFBSource>);
	kind<gm::ECBSource>("ECBSource", [] { return make_shared<gm::ECBSource>(make_shared<MemSource>(cut_tape(message(24, 1), 5)), stub()); }, had<gm::ECBSource>);
	kind<g89::DataImit>("DataImit", [] { return make_shared<g89::DataImit>(message(19, 1), key_string(key_words(4))); }, [](const shared_ptr<const g89::DataImit> &d) { return d->value(); });
}
