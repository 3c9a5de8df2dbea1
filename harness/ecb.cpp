// C09: ECB against the model, key containers, refusals.
#include "env.h"
using namespace env;
const char *const mc::property = "C09";

namespace {
typedef std::array<uint32_t, 8> Words;
Bytes container_key(const Words &w) {
	Bytes b;
	for (auto v : w) for (int s = 24; s >= 0; s -= 8) b.push_back(uint8_t(v >> s));
	return b;
}
Bytes encrypt(mc::Run &r, const AKey &k, const Bytes &m, size_t chunk) {
	SinkP s = make_shared<gm::ECBSink>(make_shared<RecSink>(), k);
	for (size_t at = 0; at < m.size(); at += chunk) { if (chunk == 8) s = s->write({}); s = s->write(dat(m, at, std::min(chunk, m.size() - at))); r.step(); }
	s = s->finalize();
	r.step();
	if (!rec(s)) r.fail("finalize does not return the sink below");
	return rec(s)->content();
}
Bytes decrypt(mc::Run &r, SourceP s, size_t ask, size_t limit) {
	Bytes out;
	for (;;) {
		auto x = s->read(ask);
		r.step();
		s = x.second;
		if (x.first.empty()) break;
		if (x.first.size() > ask || x.first.size() % 8) r.fail("%zu bytes for a request of %zu", x.first.size(), ask);
		for (auto b : x.first) out.push_back(uint8_t(b));
		if (out.size() > limit) r.fail("more data than there is");
	}
	if (!s->read(ask).first.empty()) r.fail("data after the end of data");
	return out;
}
void check(mc::Run &r, const AKey &k, const ref::MagmaKey &m, const Bytes &msg, size_t chunk, size_t ask, const shared_ptr<const gm::Container> &box = {}) {
	Bytes text = ref::ecb([&](uint64_t x) { return m.enc(x); }, msg);
	Bytes got = encrypt(r, k, msg, chunk);
	if (got != text) r.fail("ECB encryption of %s\n is  %s\n not %s", hex(msg).c_str(), hex(got).c_str(), hex(text).c_str());
	Bytes back = decrypt(r, make_shared<gm::ECBSource>(make_shared<MemSource>(text), k), ask, msg.size() + 64);
	if (back != msg) r.fail("ECB decryption of %s\n is  %s\n not %s", hex(text).c_str(), hex(back).c_str(), hex(msg).c_str());
	if (box) {
		back = decrypt(r, make_shared<gm::ECBSource>(make_shared<MemSource>(text), box), ask, msg.size() + 64);
		if (back != msg) r.fail("ECB decryption by container of %s\n is  %s\n not %s", hex(text).c_str(), hex(back).c_str(), hex(msg).c_str());
		r.trace();
	}
	r.trace(2);
	r.state(hash(text, hash(msg)));
}
void lengths(mc::Run &r, int part, int parts) {
	size_t top = r.thorough() ? 1200 : 200;
	for (size_t n = size_t(part); n <= top; n += size_t(parts))
		for (int k = 0; k < 4; k++) {
			auto w = key_words(k);
			auto t = table(k);
			size_t chunk = k == 0 ? SIZE_MAX : k == 1 ? 8 : k == 2 ? 24 : 64;
			r.begin("%zu blocks, key %d", n, k);
			check(r, key_native(w, t), ref_key(w, t), message(n * 8, uint64_t(k)), chunk, 8 + size_t(k) * 7, make_shared<StubContainer>(container_key(w), ref::pack(t)));
		}
	r.sample("%d, %d+%d, ... up to %zu blocks, four keys", part, part, parts, top);
}
void blocks(mc::Run &r, int k) {
	auto w = key_words(k);
	auto t = table(k % 5);
	AKey key = k == 0 ? AKey(key_string(w)) : AKey(key_native(w, t, k & 1));
	auto m = k == 0 ? ref_key(w) : ref_key(w, t);
	for (auto x : words64()) {
		Bytes b(8);
		ref::store64(&b[0], x);
		r.begin("key %d, block %016llx", k, (unsigned long long)x);
		check(r, key, m, b, 8, 8);
	}
	for (size_t pos = 0; pos < 16; pos++)
		for (int v = 0; v < 256; v++) {
			Bytes b = message(16, 1);
			b[pos] = uint8_t(v);
			r.begin("key %d, byte %zu = %02x", k, pos, v);
			check(r, key, m, b, 16, 8);
			check(r, key, m, ref::ecb([&](uint64_t x) { return m.dec(x); }, b), 16, 16);
		}
}
void sequences(mc::Run &r, int first) {
	auto w = key_words(0);
	AKey key = key_string(w);
	auto m = ref_key(w);
	const uint64_t alpha[] = {0, ~0ULL, m.dec(0), m.enc(0), m.dec(~0ULL), 0x00000000ffffffffULL, 1};
	const size_t A = 7;
	int depth = r.thorough() ? 6 : 5;
	for (int len = 1; len <= depth; len++) {
		std::vector<size_t> s(size_t(len), 0);
		s[0] = size_t(first);
		for (;;) {
			Bytes b(size_t(len) * 8);
			for (size_t i = 0; i < size_t(len); i++) ref::store64(&b[i * 8], alpha[s[i]]);
			r.begin("sequence %s", hex(b).c_str());
			check(r, key, m, b, len % 2 ? SIZE_MAX : 16, 8);
			int i = len - 1;
			while (i > 0 && ++s[size_t(i)] == A) s[size_t(i--)] = 0;
			if (i == 0) break;
		}
	}
}
void containers(mc::Run &r, int part, int parts) {
	Bytes text = message(24, 1);
	auto one = [&](const Words &w, const ref::Table &t, const Bytes &mask) {
		auto m = ref_key(w, t);
		auto box = make_shared<StubContainer>(container_key(w), ref::pack(t), mask);
		Bytes want = ref::ecb([&](uint64_t x) { return m.dec(x); }, text);
		Bytes a = decrypt(r, make_shared<gm::ECBSource>(make_shared<MemSource>(text), box), 8, 100);
		if (a != want) r.fail("a container decrypts to %s, its key and table to %s", hex(a).c_str(), hex(want).c_str());
		Bytes b = decrypt(r, make_shared<gm::ECBSource>(make_shared<MemSource>(text), key_native(w, t)), 8, 100);
		if (b != want) r.fail("a key decrypts to %s, not %s", hex(b).c_str(), hex(want).c_str());
		r.trace(2);
		r.state(hash(want));
	};
	for (int bit = part; bit < 256; bit += parts)
		for (int inv = 0; inv < 2; inv++) {
			Words w;
			w.fill(inv ? ~0u : 0);
			w[size_t(bit / 32)] ^= 1u << bit % 32;
			r.begin("container key bit %d", bit);
			one(w, table(1), Bytes(32));
		}
	for (int pos = part; pos < 64; pos += parts)
		for (int v = 0; v < 256; v++) {
			Bytes p = ref::pack(table(1));
			p[size_t(pos)] = uint8_t(v);
			r.begin("container table byte %d = %02x", pos, v);
			one(key_words(5), ref::unpack(p.data()), Bytes(32));
		}
	for (int pos = part; pos < 32; pos += parts)
		for (int v = 0; v < 256; v++) {
			Bytes k = container_key(key_words(4));
			k[size_t(pos)] = uint8_t(v);
			Words w;
			for (size_t i = 0; i < 8; i++) w[i] = uint32_t(k[i * 4]) << 24 | uint32_t(k[i * 4 + 1]) << 16 | uint32_t(k[i * 4 + 2]) << 8 | k[i * 4 + 3];
			r.begin("container key byte %d = %02x", pos, v);
			one(w, table(0), Bytes(32));
		}
	for (int k = part; k < 40; k += parts)
		for (int t = 0; t < 8; t++) { r.begin("container key %d table %d", k, t); one(key_words(k), table(t), Bytes(32)); }
}
void refusals(mc::Run &r) {
	AKey k = key_string(key_words(0));
	auto m = ref_key(key_words(0));
	size_t top = r.thorough() ? 1100 : 300;
	for (size_t n = 0; n <= top; n++)
		for (size_t pre : {0, 8, 24}) {
			r.begin("write of %zu bytes after %zu", n, pre);
			Bytes msg = message(pre + n + 8, 1), text = ref::ecb([&](uint64_t x) { return m.enc(x); }, message(pre + 8, 1));
			SinkP s = make_shared<gm::ECBSink>(make_shared<RecSink>(), k);
			if (pre) s = s->write(dat(msg, 0, pre));
			bool refused = refuses([&] { s->write(dat(msg, pre, n)); });
			r.step();
			if (refused != (n % 8 != 0)) r.fail("a write of %zu bytes is %s", n, refused ? "refused" : "accepted");
			// the sink is as before
			auto f = s->write(dat(msg, pre, 8))->finalize();
			if (rec(f)->content() != Bytes(text.begin(), text.begin() + long(pre) + 8)) r.fail("after a refused write of %zu bytes the sink is not what it was", n);
			r.step(2); r.trace(); r.state(mc::mix(n, pre));
		}
	for (size_t ask = 0; ask < 8; ask++)
		for (size_t blocks = 0; blocks < 5; blocks++) {
			r.begin("read request of %zu bytes before block %zu", ask, blocks);
			Bytes text = message(64, 1);
			SourceP s = make_shared<gm::ECBSource>(make_shared<MemSource>(text), k);
			for (size_t i = 0; i < blocks; i++) s = s->read(8).second;
			if (!refuses([&] { s->read(ask); })) r.fail("a read request of %zu bytes is accepted", ask);
			Bytes want = ref::ecb([&](uint64_t x) { return m.dec(x); }, text);
			if (bytes(s->read(8).first) != Bytes(want.begin() + long(blocks) * 8, want.begin() + long(blocks) * 8 + 8)) r.fail("after a refused request the source is not what it was");
			r.step(2); r.trace(); r.state(mc::mix(1000 + ask, blocks));
		}
	r.sample("writes of 0..%zu bytes after 0, 8, 24; requests of 0..7 bytes", top);
}
void truncated(mc::Run &r, size_t n) {
	AKey k = key_string(key_words(0));
	auto m = ref_key(key_words(0));
	auto box = make_shared<StubContainer>(container_key(key_words(0)), ref::pack(table(0)));
	Bytes text = message(n, 1), whole(text.begin(), text.begin() + long(n / 8 * 8)), want = ref::ecb([&](uint64_t x) { return m.dec(x); }, whole);
	// fragmentations with up to three cuts
	for (size_t a = 0; a < n; a++)
		for (size_t b = a; b < n; b++)
			for (size_t ask : {size_t(8), size_t(16), size_t(4096)})
				for (int useBox = 0; useBox < 2; useBox++) {
					auto t = MemSource::make_tape(text);
					t->cut.assign(n, false);
					t->cut[a] = t->cut[b] = true;
					r.begin("%zu bytes of ciphertext, cuts at %zu and %zu, requests of %zu", n, a, b, ask);
					SourceP s = useBox ? SourceP(make_shared<gm::ECBSource>(make_shared<MemSource>(t), box)) : SourceP(make_shared<gm::ECBSource>(make_shared<MemSource>(t), k));
					Bytes out;
					bool refused = false;
					for (size_t i = 0; i < n + 3; i++) {
						std::pair<Data, SourceP> x;
						try { x = s->read(ask); } catch (...) { refused = true; break; }
						r.step();
						if (x.first.empty()) break;
						for (auto v : x.first) out.push_back(uint8_t(v));
						s = x.second;
					}
					if (refused != (n % 8 != 0)) r.fail("ciphertext of %zu bytes is %s", n, refused ? "refused" : "taken as complete");
					if (out.size() > want.size() || !std::equal(out.begin(), out.end(), want.begin())) r.fail("wrong plaintext of a truncated ciphertext");
					if (!refused && out != want) r.fail("wrong plaintext");
					if (refused && !refuses([&] { s->read(ask); })) r.fail("a truncated block is refused once and accepted later");
					r.trace(); r.state(mc::mix(mc::mix(a, b), mc::mix(ask, n)));
				}
}
void longer(mc::Run &r, int e) {
	auto w = key_words(4);
	for (long d : {-1L, 0L, 1L}) {
		size_t n = size_t((1L << e) + d) * 8;
		r.begin("%zu bytes", n);
		check(r, key_string(w), ref_key(w), message(n, 1), SIZE_MAX, size_t(1) << 20);
		check(r, key_string(w), ref_key(w), message(n, 4), 65536, 8);
	}
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier tier) {
	auto S = [](const char *n, size_t i) { return std::string(n) + "-" + std::to_string(i); };
	for (int i = 0; i < 8; i++) out.push_back({S("lengths", size_t(i)), [i](Run &r) { lengths(r, i, 8); }, 4});
	for (int i = 0; i < 8; i++) out.push_back({S("blocks", size_t(i)), [i](Run &r) { blocks(r, i); }, 3});
	for (int i = 0; i < 7; i++) out.push_back({S("sequences", size_t(i)), [i](Run &r) { sequences(r, i); }, 3});
	for (int i = 0; i < 8; i++) out.push_back({S("containers", size_t(i)), [i](Run &r) { containers(r, i, 8); }, 4});
	out.push_back({"refusals", refusals, 2});
	for (size_t n = 1; n <= (tier == Tier::thorough ? 64u : 33u); n++) out.push_back({S("truncated", n), [n](Run &r) { truncated(r, n); }, 2});
	for (int e = 8; e <= (tier == Tier::thorough ? 19 : 16); e++) out.push_back({S("long", size_t(e)), [e](Run &r) { longer(r, e); }, e - 8});
}
