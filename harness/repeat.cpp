// C15: the same operation on the same objects, and on new ones, again and again: the last time as the first.
#include "scenarios.h"
const char *const mc::property = "C15";

namespace {
void again(mc::Run &r, size_t i, bool fresh) {
	const Scenario &s = scenarios()[i];
	r.begin("%s, again and again%s", s.name.c_str(), fresh ? ", on new objects" : "");
	Fixture f = s.make();
	const Bytes look = f.look(), normal = f.op();
	// one more than 2^8 and 2^16 times (those that make a Kuznyechik key each time: 2^8)
	bool heavy = s.allocs_parts == 8 || (fresh && s.allocs_parts >= 4);
	uint64_t n = heavy ? (r.thorough() ? 66000 : 600) : r.thorough() ? (1u << 20) + 3 : 65600;
	for (uint64_t k = 1; k < n; k++) {
		if (fresh) f = s.make();
		Bytes b = f.op();
		if (b != normal) r.fail("%s: time %llu yields %s, the first time %s", s.name.c_str(), (unsigned long long)k, hex(b).c_str(), hex(normal).c_str());
		if ((k & (k - 1)) == 0 || k + 2 > n || (k & 1023) == 1023) {
			if (f.look() != look) r.fail("%s: after time %llu its objects yield something else", s.name.c_str(), (unsigned long long)k);
			RecSink::newest.reset();
			r.state(mc::mix(i * 2 + fresh, k));
		}
		r.step();
	}
	r.trace(n);
	r.sample("%s: %llu times%s", s.name.c_str(), (unsigned long long)n, fresh ? " on new objects" : "");
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier) {
	for (size_t i = 0; i < scenarios().size(); i++)
		for (int fresh = 0; fresh < 2; fresh++)
			out.push_back({(fresh ? "fresh-" : "same-") + std::to_string(i), [i, fresh](Run &r) { again(r, i, fresh); }, scenarios()[i].allocs_parts});
}
