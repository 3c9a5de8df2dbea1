// C18: a fault at every call into a collaborator and at every allocation.
#include "scenarios.h"
#include <typeinfo>
const char *const mc::property = "C18";

namespace {
// Runs op with the fault armed by the caller; says what came of it
struct Outcome { int what; uint64_t id; Bytes b; std::string type; };  // 0: result, 1: the armed fault, 2: bad_alloc, 3: something else
Outcome attempt(const Fixture &f) {
	try { Bytes b = f.op(); return {0, 0, b, ""}; }
	catch (const Boom &e) { return {1, e.id * 4, {}, ""}; }
	catch (const BoomRuntime &e) { return {1, e.id * 4 + 1, {}, ""}; }
	catch (const BoomRange &e) { return {1, e.id * 4 + 2, {}, ""}; }
	catch (const BoomAlloc &e) { return {1, e.id * 4 + 3, {}, ""}; }
	catch (const std::bad_alloc &e) { return {2, 0, {}, typeid(e).name()}; }
	catch (const std::exception &e) { return {3, 0, {}, typeid(e).name()}; }
	catch (...) { return {3, 0, {}, "?"}; }
}
void explore(mc::Run &r, const Scenario &s, int part) {
	Bytes normal, seen;
	uint64_t calls = 0, allocs = 0;
	r.begin("%s: no fault", s.name.c_str());
	for (int warm = 0; warm < 3; warm++) {
		Fixture f = s.make();
		Bytes l0 = f.look();
		Fault::arm(-1);
		uint64_t a = mc::Alloc::count();
		Bytes b = f.op();
		calls = Fault::calls;
		allocs = mc::Alloc::count() - a;
		if (warm && b != normal) r.fail("%s: two runs differ", s.name.c_str());
		normal = b;
		seen = l0;
		if (f.look() != l0) r.fail("%s: existing objects changed", s.name.c_str());
		if (f.op() != normal) r.fail("%s: a repetition differs", s.name.c_str());
		RecSink::newest.reset();
	}
	auto one = [&](int64_t call, int kind, int64_t alloc, int64_t call2, int64_t alloc2) {
		bool hit = true;
		int64_t live = mc::Alloc::live();
		{
			Fixture f = s.make();
			for (int round = 0; round < 2; round++) {
				int64_t c = round ? call2 : call, a = round ? alloc2 : alloc;
				if (c < 0 && a < 0) continue;
				if (c >= 0) Fault::arm(c, kind); else mc::Alloc::fail_at(a);
				Outcome o = attempt(f);
				hit = c >= 0 ? Fault::calls > uint64_t(c) : mc::Alloc::fired();
				Fault::disarm(); mc::Alloc::fail_at(-1);
				r.step();
				const char *rd = round ? " (second fault)" : "";
				if (!hit) {
					if (o.what || o.b != normal) r.fail("%s: no fault was hit%s and yet the result is not the normal one (%s)", s.name.c_str(), rd, o.type.c_str());
				} else if (c >= 0) {
					if (o.what == 0) r.fail("%s: the error at call %lld%s was swallowed; result %s, normally %s", s.name.c_str(), (long long)c, rd, hex(o.b).c_str(), hex(normal).c_str());
					if (o.what != 1 || o.id != uint64_t(c) * 4 + uint64_t(kind)) r.fail("%s: the error at call %lld%s became another one (%s)", s.name.c_str(), (long long)c, rd, o.type.c_str());
				} else {
					if (o.what == 0 && o.b != normal) r.fail("%s: the failed allocation %lld%s changed the result to %s, normally %s", s.name.c_str(), (long long)a, rd, hex(o.b).c_str(), hex(normal).c_str());
					if (o.what == 1 || o.what == 3) r.fail("%s: the failed allocation %lld%s became another error (%s)", s.name.c_str(), (long long)a, rd, o.type.c_str());
				}
				Bytes l = f.look();
				if (l != seen) r.fail("%s: after the fault at %s %lld%s existing objects yield %s, before %s", s.name.c_str(), c >= 0 ? "call" : "allocation", (long long)(c >= 0 ? c : a), rd, hex(l).c_str(), hex(seen).c_str());
			}
			Outcome o = attempt(f);
			if (o.what || o.b != normal) r.fail("%s: after the fault at %s %lld a repetition gives %s, normally %s", s.name.c_str(), call >= 0 ? "call" : "allocation", (long long)(call >= 0 ? call : alloc), o.what ? "an error" : hex(o.b).c_str(), hex(normal).c_str());
			if (f.look() != seen) r.fail("%s: after the repetition existing objects yield something else", s.name.c_str());
			RecSink::newest.reset();
		}
		if (mc::Alloc::live() != live) r.fail("%s: after the fault at %s %lld, %lld allocations are leaked", s.name.c_str(), call >= 0 ? "call" : "allocation", (long long)(call >= 0 ? call : alloc), (long long)(mc::Alloc::live() - live));
		r.trace();
		r.state(mc::mix(mc::mix(mc::hash_bytes(s.name.data(), s.name.size()), uint64_t(call * 4 + kind)), mc::mix(uint64_t(alloc), mc::mix(uint64_t(call2), uint64_t(alloc2)))));
		return hit;
	};
	// calls into collaborators
	for (int kind = 0; kind < 4; kind++)
		for (uint64_t c = uint64_t(part); c < calls; c += uint64_t(s.allocs_parts)) {
			r.begin("%s: fault of kind %d at call %llu of %llu", s.name.c_str(), kind, (unsigned long long)c, (unsigned long long)calls);
			one(int64_t(c), kind, -1, -1, -1);
		}
	// allocations: the number may shift, go on until none fails
	uint64_t stride = !r.thorough() && allocs > 12000 ? 9 : 1;
	for (uint64_t a = uint64_t(part) * stride;; a += uint64_t(s.allocs_parts) * stride) {
		r.begin("%s: allocation %llu of about %llu fails", s.name.c_str(), (unsigned long long)a, (unsigned long long)allocs);
		if (!one(-1, 0, int64_t(a), -1, -1)) break;
	}
	if (stride > 1) r.capped("every ninth allocation of very long operations (quick)");
	// two faults, one after the other
	if (s.pairs && part == 0) {
		uint64_t top = r.thorough() ? 400 : 40, st = calls > top ? calls / top + 1 : 1, sa = allocs > top ? allocs / top + 1 : 1;
		for (uint64_t c = 0; c < calls; c += st)
			for (uint64_t d = 0; d < calls; d += st) {
				r.begin("%s: faults at call %llu and then at call %llu", s.name.c_str(), (unsigned long long)c, (unsigned long long)d);
				one(int64_t(c), 1, -1, int64_t(d), -1);
			}
		for (uint64_t c = 0; c < calls; c += st)
			for (uint64_t a = 0; a < allocs; a += sa) {
				r.begin("%s: fault at call %llu, then allocation %llu", s.name.c_str(), (unsigned long long)c, (unsigned long long)a);
				one(int64_t(c), 2, -1, -1, int64_t(a));
			}
	}
	r.sample("%s: %llu calls, %llu allocations, each failing in turn", s.name.c_str(), (unsigned long long)calls, (unsigned long long)allocs);
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier) {
	auto &all = scenarios();
	for (size_t i = 0; i < all.size(); i++)
		for (int p = 0; p < all[i].allocs_parts; p++)
			out.push_back({"s" + std::to_string(i) + "-" + std::to_string(p), [i, p](Run &r) { explore(r, scenarios()[i], p); }, all[i].allocs_parts + all[i].pairs});
}
