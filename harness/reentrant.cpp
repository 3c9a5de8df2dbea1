// C26: collaborators that use the library themselves while they are called by it.
#include "scenarios.h"
const char *const mc::property = "C26";

namespace {
struct Known { Bytes normal, seen; uint64_t calls; bool heavy; };
// What a scenario yields when nothing else goes on, and how many calls of collaborators it takes
const Known &known(size_t i) {
	static std::vector<std::unique_ptr<Known>> k(scenarios().size());
	if (!k[i]) {
		k[i] = std::make_unique<Known>();
		Fixture f = scenarios()[i].make();
		k[i]->seen = f.look();
		Fault::arm(-1);
		k[i]->normal = f.op();
		k[i]->calls = Fault::calls;
		k[i]->heavy = scenarios()[i].allocs_parts == 8;
	}
	return *k[i];
}
// Positions among the calls: all, or `most` of them spread evenly, the first and last eight among them
std::vector<uint64_t> places(uint64_t calls, uint64_t most) {
	std::vector<uint64_t> p;
	uint64_t stride = calls > most ? calls / most + 1 : 1;
	for (uint64_t c = 0; c < calls; c++) if (c < 8 || c + 8 >= calls || c % stride == 0) p.push_back(c);
	return p;
}
struct Inner { size_t i; bool made_inside; int fault; };   // fault: -1, or at which eighth of its calls it fails (and is given up)
const char *name(size_t i) { return scenarios()[i].name.c_str(); }

// Scenario o, whose call number c runs `in`, whose call number c2 runs `in2` if there is one
void nest(mc::Run &r, size_t o, uint64_t c, const Inner &in, int64_t c2 = -1, const Inner *in2 = nullptr) {
	const Known &ko = known(o), &ki = known(in.i);
	r.begin("%s; at call %llu of %llu: %s%s%s%s%s", name(o), (unsigned long long)c, (unsigned long long)ko.calls, in.made_inside ? "made inside, " : "", name(in.i),
		in.fault >= 0 ? ", failing" : "", in2 ? "; inside of it: " : "", in2 ? name(in2->i) : "");
	if (in2) known(in2->i);
	Fixture f = scenarios()[o].make(), g;
	if (!in.made_inside) g = scenarios()[in.i].make();
	std::string err;
	auto use = [&](const Inner &n, Fixture &h, const std::function<void()> *deeper, int64_t at) {
		const Known &k = known(n.i);
		if (n.made_inside) h = scenarios()[n.i].make();
		if (n.fault >= 0) {
			Fault::arm(int64_t(k.calls * uint64_t(n.fault) / 8), 1);
			try { h.op(); } catch (const BoomRuntime &) {}
			Fault::disarm();
		}
		else {
			if (deeper) Fault::arm(at, *deeper);
			Bytes b = h.op();
			Fault::disarm();
			if (b != k.normal) err = "the inner use yields " + hex(b) + ", alone " + hex(k.normal);
		}
		if (h.look() != k.seen) err = "after the inner use its objects yield something else";
	};
	Fixture g2;
	if (in2 && !in2->made_inside) g2 = scenarios()[in2->i].make();
	bool hit = false, hit2 = false;
	const std::function<void()> second = [&] { hit2 = true; use(*in2, g2, nullptr, -1); };
	const std::function<void()> first = [&] { hit = true; use(in, g, in2 ? &second : nullptr, c2); };
	Fault::arm(int64_t(c), first);
	Bytes b = f.op();
	Fault::disarm();
	r.step(in2 ? 3 : 2);
	if (!hit || (in2 && !hit2)) r.fail("the call was not made");
	if (!err.empty()) r.fail("%s", err.c_str());
	if (b != ko.normal) r.fail("the outer use yields %s, alone %s", hex(b).c_str(), hex(ko.normal).c_str());
	if (f.look() != ko.seen) r.fail("after the outer use its objects yield something else");
	// and both again, one after the other
	if (f.op() != ko.normal) r.fail("a repetition of the outer use differs");
	if (g.op && g.op() != ki.normal) r.fail("a repetition of the inner use differs");
	RecSink::newest.reset();
	r.trace();
	r.state(mc::mix(mc::mix(o * 1000 + in.i, c * 16 + unsigned(in.fault + 1)), mc::mix(uint64_t(in.made_inside), in2 ? in2->i * 100000 + uint64_t(c2) : 0)));
}
// The same objects are used again by a collaborator of theirs. Caches are filled before (their value would depend on itself).
void itself(mc::Run &r, size_t o) {
	const Known &k = known(o);
	Fixture f = scenarios()[o].make();
	f.op();
	Fault::arm(-1);
	f.op();
	uint64_t calls = Fault::calls;
	for (uint64_t c : places(calls, k.heavy ? 40 : 400)) {
		r.begin("%s; at call %llu of %llu the same again", name(o), (unsigned long long)c, (unsigned long long)calls);
		bool hit = false;
		Bytes inner, seen;
		const std::function<void()> act = [&] { hit = true; inner = f.op(); seen = f.look(); };
		Fault::arm(int64_t(c), act);
		Bytes b = f.op();
		Fault::disarm();
		if (!hit) r.fail("the call was not made");
		if (inner != k.normal) r.fail("the inner use yields %s, alone %s", hex(inner).c_str(), hex(k.normal).c_str());
		if (seen != k.seen || f.look() != k.seen) r.fail("existing objects yield something else");
		if (b != k.normal) r.fail("the outer use yields %s, alone %s", hex(b).c_str(), hex(k.normal).c_str());
		r.step(2); r.trace(); r.state(mc::mix(o + 7777, c));
	}
	r.sample("%s: %llu calls in which the same objects are used", name(o), (unsigned long long)calls);
}
void nested(mc::Run &r, size_t o) {
	const Known &k = known(o);
	size_t n = scenarios().size();
	bool th = r.thorough();
	for (size_t i = 0; i < n; i++) {
		bool heavy = k.heavy || known(i).heavy;
		for (uint64_t c : places(k.calls, heavy ? (th ? 60 : 1) : th ? 2000 : 24)) {
			nest(r, o, c, {i, false, -1});
			nest(r, o, c, {i, true, -1});
		}
		for (uint64_t c : places(k.calls, heavy ? (th ? 20 : 1) : th ? 60 : 4))
			for (int e : {0, 3, 7}) if (known(i).calls) nest(r, o, c, {i, false, e});
		// one level more: any use inside any use inside this one
		if (k.heavy || known(i).heavy || !known(i).calls) continue;
		for (size_t j = 0; j < n; j++) {
			if (known(j).heavy) continue;
			for (int e : {0, 4})
				for (int e2 : {0, 4}) {
					if (!th && (i + j + o) % (e || e2 ? 16 : 4)) continue;
					Inner deep{j, e2 > 0, -1};
					nest(r, o, k.calls * unsigned(e) / 8, {i, e > 0, -1}, int64_t(known(i).calls * unsigned(e2) / 8), &deep);
				}
		}
	}
	r.sample("%s: %llu calls, in each another use of any kind", name(o), (unsigned long long)k.calls);
}
}  // namespace

void mc::jobs(std::vector<Job> &out, Tier) {
	for (size_t i = 0; i < scenarios().size(); i++) {
		out.push_back({"nested-" + std::to_string(i), [i](Run &r) { if (known(i).calls) nested(r, i); }, scenarios()[i].allocs_parts + 1});
		out.push_back({"itself-" + std::to_string(i), [i](Run &r) { itself(r, i); }, 1});
	}
}
