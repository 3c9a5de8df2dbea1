#include "core.h"
#include "ref.h"
#include <algorithm>
#include <atomic>
#include <malloc.h>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <new>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define MC_ASAN 1
#endif

namespace mc {

struct Shared {
	std::atomic<uint64_t> steps, states, traces, cases, ticks;
	std::atomic<int> failed, ncap, nsamples;
	char label[1024];
	char message[4096];
	char cap[256];
	char samples[4][512];
};

bool HashSet::insert(uint64_t h) {
	if (h == 0) { if (zero) return false; zero = true; n++; return true; }
	if (tab.empty() || n * 10 > tab.size() * 6) grow();
	size_t m = tab.size() - 1, i = (h * 0x9e3779b97f4a7c15ULL >> 20) & m;
	while (tab[i]) { if (tab[i] == h) return false; i = (i + 1) & m; }
	tab[i] = h; n++;
	return true;
}
void HashSet::grow() {
	std::vector<uint64_t> old(tab.empty() ? 1024 : tab.size() * 2);
	old.swap(tab);
	size_t m = tab.size() - 1;
	for (auto h : old) if (h) {
		size_t i = (h * 0x9e3779b97f4a7c15ULL >> 20) & m;
		while (tab[i]) i = (i + 1) & m;
		tab[i] = h;
	}
}

void Run::begin(const char *fmt, ...) {
	va_list a; va_start(a, fmt);
	vsnprintf(sh->label, sizeof sh->label, fmt, a);
	va_end(a);
	sh->cases.fetch_add(1, std::memory_order_relaxed);
	sh->ticks.fetch_add(1, std::memory_order_relaxed);
}
void Run::step(uint64_t n) { sh->steps.fetch_add(n, std::memory_order_relaxed); sh->ticks.fetch_add(1, std::memory_order_relaxed); }
void Run::state(uint64_t h) { if (seen.insert(h)) sh->states.fetch_add(1, std::memory_order_relaxed); }
void Run::trace(uint64_t n) { sh->traces.fetch_add(n, std::memory_order_relaxed); }
void Run::tick() { sh->ticks.fetch_add(1, std::memory_order_relaxed); }
void Run::sample(const char *fmt, ...) {
	int i = sh->nsamples.load();
	if (i >= 2) return;
	va_list a; va_start(a, fmt);
	vsnprintf(sh->samples[i], sizeof sh->samples[i], fmt, a);
	va_end(a);
	sh->nsamples = i + 1;
}
void Run::fail(const char *fmt, ...) {
	va_list a; va_start(a, fmt);
	vsnprintf(sh->message, sizeof sh->message, fmt, a);
	va_end(a);
	sh->failed = 1;
	_exit(3);
}
void Run::capped(const char *what) { snprintf(sh->cap, sizeof sh->cap, "%s", what); sh->ncap = 1; }

int Chooser::choose(int n, int price) {
	if (pos < path.size()) {
		if (path[pos].n != n) {
			fprintf(stderr, "explorer: divergence while replaying a prefix (%d choices, now %d)\n", path[pos].n, n);
			abort();
		}
		cost = path[pos].before + (path[pos].choice ? path[pos].price : 0);
		return path[pos++].choice;
	}
	path.push_back({0, n, price, cost});
	pos++;
	return 0;
}
bool Chooser::next() {
	path.resize(pos);
	while (!path.empty()) {
		P &p = path.back();
		if (p.choice + 1 < p.n && p.before + p.price <= bound) { p.choice++; return true; }
		path.pop_back();
	}
	return false;
}
std::string Chooser::str() const {
	std::string s;
	for (size_t i = 0; i < path.size(); i++) { if (i) s += ','; s += std::to_string(path[i].choice); }
	return s;
}

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
	const unsigned char *c = static_cast<const unsigned char *>(p);
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ULL; }
	return h ^ (h >> 32) ^ n * 0x9e3779b97f4a7c15ULL;
}
std::string hex(const void *p, size_t n) {
	std::string s;
	char b[3];
	for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", static_cast<const unsigned char *>(p)[i]); s += b; }
	return s;
}

static std::atomic<uint64_t> alloc_count, alloc_volume;
static std::atomic<int64_t> alloc_live;
static std::atomic<int64_t> alloc_fail{-1};
static std::atomic<bool> alloc_fired;
uint64_t Alloc::count() { return alloc_count; }
uint64_t Alloc::volume() { return alloc_volume; }
int64_t Alloc::live() { return alloc_live; }
void Alloc::fail_at(int64_t n) { alloc_fail = n; alloc_fired = false; }
bool Alloc::fired() { return alloc_fired; }
// Bytes held since track(), and their peak. Single-threaded harnesses only.
static bool alloc_track;
static int64_t alloc_bytes, alloc_peak;
void Alloc::track() { alloc_track = true; alloc_bytes = alloc_peak = 0; }
void Alloc::untrack() { alloc_track = false; }
int64_t Alloc::bytes() { return alloc_bytes; }
int64_t Alloc::peak() { return alloc_peak; }
// Reuse of released memory, as an allocator is free to choose it: per size class, the most or the
// least recently released place first. Single-threaded harnesses only.
static int alloc_reuse;
static const size_t CLASSES = 64, PLACES = 4096;
static struct { size_t head, count; void *at[PLACES]; } *alloc_pool;
void Alloc::reuse(int policy) {
	if (!alloc_pool) alloc_pool = static_cast<decltype(alloc_pool)>(calloc(CLASSES, sizeof *alloc_pool));
	for (size_t c = 0; c < CLASSES; c++) {
		for (; alloc_pool[c].count; alloc_pool[c].count--) free(alloc_pool[c].at[alloc_pool[c].head++ % PLACES]);
		alloc_pool[c].head = 0;
	}
	alloc_reuse = policy;
}
static void *alloc_take(size_t n) {
	size_t c = (n + 15) / 16;
	if (c >= CLASSES) return malloc(n);
	if (c == 0) c = 1;
	auto &l = alloc_pool[c];
	if (!l.count) return malloc(c * 16);
	l.count--;
	return alloc_reuse == 1 ? l.at[(l.head + l.count) % PLACES] : l.at[l.head++ % PLACES];
}
static void alloc_drop(void *p) {
	size_t c = malloc_usable_size(p) / 16;
	if (c == 0 || c >= CLASSES || alloc_pool[c].count == PLACES) { free(p); return; }
	memset(p, 0xdd, c * 16);
	auto &l = alloc_pool[c];
	l.at[(l.head + l.count++) % PLACES] = p;
}
}  // namespace mc

// Told about every allocation and release (by the scheduler's runtime only).
extern "C" __attribute__((weak)) void mc_hook_alloc(void *);
extern "C" __attribute__((weak)) void mc_hook_free(void *);
static void *mc_new(size_t n) {
	using namespace mc;
	int64_t f = alloc_fail.load(std::memory_order_relaxed);
	if (f >= 0) {
		alloc_fail = f - 1;
		if (f == 0) { alloc_fired = true; throw std::bad_alloc(); }
	}
	void *p = alloc_reuse ? alloc_take(n) : malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
#ifndef MC_ASAN   // which does it, too
	if (!mc_hook_alloc) memset(p, 0xa5, n < 256 ? n : 256);
#endif
	alloc_count.fetch_add(1, std::memory_order_relaxed);
	alloc_volume.fetch_add(n, std::memory_order_relaxed);
	alloc_live.fetch_add(1, std::memory_order_relaxed);
	if (alloc_track && (alloc_bytes += int64_t(malloc_usable_size(p))) > alloc_peak) alloc_peak = alloc_bytes;
	if (mc_hook_alloc) mc_hook_alloc(p);
	return p;
}
static void mc_delete(void *p) noexcept {
	if (!p) return;
	if (mc_hook_free) mc_hook_free(p);
	mc::alloc_live.fetch_sub(1, std::memory_order_relaxed);
	if (mc::alloc_track) mc::alloc_bytes -= int64_t(malloc_usable_size(p));
	if (mc::alloc_reuse) mc::alloc_drop(p); else free(p);
}
void *operator new(size_t n) { return mc_new(n); }
void *operator new[](size_t n) { return mc_new(n); }
static void *mc_new_nothrow(size_t n) noexcept { try { return mc_new(n); } catch (...) { return nullptr; } }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return mc_new_nothrow(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return mc_new_nothrow(n); }
static void *mc_new_aligned(size_t n, std::align_val_t a) {
	void *q = mc_new(1);  // counts, and fails where it should
	int64_t usable = int64_t(malloc_usable_size(q));
	free(q);
	size_t al = size_t(a);
	void *p = aligned_alloc(al, (n + al - 1) / al * al);
	if (!p) throw std::bad_alloc();
	if (mc::alloc_track) {
		mc::alloc_bytes += int64_t(malloc_usable_size(p)) - usable;
		if (mc::alloc_bytes > mc::alloc_peak) mc::alloc_peak = mc::alloc_bytes;
	}
	return p;
}
void *operator new(size_t n, std::align_val_t a) { return mc_new_aligned(n, a); }
void *operator new[](size_t n, std::align_val_t a) { return mc_new_aligned(n, a); }
void operator delete(void *p, std::align_val_t) noexcept { mc_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { mc_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { mc_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { mc_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { mc_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { mc_delete(p); }
void operator delete(void *p) noexcept { mc_delete(p); }
void operator delete[](void *p) noexcept { mc_delete(p); }
void operator delete(void *p, size_t) noexcept { mc_delete(p); }
void operator delete[](void *p, size_t) noexcept { mc_delete(p); }

namespace mc {
static double started;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

double elapsed() { return now() - started; }
static std::string jesc(const std::string &s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

struct Slot { const Job *job; pid_t pid; Shared *sh; uint64_t last; double since, started; std::string err; };

static Shared *new_shared() {
	void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return static_cast<Shared *>(p);
}

static size_t rss_mb(pid_t pid) {
	char f[64], b[128];
	snprintf(f, sizeof f, "/proc/%d/statm", pid);
	int fd = open(f, O_RDONLY);
	if (fd < 0) return 0;
	ssize_t n = read(fd, b, sizeof b - 1);
	close(fd);
	if (n <= 0) return 0;
	b[n] = 0;
	long t, r;
	return sscanf(b, "%ld %ld", &t, &r) == 2 ? size_t(r) * 4096 / 1048576 : 0;
}

static Slot spawn(const Job &j, Tier tier, const std::string &errdir) {
	Slot s{&j, 0, new_shared(), 0, now(), now(), errdir + "/" + property + "-" + j.name + ".err"};
	s.pid = fork();
	if (s.pid < 0) { perror("fork"); exit(2); }
	if (s.pid == 0) {
		int fd = open(s.err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		if (fd >= 0) { dup2(fd, 2); close(fd); }
#ifndef MC_ASAN
		rlimit rl{RLIM_INFINITY, RLIM_INFINITY};
		rl.rlim_cur = rl.rlim_max = (uint64_t(j.mb) + 1144) << 20;
		setrlimit(RLIMIT_AS, &rl);
#endif
		Run r(s.sh, tier);
		try { j.fn(r); }
		catch (const std::exception &e) { r.fail("unexpected exception: %s", e.what()); }
		catch (...) { r.fail("unexpected exception of unknown type"); }
		_exit(0);
	}
	return s;
}

int main_(int argc, char **argv) {
	Tier tier = Tier::quick;
	std::string out, only, errdir = ".";
	double hang = 40;
	int par = 8;
	bool list = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--tier" && i + 1 < argc) tier = std::string(argv[++i]) == "thorough" ? Tier::thorough : Tier::quick;
		else if (a == "--out" && i + 1 < argc) out = argv[++i];
		else if (a == "--job" && i + 1 < argc) only = argv[++i];
		else if (a == "--errdir" && i + 1 < argc) errdir = argv[++i];
		else if (a == "--hang" && i + 1 < argc) hang = atof(argv[++i]);
		else if (a == "-j" && i + 1 < argc) par = atoi(argv[++i]);
		else if (a == "--list") list = true;
		else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
	}
	std::string bad = ref::self_test();
	if (!bad.empty()) { fprintf(stderr, "%s\n", bad.c_str()); return 2; }
	std::vector<Job> js;
	jobs(js, tier);
	if (!only.empty()) {
		std::vector<Job> k;
		for (auto &j : js) if (j.name == only) k.push_back(j);
		js.swap(k);
		if (js.empty()) { fprintf(stderr, "no job %s\n", only.c_str()); return 2; }
	}
	std::stable_sort(js.begin(), js.end(), [](const Job &a, const Job &b) { return a.weight > b.weight; });
	if (list) { for (auto &j : js) printf("%s\n", j.name.c_str()); return 0; }

	double t0 = now();
	started = t0;
	std::vector<Slot> run;
	std::vector<std::pair<std::string, Shared *>> done;
	std::vector<std::pair<std::string, double>> times;
	size_t nextj = 0;
	std::string vjob, vkind, vmsg, vlabel, verr;
	bool err = false;
	while ((nextj < js.size() || !run.empty()) && vjob.empty() && !err) {
		while (nextj < js.size() && int(run.size()) < par) run.push_back(spawn(js[nextj++], tier, errdir));
		bool any = false;
		for (size_t i = 0; i < run.size();) {
			Slot &s = run[i];
			int st;
			pid_t p = waitpid(s.pid, &st, WNOHANG);
			bool over = false;
			std::string kind;
			if (p == s.pid) {
				over = true;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0) kind = "";
				else if (s.sh->failed) kind = "mismatch";
				else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && s.job->mb > 5000) {   // by the system, which ran out of memory
					s.sh->ncap = 1;
					snprintf(s.sh->cap, sizeof s.sh->cap, "memory: %s was ended by the system", s.job->name.c_str());
				}
				else if (WIFEXITED(st)) kind = "crash (exit " + std::to_string(WEXITSTATUS(st)) + ")";
				else kind = "crash (signal " + std::to_string(WTERMSIG(st)) + ")";
			} else {
				uint64_t t = s.sh->ticks;
				if (t != s.last) { s.last = t; s.since = now(); }
				else if (now() - s.since > hang) { kill(s.pid, SIGKILL); waitpid(s.pid, &st, 0); over = true; kind = "hang"; }
				if (!over && rss_mb(s.pid) > s.job->mb) { kill(s.pid, SIGKILL); waitpid(s.pid, &st, 0); over = true; kind = "memory grows without bound"; }
			}
			if (!over) { i++; continue; }
			any = true;
			times.emplace_back(s.job->name, now() - s.started);
			if (!kind.empty()) {
				vjob = s.job->name; vkind = kind; verr = s.err;
				vmsg = s.sh->failed ? s.sh->message : kind;
				vlabel = s.sh->label;
			}
			done.emplace_back(s.job->name, s.sh);
			if (kind.empty()) unlink(s.err.c_str());
			run.erase(run.begin() + i);
			if (!vjob.empty()) break;
		}
		if (!any) usleep(10000);
	}
	for (auto &s : run) { kill(s.pid, SIGKILL); int st; waitpid(s.pid, &st, 0); unlink(s.err.c_str()); done.emplace_back(s.job->name, s.sh); }
	uint64_t steps = 0, states = 0, traces = 0, cases = 0;
	std::string caps, samples;
	int ns = 0;
	for (auto &d : done) {
		steps += d.second->steps; states += d.second->states; traces += d.second->traces; cases += d.second->cases;
		if (d.second->ncap) caps += (caps.empty() ? "\"" : ",\"") + jesc(d.first + ": " + d.second->cap) + "\"";
		for (int i = 0; i < d.second->nsamples && ns < 24; i++, ns++)
			samples += (samples.empty() ? "\"" : ",\"") + jesc(d.first + ": " + d.second->samples[i]) + "\"";
	}
	std::string o = "{\"property\":\"" + std::string(property) + "\",\"jobs\":" + std::to_string(js.size()) +
		",\"jobs_finished\":" + std::to_string(times.size()) +
		",\"cases\":" + std::to_string(cases) + ",\"states\":" + std::to_string(states) +
		",\"transitions\":" + std::to_string(steps) + ",\"traces\":" + std::to_string(traces) +
		",\"wall\":" + std::to_string(now() - t0) + ",\"capped\":[" + caps + "],\"samples\":[" + samples + "],\"times\":{";
	for (size_t i = 0; i < times.size(); i++)
		o += (i ? ",\"" : "\"") + jesc(times[i].first) + "\":" + std::to_string(times[i].second);
	o += "}";
	if (!vjob.empty())
		o += ",\"violation\":{\"job\":\"" + jesc(vjob) + "\",\"kind\":\"" + jesc(vkind) + "\",\"message\":\"" + jesc(vmsg) +
			"\",\"case\":\"" + jesc(vlabel) + "\",\"stderr\":\"" + jesc(verr) + "\"}";
	o += "}\n";
	if (out.empty()) fputs(o.c_str(), stdout);
	else {
		FILE *f = fopen(out.c_str(), "w");
		if (!f) { perror(out.c_str()); return 2; }
		fputs(o.c_str(), f);
		fclose(f);
	}
	return vjob.empty() ? 0 : 1;
}
}  // namespace mc

// A harness that runs itself again in other roles says so.
extern "C" __attribute__((weak)) int mc_other_main();
int main(int argc, char **argv) { return mc_other_main && mc_other_main() ? 0 : mc::main_(argc, argv); }
