#include "explore.h"
#include <cerrno>
#include <cstdarg>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// ---------------------------------------------------------------- state of one execution
namespace {
using namespace sched;
struct Choice { uint16_t choice, n; uint16_t price; uint16_t before; };
enum { SEQ = 1 << 20 };
struct Shm {
	uint8_t frozen[MAXT * SEQ / 8];   // allocations of a thread that others touch: their atomics are schedule points
	uint8_t found[MAXT * SEQ / 8];    // such allocations seen in any execution so far
	int grew;
	Choice path[MAXPATH];
	int len;          // choices made in this execution
	int prefix;       // choices to replay
	int cost;
	int bound;
	int status;       // 0 running, 1 fine, 2 violation, 3 explorer trouble
	uint64_t points, accesses, hash;
	char message[8192];
};
Shm *shm;
Options opt;

typedef uint32_t Clock[MAXT];
enum Kind { RUN, LOCK, RDLOCK, COND, ONCE, SPIN_ };
struct Thread {
	int id;
	pthread_t handle;
	std::function<void()> body;
	int sem;                 // futex
	bool finished;
	// what it waits for (checked when deciding who may run)
	Kind wait;
	void *obj;
	bool timed, timedout, signalled;
	Clock c;                 // its vector clock
	Clock fence_rel, fence_acq;
	char *stack_lo, *stack_hi;
	void *spin_at; int spins;
	void *pcs[256]; int depth;
};
Thread T[MAXT];
int nthreads;              // controlled threads: 0..nthreads-1
volatile bool active;      // the concurrent phase
thread_local Thread *self;
thread_local bool inside;  // in the runtime

void join(Clock a, const Clock b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }

[[noreturn]] void violation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void describe(char *b, size_t n, void *pc) {
	Dl_info i;
	if (pc && dladdr(static_cast<char *>(pc) - 1, &i) && i.dli_sname) snprintf(b, n, "%s", i.dli_sname);
	else if (pc && dladdr(pc, &i) && i.dli_fbase) snprintf(b, n, "%s+0x%lx", i.dli_fname, (long)((char *)pc - (char *)i.dli_fbase));
	else snprintf(b, n, "?");
}
void violation(const char *fmt, ...) {
	va_list a; va_start(a, fmt);
	int k = vsnprintf(shm->message, sizeof shm->message, fmt, a);
	va_end(a);
	if (k < 0 || k > 6000) k = 6000;
	k += snprintf(shm->message + k, sizeof shm->message - k, "; schedule:");
	int last = 0;
	for (int i = 0; i < shm->len; i++) if (shm->path[i].choice) last = i + 1;
	for (int i = 0; i < last && k < int(sizeof shm->message) - 64; i++)
		if (shm->path[i].choice) k += snprintf(shm->message + k, sizeof shm->message - k, " #%d=%d/%d", i, shm->path[i].choice, shm->path[i].n);
	k += snprintf(shm->message + k, sizeof shm->message - k, " of %d choices", shm->len);
	shm->status = 2;
	_exit(0);
}
[[noreturn]] void trouble(const char *text) {
	snprintf(shm->message, sizeof shm->message, "explorer: %s", text);
	shm->status = 3;
	_exit(0);
}

// ---------------------------------------------------------------- choices
int choose(int n, int price) {
	if (n <= 1) return 0;
	int i = shm->len;
	if (i >= MAXPATH) trouble("too many choices in one execution");
	if (i < shm->prefix) {
		if (shm->path[i].n != n || shm->path[i].price != price) trouble("divergence while replaying a prefix");
		shm->len++;
		if (shm->path[i].choice) shm->cost = shm->path[i].before + price;
		return shm->path[i].choice;
	}
	shm->path[i] = Choice{0, uint16_t(n), uint16_t(price), uint16_t(shm->cost)};
	shm->len++;
	return 0;
}

// ---------------------------------------------------------------- token
void fwait(int *w) {
	while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	__atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
void fpost(int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
int main_sem;

// ---------------------------------------------------------------- synchronisation objects
enum OType { O_NONE, O_MUTEX, O_RW, O_ONCE, O_GUARD, O_COND, O_SPIN };
struct Obj {
	void *addr;
	OType type;
	int owner, depth;    // mutex, once in progress
	int readers[MAXT];
	bool recursive, errorcheck;
	Clock c, rc;         // released by writers, by readers
	Obj *next;
};
enum { OB = 4096, OMAX = 1 << 16 };
Obj *obuckets[OB];
Obj *opool, *ofree; int oused;
Obj *find(void *a, OType t, bool make = true) {
	size_t h = (uintptr_t(a) >> 3) * 0x9e3779b97f4a7c15ULL >> 52;
	for (Obj *o = obuckets[h]; o; o = o->next) if (o->addr == a && o->type == t) return o;
	if (!make) return nullptr;
	Obj *o = ofree;
	if (o) ofree = o->next;
	else if (oused == OMAX) trouble("too many synchronisation objects");
	else o = &opool[oused++];
	memset(o, 0, sizeof *o);
	o->addr = a; o->type = t; o->owner = -1;
	o->next = obuckets[h]; obuckets[h] = o;
	return o;
}

bool enabled(Thread &t) {
	if (t.finished) return false;
	switch (t.wait) {
	case RUN: return true;
	case LOCK: {
		Obj *o = static_cast<Obj *>(t.obj);
		if (o->owner >= 0) return o->owner == t.id && o->recursive;
		for (int i = 0; i < nthreads; i++) if (o->readers[i]) return false;
		return true;
	}
	case RDLOCK: return static_cast<Obj *>(t.obj)->owner < 0;
	case COND: return t.signalled;
	case ONCE: return static_cast<Obj *>(t.obj)->owner < 0;
	case SPIN_: return true;
	}
	return false;
}
void hand(Thread &from, Thread &to) {
	if (&from == &to) return;
	shm->hash = (shm->hash ^ uint64_t(to.id + 1)) * 0x9e3779b97f4a7c15ULL + shm->points;
	fpost(&to.sem);
	fwait(&from.sem);
}
const char *kind_name(Kind k) {
	static const char *const n[] = {"running", "lock", "shared lock", "condition variable", "one-time initialisation", "spin"};
	return n[k];
}
[[noreturn]] void deadlock() {
	char b[1024]; int k = 0; b[0] = 0;
	for (int i = 0; i < nthreads; i++) if (!T[i].finished) {
		char d[300] = "?";
		if (T[i].depth) describe(d, sizeof d, T[i].pcs[T[i].depth - 1]);
		k += snprintf(b + k, sizeof b - k, " thread %d waits (%s, called from %.200s);", i, kind_name(T[i].wait), d);
		if (k > 700) break;
	}
	violation("deadlock:%s", b);
}
// Current thread is about to do an operation described by self->wait/obj. Returns when it may.
// yield: others go first (free)
void point(bool yield = false) {
	Thread &me = *self;
	shm->points++;
	for (;;) {
		int cand[MAXT], n = 0;
		bool mine = enabled(me);
		if (mine && !yield) cand[n++] = me.id;
		for (int d = 1; d < nthreads; d++) { int i = (me.id + d) % nthreads; if (enabled(T[i])) cand[n++] = i; }
		if (mine && yield && !n) cand[n++] = me.id;
		if (!n) {
			// only a timeout can help
			for (int i = 0; i < nthreads; i++) if (!T[i].finished && T[i].timed && !T[i].timedout) {
				T[i].timedout = true; T[i].signalled = true; if (T[i].wait == LOCK || T[i].wait == RDLOCK) T[i].wait = RUN;
				cand[n++] = i;
				break;
			}
			if (!n) deadlock();
		}
		bool free_ = !(mine && !yield);
		int k = choose(n, free_ && !yield ? 0 : 1);
		hand(me, T[cand[k]]);
		if (enabled(me)) { return; }
		yield = false;
	}
}
void finish() {
	Thread &me = *self;
	me.finished = true;
	int cand[MAXT], n = 0;
	bool left = false;
	for (int d = 1; d < nthreads; d++) { int i = (me.id + d) % nthreads; if (!T[i].finished) left = true; if (enabled(T[i])) cand[n++] = i; }
	if (!left) { fpost(&main_sem); return; }
	if (!n) {
		for (int i = 0; i < nthreads; i++) if (!T[i].finished && T[i].timed && !T[i].timedout) {
			T[i].timedout = true; T[i].signalled = true; if (T[i].wait == LOCK || T[i].wait == RDLOCK) T[i].wait = RUN;
			cand[n++] = i;
			break;
		}
		if (!n) deadlock();
	}
	fpost(&T[cand[choose(n, 0)]].sem);
}
bool on() { return active && self && !inside; }
struct In { In() { inside = true; } ~In() { inside = false; } };
void unspin() { for (int i = 0; i < nthreads; i++) T[i].spins = 0; }

void tick(Thread &t) { t.c[t.id]++; }

// ---------------------------------------------------------------- shadow memory
struct ShadowByte { uint32_t w; uint32_t r[MAXT - 1]; };  // w: epoch << 2 | thread
struct Granule { uintptr_t key; uint32_t aid; ShadowByte b[8]; void *wpc, *rpc[MAXT - 1]; };
enum { GMAX = 1 << 20 };
Granule *gr; int gused;
Granule *granule(uintptr_t a) {
	size_t h = (a >> 3) * 0x9e3779b97f4a7c15ULL >> 44;
	uintptr_t k = (a & ~uintptr_t(7)) | 1;
	while (gr[h].key && gr[h].key != k) h = (h + 1) & (GMAX - 1);
	if (!gr[h].key) { if (++gused > GMAX / 2) trouble("shadow memory is full"); gr[h].key = k; }
	return &gr[h];
}
// Allocations made by the threads: aid = 1 + thread * SEQ + number (0: made before, shared by assumption)
int nalloc[MAXT];
inline int owner_of(uint32_t aid) { return int((aid - 1) / SEQ); }
inline bool bit(const uint8_t *m, uint32_t aid) { return m[(aid - 1) / 8] >> ((aid - 1) % 8) & 1; }
inline void touched(Granule *g, Thread &t) {
	if (g->aid && owner_of(g->aid) != t.id && !bit(shm->found, g->aid)) { shm->found[(g->aid - 1) / 8] |= uint8_t(1 << ((g->aid - 1) % 8)); shm->grew = 1; }
}
// Only this thread can reach it, as far as any execution has shown
bool local(void *a) {
	Granule *g = granule(uintptr_t(a));
	touched(g, *self);
	return g->aid && owner_of(g->aid) == self->id && !bit(shm->frozen, g->aid);
}
// atomics
struct Store { uint64_t lo, hi; Clock rel; uint32_t epoch; int by; };
struct Atom {
	uintptr_t addr;
	int size;
	Clock wr, rd;         // epochs of the atomic writes and reads of each thread
	Clock rel;            // what a load that reads the newest store acquires
	Store hist[8]; int nh; int base;   // older stores, hist[nh-1] the newest; base: index of hist[0]
	int seen[MAXT];       // newest store a thread knows about
	Atom *next;
};
enum { AB = 4096, AMAX = 1 << 15 };
Atom *abuckets[AB]; Atom *apool, *afree; int aused;
Atom *afind(uintptr_t a, bool make) {
	size_t h = (a >> 3) * 0x9e3779b97f4a7c15ULL >> 52;
	for (Atom *o = abuckets[h]; o; o = o->next) if (o->addr == a) return o;
	if (!make) return nullptr;
	Atom *o = afree;
	if (o) afree = o->next;
	else if (aused == AMAX) trouble("too many atomic objects");
	else o = &apool[aused++];
	memset(o, 0, sizeof *o);
	o->addr = a;
	o->next = abuckets[h]; abuckets[h] = o;
	return o;
}
bool own_stack(Thread &t, uintptr_t a) { return a >= uintptr_t(t.stack_lo) && a < uintptr_t(t.stack_hi); }

[[noreturn]] void race(const char *what, const char *prev, int who, void *pc, void *oldpc, uintptr_t a) {
	char x[700], y[700], z[700] = "?";
	describe(x, sizeof x, pc); describe(y, sizeof y, oldpc);
	if (self->depth) describe(z, sizeof z, self->pcs[self->depth - 1]);
	violation("data race: %s by thread %d in %.600s (called from %.600s) is not ordered with %s by thread %d in %.600s (address ...%03lx)",
		what, self->id, x, z, prev, who, y, (unsigned long)(a & 0xfff));
}
void access(uintptr_t a, size_t n, bool write, void *pc, bool freeing = false) {
	Thread &t = *self;
	if (own_stack(t, a)) return;
	shm->accesses++;
	uint32_t e = t.c[t.id];
	for (uintptr_t p = a; p < a + n;) {
		Granule *g = granule(p);
		touched(g, t);
		uintptr_t end = (p & ~uintptr_t(7)) + 8;
		if (end > a + n) end = a + n;
		for (; p < end; p++) {
			ShadowByte &s = g->b[p & 7];
			int w = s.w & 3;
			if (s.w && w != t.id && (s.w >> 2) > t.c[w])
				race(freeing ? "freeing" : write ? "write" : "read", "a write", w, pc, g->wpc, p);
			if (write) {
				for (int i = 0; i < nthreads; i++) if (i != t.id && s.r[i] > t.c[i])
					race(freeing ? "freeing" : "write", "a read", i, pc, g->rpc[i], p);
				s.w = e << 2 | uint32_t(t.id);
			} else s.r[t.id] = e;
		}
		if (write) g->wpc = pc; else g->rpc[t.id] = pc;
		// mixed with atomics
		for (uintptr_t q = g->key & ~uintptr_t(7); q < (g->key & ~uintptr_t(7)) + 8; q++) {
			Atom *at = abuckets[(q >> 3) * 0x9e3779b97f4a7c15ULL >> 52] ? afind(q, false) : nullptr;
			if (!at || at->addr + at->size <= a || at->addr >= a + n) continue;
			for (int i = 0; i < nthreads; i++) if (i != t.id) {
				if (at->wr[i] > t.c[i]) race(freeing ? "freeing" : write ? "write" : "read", "an atomic write", i, pc, nullptr, q);
				if (write && at->rd[i] > t.c[i]) race(freeing ? "freeing" : "write", "an atomic read", i, pc, nullptr, q);
			}
			if (write) { at->nh = 0; at->base = 0; memset(at->seen, 0, sizeof at->seen); memset(at->rel, 0, sizeof at->rel); }
		}
	}
}
inline void plain(void *p, size_t n, bool write, void *pc) {
	if (!on() || !n) return;
	In in;
	access(uintptr_t(p), n, write, pc);
}
void atomic_access(uintptr_t a, size_t n, bool write, void *pc) {
	Thread &t = *self;
	if (own_stack(t, a)) return;
	for (uintptr_t p = a; p < a + n; p++) {
		Granule *g = granule(p);
		ShadowByte &s = g->b[p & 7];
		int w = s.w & 3;
		if (s.w && w != t.id && (s.w >> 2) > t.c[w]) race(write ? "an atomic write" : "an atomic read", "a plain write", w, pc, g->wpc, p);
		if (write) for (int i = 0; i < nthreads; i++) if (i != t.id && s.r[i] > t.c[i]) race("an atomic write", "a plain read", i, pc, g->rpc[i], p);
	}
}
void forget(uintptr_t a, size_t n, uint32_t aid) {
	for (uintptr_t p = a & ~uintptr_t(7); p < a + n; p += 8) {
		size_t h = (p >> 3) * 0x9e3779b97f4a7c15ULL >> 44;
		while (gr[h].key && gr[h].key != (p | 1)) h = (h + 1) & (GMAX - 1);
		if (gr[h].key) memset(gr[h].b, 0, sizeof gr[h].b);
		if (aid) granule(p)->aid = aid;
		// synchronisation objects and atomics that lived there
		size_t hb = (p >> 3) * 0x9e3779b97f4a7c15ULL >> 52;
		for (Obj **o = &obuckets[hb]; *o;) if (uintptr_t((*o)->addr) >= p && uintptr_t((*o)->addr) < p + 8) { Obj *x = *o; *o = x->next; x->next = ofree; ofree = x; } else o = &(*o)->next;
		for (Atom **o = &abuckets[hb]; *o;) if ((*o)->addr >= p && (*o)->addr < p + 8) { Atom *x = *o; *o = x->next; x->next = afree; afree = x; } else o = &(*o)->next;
	}
}

// ---------------------------------------------------------------- atomics
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void spin_check(void *a) {
	Thread &t = *self;
	if (t.spin_at == a) t.spins++; else { t.spin_at = a; t.spins = 1; }
	if (t.spins > 200000) violation("livelock: thread %d spins for ever", t.id);
}
void atomic_point(void *a, bool refcount) {
	Thread &t = *self;
	t.wait = RUN; t.obj = nullptr;
	if (own_stack(t, uintptr_t(a))) return;
	spin_check(a);
	if (t.spins > 100) { point(true); return; }
	if (refcount && !opt.refcounts) return;
	if (local(a)) return;
	point();
}
struct V { uint64_t lo, hi; };
V peek(uintptr_t a, int n) { V v{0, 0}; memcpy(&v, reinterpret_cast<void *>(a), size_t(n)); return v; }
void push(Atom *at, Thread &t, int n) {
	V v = peek(at->addr, n);
	if (at->nh == 8) { memmove(at->hist, at->hist + 1, sizeof(Store) * 7); at->nh = 7; at->base++; }
	Store &s = at->hist[at->nh++];
	s.lo = v.lo; s.hi = v.hi; memcpy(s.rel, at->rel, sizeof s.rel); s.epoch = t.c[t.id]; s.by = t.id;
	at->seen[t.id] = at->base + at->nh - 1;
}
void acquire(Thread &t, const Clock r, int mo) { if (acq(mo)) join(t.c, r); else join(t.fence_acq, r); }
// Makes the value before the first tracked store part of the history
void seed_history(Atom *at, int n) {
	if (at->nh) return;
	V v = peek(at->addr, n);
	Store &s = at->hist[0];
	s.lo = v.lo; s.hi = v.hi; memset(s.rel, 0, sizeof s.rel); s.epoch = 0; s.by = 0;
	at->nh = 1; at->base = 0;
	memset(at->seen, 0, sizeof at->seen);
}
void released(Thread &t, Atom *at, int mo, bool rmw) {
	if (!rmw) memset(at->rel, 0, sizeof at->rel);
	if (rel(mo)) join(at->rel, t.c); else join(at->rel, t.fence_rel);
}
V a_load(uintptr_t a, int n, int mo, void *pc) {
	if (!on()) return peek(a, n);
	In in;
	atomic_point(reinterpret_cast<void *>(a), false);
	Thread &t = *self;
	if (own_stack(t, a)) return peek(a, n);
	atomic_access(a, n, false, pc);
	Atom *at = afind(a, true);
	at->size = n;
	seed_history(at, n);
	// the stores this load may read: not older than what the thread already knows
	int newest = at->base + at->nh - 1, low = at->seen[t.id];
	if (low < at->base) low = at->base;
	for (int i = newest; i > low; i--) { Store &s = at->hist[i - at->base]; if (s.epoch && s.epoch <= t.c[s.by]) { low = i; break; } }
	int k = 0;
	if (opt.stale && mo != __ATOMIC_SEQ_CST && newest > low && t.spins < 2) k = choose(newest - low + 1, 1);
	int idx = newest - k;
	Store &s = at->hist[idx - at->base];
	at->seen[t.id] = idx;
	acquire(t, s.rel, mo);
	at->rd[t.id] = t.c[t.id];
	return V{s.lo, s.hi};
}
template <class F> V a_rmw(uintptr_t a, int n, int mo, bool store_only, bool refcount, void *pc, const F &f) {
	bool o = on();
	if (!o) { V old = peek(a, n); V nv; if (f(old, nv)) memcpy(reinterpret_cast<void *>(a), &nv, size_t(n)); return old; }
	In in;
	atomic_point(reinterpret_cast<void *>(a), refcount);
	Thread &t = *self;
	V old = peek(a, n), nv;
	if (own_stack(t, a)) { if (f(old, nv)) memcpy(reinterpret_cast<void *>(a), &nv, size_t(n)); return old; }
	bool w = f(old, nv);
	atomic_access(a, n, w, pc);
	Atom *at = afind(a, true);
	at->size = n;
	seed_history(at, n);
	if (!store_only) { acquire(t, at->rel, mo); at->rd[t.id] = t.c[t.id]; at->seen[t.id] = at->base + at->nh - 1; }
	if (w) {
		memcpy(reinterpret_cast<void *>(a), &nv, size_t(n));
		at->wr[t.id] = t.c[t.id];
		released(t, at, mo, !store_only);
		push(at, t, n);
		tick(t);
		if (memcmp(&old, &nv, size_t(n))) unspin();   // a store that changes nothing is no progress
	}
	return old;
}

// ---------------------------------------------------------------- real functions
template <class F> F real(const char *name) { void *p = dlsym(RTLD_NEXT, name); return reinterpret_cast<F>(p); }
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__); if (!r) r = real<ret (*)(__VA_ARGS__)>(#name)

int mutex_kind(pthread_mutex_t *m) { return m->__data.__kind & 3; }
int lock_model(void *m, OType type, bool recursive, bool errorcheck, bool timed) {
	In in;
	Thread &t = *self;
	Obj *o = find(m, type);
	o->recursive = recursive; o->errorcheck = errorcheck;
	t.wait = LOCK; t.obj = o; t.timed = timed; t.timedout = false;
	if (errorcheck && o->owner == t.id) { t.wait = RUN; return EDEADLK; }
	if (!local(m) || !enabled(t)) point();
	t.wait = RUN; t.timed = false;
	if (t.timedout) { t.timedout = false; return ETIMEDOUT; }
	o->owner = t.id; o->depth++;
	join(t.c, o->c); join(t.c, o->rc);
	unspin();
	return 0;
}
int trylock_model(void *m, OType type, bool recursive) {
	In in;
	Thread &t = *self;
	Obj *o = find(m, type);
	o->recursive = recursive;
	t.wait = RUN; t.obj = nullptr;
	spin_check(m);
	point(t.spins > 100);
	bool free_ = o->owner < 0 || (o->owner == t.id && recursive);
	for (int i = 0; i < nthreads; i++) if (o->readers[i]) free_ = false;
	if (!free_) return EBUSY;
	o->owner = t.id; o->depth++;
	join(t.c, o->c); join(t.c, o->rc);
	unspin();
	return 0;
}
int rdlock_model(void *m, bool try_, bool timed) {
	In in;
	Thread &t = *self;
	Obj *o = find(m, O_RW);
	if (try_) { t.wait = RUN; spin_check(m); if (t.spins > 100) point(true); else if (!local(m)) point(); if (o->owner >= 0) return EBUSY; }
	else {
		t.wait = RDLOCK; t.obj = o; t.timed = timed; t.timedout = false;
		if (!local(m) || !enabled(t)) point();
		t.wait = RUN; t.timed = false;
		if (t.timedout) { t.timedout = false; return ETIMEDOUT; }
	}
	o->readers[t.id]++;
	join(t.c, o->c);
	unspin();
	return 0;
}
int unlock_model(void *m, OType type) {
	In in;
	Thread &t = *self;
	Obj *o = find(m, type);
	if (o->readers[t.id]) { o->readers[t.id]--; join(o->rc, t.c); tick(t); unspin(); return 0; }
	if (o->owner != t.id) violation("thread %d unlocks a mutex it does not hold", t.id);
	if (--o->depth == 0) { o->owner = -1; join(o->c, t.c); tick(t); }
	unspin();
	return 0;
}
int wait_model(void *c, void *m, OType mtype, bool timed) {
	Obj *mo;
	{
		In in;
		Thread &t = *self;
		mo = find(m, mtype);
		if (mo->owner != t.id) violation("thread %d waits on a condition variable without holding the mutex", t.id);
		int d = mo->depth;
		mo->depth = 0; mo->owner = -1; join(mo->c, t.c); tick(t);
		t.wait = COND; t.obj = c; t.signalled = false; t.timed = timed; t.timedout = false;
		point();
		bool to = t.timedout;
		t.timed = false; t.timedout = false;
		t.wait = LOCK; t.obj = mo;
		point();
		t.wait = RUN;
		mo->owner = t.id; mo->depth = d;
		join(t.c, mo->c); join(t.c, mo->rc);
		unspin();
		return to ? ETIMEDOUT : 0;
	}
}
void signal_model(void *c, bool all) {
	In in;
	self->wait = RUN;
	point();
	unspin();
	int w[MAXT], n = 0;
	for (int i = 0; i < nthreads; i++) if (!T[i].finished && T[i].wait == COND && T[i].obj == c && !T[i].signalled) w[n++] = i;
	if (all) for (int i = 0; i < n; i++) T[w[i]].signalled = true;
	else if (n) T[w[choose(n, 0)]].signalled = true;
}
void yield_model() { In in; self->wait = RUN; point(true); }
// one-time initialisation: 1 = caller must run it
int once_enter(void *a, OType type, bool (*done)(void *)) {
	In in;
	Thread &t = *self;
	Obj *o = find(a, type);
	if (o->owner == t.id) violation("deadlock: thread %d enters a one-time initialisation it is in", t.id);
	t.wait = ONCE; t.obj = o;
	point();
	t.wait = RUN;
	join(t.c, o->c);
	unspin();
	if (done(a)) return 0;
	o->owner = t.id;
	return 1;
}
void once_leave(void *a, OType type) {
	In in;
	Obj *o = find(a, type);
	o->owner = -1;
	join(o->c, self->c); tick(*self);
	unspin();
}
bool guard_done(void *g) { return *static_cast<char *>(g) != 0; }
bool once_done(void *c) { return *static_cast<int *>(c) == 2; }

void *thread_main(void *p) {
	Thread &t = *static_cast<Thread *>(p);
	pthread_attr_t a;
	void *lo; size_t n;
	pthread_getattr_np(pthread_self(), &a);
	pthread_attr_getstack(&a, &lo, &n);
	pthread_attr_destroy(&a);
	t.stack_lo = static_cast<char *>(lo); t.stack_hi = t.stack_lo + n;
	fpost(&main_sem);
	fwait(&t.sem);
	self = &t;
	t.body();
	inside = true;
	finish();
	return nullptr;
}
void alarmed(int) {
	snprintf(shm->message, sizeof shm->message, "the execution does not end");
	shm->status = 2;
	_exit(0);
}
void *map(size_t n, bool shared) {
	void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(9); }
	return p;
}
}  // namespace

namespace sched {
static void execute(const std::function<Case()> &make) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	signal(SIGALRM, alarmed);
	alarm(60);
	{
		Case c = make();
		nthreads = int(c.threads.size());
		for (int i = 0; i < nthreads; i++) {
			Thread &t = T[i];
			t = Thread();
			t.id = i; t.body = c.threads[size_t(i)]; t.wait = RUN;
			t.c[i] = 1;
		}
		for (int i = 0; i < nthreads; i++) {
			if (pthread_create(&T[i].handle, nullptr, thread_main, &T[i])) trouble("cannot create threads");
			fwait(&main_sem);
		}
		active = true;
		fpost(&T[choose(nthreads, 0)].sem);
		fwait(&main_sem);
		active = false;
		for (int i = 0; i < nthreads; i++) pthread_join(T[i].handle, nullptr);
		std::string bad = c.judge();
		if (!bad.empty()) violation("%s", bad.c_str());
		for (int i = 0; i < nthreads; i++) T[i].body = nullptr;
	}
	shm->status = 1;
	_exit(0);
}

Outcome explore(const Options &o, const std::function<Case()> &make, const std::function<void(uint64_t)> &each, const std::function<bool()> &stop) {
	Outcome out;
	opt = o;
	if (!shm) {
		shm = static_cast<Shm *>(map(sizeof(Shm), true));
		gr = static_cast<Granule *>(map(sizeof(Granule) * GMAX, false));
		opool = static_cast<Obj *>(map(sizeof(Obj) * OMAX, false));
		apool = static_cast<Atom *>(map(sizeof(Atom) * AMAX, false));
	}
	memset(shm->frozen, 0, sizeof shm->frozen);
	memset(shm->found, 0, sizeof shm->found);
restart:
	shm->prefix = 0;
	shm->bound = o.bound;
	shm->grew = 0;
	for (;;) {
		shm->len = 0; shm->cost = 0; shm->status = 0; shm->points = shm->accesses = 0; shm->hash = 1;
		pid_t p = fork();
		if (p < 0) { out.failed = true; out.message = "fork failed"; return out; }
		if (p == 0) execute(make);
		int st;
		waitpid(p, &st, 0);
		out.executions++;
		out.points += shm->points; out.accesses += shm->accesses;
		if (shm->status == 3) {   // a limit of the explorer, or code whose behaviour is not a function of the schedule
			out.capped = true; out.message = shm->message;
			if (!shm->prefix) return out;
			shm->len = shm->prefix;
			shm->status = 1;
		}
		if (shm->status != 1) {
			out.failed = true;
			if (shm->status == 2) out.message = shm->message;
			else out.message = "the process ended with status " + std::to_string(st) + " after " + std::to_string(shm->len) + " choices";
			return out;
		}
		each(shm->hash);
		// next schedule
		int n = shm->len;
		while (n > 0) {
			Choice &c = shm->path[n - 1];
			bool mine = c.price == 0 || c.before > 0 || c.choice > 0 || (n - 1) % o.parts == o.part;
			if (mine && c.choice + 1 < c.n && c.before + c.price <= o.bound) { c.choice++; break; }
			n--;
		}
		if (!n) {
			if (!shm->grew) return out;
			memcpy(shm->frozen, shm->found, sizeof shm->frozen);
			goto restart;
		}
		shm->prefix = n;
		if (stop()) { out.capped = true; return out; }
	}
}
}  // namespace sched

// ---------------------------------------------------------------- hooks of operator new/delete
extern "C" {
void mc_hook_alloc(void *p) { if (on()) {
	In in;
	Thread &t = *self;
	if (nalloc[t.id] >= SEQ) trouble("too many allocations");
	forget(uintptr_t(p), malloc_usable_size(p), uint32_t(1 + t.id * SEQ + nalloc[t.id]++));
} }
void mc_hook_free(void *p) {
	if (!on()) return;
	In in;
	size_t n = malloc_usable_size(p);
	access(uintptr_t(p), n, true, __builtin_return_address(0), true);
}

// ---------------------------------------------------------------- what -fsanitize=thread calls
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *pc) { if (on()) { Thread &t = *self; if (t.depth < 256) t.pcs[t.depth] = pc; t.depth++; if (t.depth > 256) t.depth = 256; } }
void __tsan_func_exit() { if (on()) { Thread &t = *self; if (t.depth > 0) t.depth--; } }
void __tsan_read1(void *p) { plain(p, 1, false, PC); }
void __tsan_read2(void *p) { plain(p, 2, false, PC); }
void __tsan_read4(void *p) { plain(p, 4, false, PC); }
void __tsan_read8(void *p) { plain(p, 8, false, PC); }
void __tsan_read16(void *p) { plain(p, 16, false, PC); }
void __tsan_write1(void *p) { plain(p, 1, true, PC); }
void __tsan_write2(void *p) { plain(p, 2, true, PC); }
void __tsan_write4(void *p) { plain(p, 4, true, PC); }
void __tsan_write8(void *p) { plain(p, 8, true, PC); }
void __tsan_write16(void *p) { plain(p, 16, true, PC); }
void __tsan_unaligned_read2(void *p) { plain(p, 2, false, PC); }
void __tsan_unaligned_read4(void *p) { plain(p, 4, false, PC); }
void __tsan_unaligned_read8(void *p) { plain(p, 8, false, PC); }
void __tsan_unaligned_read16(void *p) { plain(p, 16, false, PC); }
void __tsan_unaligned_write2(void *p) { plain(p, 2, true, PC); }
void __tsan_unaligned_write4(void *p) { plain(p, 4, true, PC); }
void __tsan_unaligned_write8(void *p) { plain(p, 8, true, PC); }
void __tsan_unaligned_write16(void *p) { plain(p, 16, true, PC); }
void __tsan_volatile_read1(void *p) { plain(p, 1, false, PC); }
void __tsan_volatile_read2(void *p) { plain(p, 2, false, PC); }
void __tsan_volatile_read4(void *p) { plain(p, 4, false, PC); }
void __tsan_volatile_read8(void *p) { plain(p, 8, false, PC); }
void __tsan_volatile_read16(void *p) { plain(p, 16, false, PC); }
void __tsan_volatile_write1(void *p) { plain(p, 1, true, PC); }
void __tsan_volatile_write2(void *p) { plain(p, 2, true, PC); }
void __tsan_volatile_write4(void *p) { plain(p, 4, true, PC); }
void __tsan_volatile_write8(void *p) { plain(p, 8, true, PC); }
void __tsan_volatile_write16(void *p) { plain(p, 16, true, PC); }
void __tsan_read_range(void *p, unsigned long n) { plain(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { plain(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) plain(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { plain(p, 8, false, PC); }

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
	if (on()) { plain(const_cast<void *>(s), n, false, PC); plain(d, n, true, PC); }
	return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
	if (on()) { plain(const_cast<void *>(s), n, false, PC); plain(d, n, true, PC); }
	return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
	if (on()) plain(d, n, true, PC);
	return __real_memset(d, c, n);
}

typedef unsigned __int128 u128;
#define TYPED(T, n, bits) \
	T __tsan_atomic##bits##_load(const volatile T *a, int mo) { V v = a_load(uintptr_t(a), n, mo, PC); T r; memcpy(&r, &v, n); return r; } \
	void __tsan_atomic##bits##_store(volatile T *a, T x, int mo) { a_rmw(uintptr_t(a), n, mo, true, false, PC, [x](V, V &nv) { memcpy(&nv, &x, n); return true; }); } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T x, int mo) { V v = a_rmw(uintptr_t(a), n, mo, false, false, PC, [x](V, V &nv) { memcpy(&nv, &x, n); return true; }); T r; memcpy(&r, &v, n); return r; } \
	OP(T, n, bits, add, o + x) OP(T, n, bits, sub, o - x) OP(T, n, bits, and, o & x) OP(T, n, bits, or, o | x) OP(T, n, bits, xor, o ^ x) OP(T, n, bits, nand, ~(o & x)) \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T x, int mo, int fmo) { \
		T want = *e; bool ok = false; \
		V v = a_rmw(uintptr_t(a), n, mo, false, false, PC, [&](V old, V &nv) { T o; memcpy(&o, &old, n); ok = o == want; memcpy(&nv, &x, n); return ok; }); \
		if (!ok) memcpy(e, &v, n); \
		return ok; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T x, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, x, mo, fmo); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T x, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &e, x, mo, fmo); return e; }
#define OP(T, n, bits, name, expr) \
	T __tsan_atomic##bits##_fetch_##name(volatile T *a, T x, int mo) { \
		bool rc = n == 4 && (T(x) == T(1) || T(x) == T(-1)) && #name[0] == 'a' && #name[1] == 'd'; \
		V v = a_rmw(uintptr_t(a), n, mo, false, rc, PC, [x](V old, V &nv) { T o; memcpy(&o, &old, n); T q = T(expr); memcpy(&nv, &q, n); return true; }); \
		T r; memcpy(&r, &v, n); return r; }
TYPED(uint8_t, 1, 8)
TYPED(uint16_t, 2, 16)
TYPED(uint32_t, 4, 32)
TYPED(uint64_t, 8, 64)
TYPED(u128, 16, 128)
void __tsan_atomic_thread_fence(int mo) {
	if (!on()) return;
	In in;
	Thread &t = *self;
	if (acq(mo)) join(t.c, t.fence_acq);
	if (rel(mo)) { memcpy(t.fence_rel, t.c, sizeof t.fence_rel); tick(t); }
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- pthread
int pthread_mutex_lock(pthread_mutex_t *m) {
	if (on()) return lock_model(m, O_MUTEX, mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE, mutex_kind(m) == PTHREAD_MUTEX_ERRORCHECK, false);
	REAL(int, pthread_mutex_lock, pthread_mutex_t *); return r(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
	if (on()) return trylock_model(m, O_MUTEX, mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE);
	REAL(int, pthread_mutex_trylock, pthread_mutex_t *); return r(m);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *t) {
	if (on()) return lock_model(m, O_MUTEX, mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE, false, true);
	REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const timespec *); return r(m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *t) {
	if (on()) return lock_model(m, O_MUTEX, mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE, false, true);
	REAL(int, pthread_mutex_clocklock, pthread_mutex_t *, clockid_t, const timespec *); return r(m, c, t);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
	if (on()) return unlock_model(m, O_MUTEX);
	REAL(int, pthread_mutex_unlock, pthread_mutex_t *); return r(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
	if (on()) return lock_model(m, O_RW, false, true, false);
	REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *); return r(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
	if (on()) return trylock_model(m, O_RW, false);
	REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *); return r(m);
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t *m, const timespec *t) {
	if (on()) return lock_model(m, O_RW, false, true, true);
	REAL(int, pthread_rwlock_timedwrlock, pthread_rwlock_t *, const timespec *); return r(m, t);
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t *m, clockid_t c, const timespec *t) {
	if (on()) return lock_model(m, O_RW, false, true, true);
	REAL(int, pthread_rwlock_clockwrlock, pthread_rwlock_t *, clockid_t, const timespec *); return r(m, c, t);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
	if (on()) return rdlock_model(m, false, false);
	REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *); return r(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
	if (on()) return rdlock_model(m, true, false);
	REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *); return r(m);
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t *m, const timespec *t) {
	if (on()) return rdlock_model(m, false, true);
	REAL(int, pthread_rwlock_timedrdlock, pthread_rwlock_t *, const timespec *); return r(m, t);
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t *m, clockid_t c, const timespec *t) {
	if (on()) return rdlock_model(m, false, true);
	REAL(int, pthread_rwlock_clockrdlock, pthread_rwlock_t *, clockid_t, const timespec *); return r(m, c, t);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
	if (on()) return unlock_model(m, O_RW);
	REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *); return r(m);
}
int pthread_spin_lock(pthread_spinlock_t *m) {
	if (on()) return lock_model(const_cast<int *>(m), O_SPIN, false, false, false);
	REAL(int, pthread_spin_lock, pthread_spinlock_t *); return r(m);
}
int pthread_spin_trylock(pthread_spinlock_t *m) {
	if (on()) return trylock_model(const_cast<int *>(m), O_SPIN, false);
	REAL(int, pthread_spin_trylock, pthread_spinlock_t *); return r(m);
}
int pthread_spin_unlock(pthread_spinlock_t *m) {
	if (on()) return unlock_model(const_cast<int *>(m), O_SPIN);
	REAL(int, pthread_spin_unlock, pthread_spinlock_t *); return r(m);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	if (on()) return wait_model(c, m, O_MUTEX, false);
	REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *); return r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) {
	if (on()) return wait_model(c, m, O_MUTEX, true);
	REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const timespec *); return r(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t) {
	if (on()) return wait_model(c, m, O_MUTEX, true);
	REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *); return r(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t *c) {
	if (on()) { signal_model(c, false); return 0; }
	REAL(int, pthread_cond_signal, pthread_cond_t *); return r(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
	if (on()) { signal_model(c, true); return 0; }
	REAL(int, pthread_cond_broadcast, pthread_cond_t *); return r(c);
}
int pthread_once(pthread_once_t *c, void (*f)()) {
	if (on()) {
		if (!once_enter(c, O_ONCE, once_done)) return 0;
		try { f(); } catch (...) { once_leave(c, O_ONCE); throw; }
		*c = 2;
		once_leave(c, O_ONCE);
		return 0;
	}
	REAL(int, pthread_once, pthread_once_t *, void (*)()); return r(c, f);
}
int sched_yield() noexcept {
	if (on()) { yield_model(); return 0; }
	REAL(int, sched_yield); return r();
}
int usleep(useconds_t n) {
	if (on()) { yield_model(); return 0; }
	REAL(int, usleep, useconds_t); return r(n);
}
int nanosleep(const timespec *a, timespec *b) {
	if (on()) { yield_model(); return 0; }
	REAL(int, nanosleep, const timespec *, timespec *); return r(a, b);
}
int clock_nanosleep(clockid_t c, int f, const timespec *a, timespec *b) {
	if (on()) { yield_model(); return 0; }
	REAL(int, clock_nanosleep, clockid_t, int, const timespec *, timespec *); return r(c, f, a, b);
}
// function-local statics
int __cxa_guard_acquire(long long *g) {
	if (on()) return once_enter(g, O_GUARD, guard_done);
	REAL(int, __cxa_guard_acquire, long long *); return r(g);
}
void __cxa_guard_release(long long *g) {
	if (on()) { __tsan_atomic8_store(reinterpret_cast<uint8_t *>(g), 1, __ATOMIC_RELEASE); once_leave(g, O_GUARD); return; }
	REAL(void, __cxa_guard_release, long long *); r(g);
}
void __cxa_guard_abort(long long *g) {
	if (on()) { once_leave(g, O_GUARD); return; }
	REAL(void, __cxa_guard_abort, long long *); r(g);
}
}
