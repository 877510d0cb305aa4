// Implementation of the OpenMP entry points, of the memory-access callbacks emitted by
// -fsanitize=thread and of a deterministic scheduler over real threads (one runs at a time).
// This file itself is compiled without instrumentation.
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include "explore.h"
using namespace std;
namespace {
const int MAXT = 8;
struct VC { unsigned c[MAXT + 1]; };
struct Team;
struct Worker {
	pthread_t th; sem_t sem; int id = -1; Team* team = nullptr;
	bool finished = true, quit = false; const void* blocked = nullptr; unsigned ws = 0, singles = 0; int nest = 0; bool inside = false;
	VC vc; char *lo = nullptr, *hi = nullptr; int err = 0; std::string exc;
};
struct Work { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; bool guided = false; unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1; bool up = true; };
struct Team {
	int n; void (*fn)(void*); void* data; const std::vector<std::function<void()>>* fs = nullptr;
	std::map<unsigned, Work> works; std::map<unsigned, bool> singles; int arrived = 0; unsigned phase = 0; VC barrier; bool loop = false;
};
thread_local Worker* me = nullptr;
Worker* pool[MAXT]; sem_t master;
int T = 1, gmode = -1, gbound = 0;             // gmode: -1 outside explore, 0 probe, 1 sync, 2 all
struct Choice { unsigned n, pick; };
std::vector<Choice> dfs; size_t pos; int preempt; uint64_t points, syncs, nchoice; std::string err; std::string trail;
VC mvc;                                        // clock of the master (index MAXT)
std::map<const void*, VC> sync_vc; std::map<const void*, int> owner; std::map<const void*, int> initing;
int critical_tag, atomic_tag;

void problem(const std::string& s) { if (err.empty()) err = s + " [schedule " + (trail.size() > 200 ? trail.substr(0, 200) + "..." : trail) + "]"; }

// ---- shadow memory: accesses per aligned 8-byte cell --------------------------------------
struct Acc { unsigned char tid, mask; bool write; unsigned clk; };
struct Cell { uintptr_t a; unsigned gen; unsigned n; Acc e[12]; };
const size_t NC = 1 << 18; Cell* cells; unsigned gen = 1; size_t usedc;
Cell* cell(uintptr_t a, bool make) {
	size_t i = (a * 0x9e3779b97f4a7c15ull) >> 46;
	for (size_t k = 0; k < NC; ++k, i = (i + 1) & (NC - 1)) {
		if (cells[i].gen != gen) { if (!make || usedc * 2 > NC) return nullptr; ++usedc; cells[i].gen = gen; cells[i].a = a; cells[i].n = 0; return &cells[i]; }
		if (cells[i].a == a) return &cells[i];
	}
	return nullptr;
}
void touch(uintptr_t p, size_t n, bool write) {
	Worker* w = me; if (!w || w->finished || gmode < 0) return;
	uintptr_t end = p + n;
	while (p < end) {
		uintptr_t a = p & ~(uintptr_t) 7; unsigned from = p - a, to = end - a < 8 ? end - a : 8;
		unsigned char mask = (unsigned char) (((1u << to) - 1) & ~((1u << from) - 1));
		Cell* c = cell(a, true);
		if (c) {
			Acc* slot = nullptr;
			for (unsigned i = 0; i < c->n; ++i) {
				Acc& x = c->e[i];
				if (x.tid != w->id) { if ((x.mask & mask) && (x.write || write) && x.clk > w->vc.c[x.tid]) { char b[160]; snprintf(b, sizeof b, "data race: %s by thread %d and %s by thread %d of the same %u bytes", x.write ? "write" : "read", x.tid, write ? "write" : "read", w->id, to - from); problem(b); } }
				else if (x.write == write) { if (x.clk == w->vc.c[w->id]) { x.mask |= mask; slot = &x; } else if (!slot) { x.clk = w->vc.c[w->id]; x.mask = mask; slot = &x; } }
			}
			if (!slot && c->n < 12) { c->e[c->n++] = Acc{(unsigned char) w->id, mask, write, w->vc.c[w->id]}; }
		}
		p = a + 8;
	}
}
void forget(void* p, size_t n) {
	if (gmode < 0 || !cells) return;
	for (uintptr_t a = (uintptr_t) p & ~(uintptr_t) 7, e = (uintptr_t) p + n; a < e; a += 8) { Cell* c = cell(a, false); if (c) c->n = 0; }
}
void join(VC& a, const VC& b) { for (int i = 0; i <= MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

// ---- scheduling ---------------------------------------------------------------------------
Worker* choose(Team* t, Worker* cur, bool enabled) {
	Worker* alt[MAXT]; unsigned n = 0;
	if (enabled) alt[n++] = cur;
	for (int i = 0; i < t->n; ++i) { Worker* w = pool[i]; if (w != cur && !w->finished && !w->blocked) alt[n++] = w; }
	if (n == 0) return nullptr;
	if (enabled && preempt >= gbound) n = 1;
	if (gmode == 0) n = 1;
	if (n == 1) return alt[0];
	++nchoice;
	if (pos == dfs.size()) dfs.push_back({n, 0});
	unsigned k = dfs[pos].pick; dfs[pos].n = n; if (k >= n) k = n - 1; ++pos;
	if (enabled && k) ++preempt;
	trail += char('0' + alt[k]->id);
	return alt[k];
}
void handover(Worker* to) { if (to != me) { sem_post(&to->sem); while (sem_wait(&me->sem)) ; } }
void dead() { fprintf(stderr, "deadlock in schedule %s\n", trail.c_str()); fflush(stderr); _exit(3); }
void point(bool sync) {
	Worker* w = me; if (!w || w->finished || gmode < 0) return;
	++points; if (sync) ++syncs;
	if (gmode == 0 || (gmode == 1 && !sync)) return;
	int e = errno; w->inside = true; handover(choose(w->team, w, true)); w->inside = false; errno = e;
}
void block(const void* on) { Worker* w = me; w->blocked = on; w->inside = true; Worker* n = choose(w->team, w, false); if (!n) dead(); int e = errno; handover(n); w->inside = false; errno = e; }
void wake(const void* on) { Team* t = me->team; for (int i = 0; i < t->n; ++i) if (pool[i]->blocked == on) pool[i]->blocked = nullptr; }
void access(void* p, size_t n, bool write) {
	Worker* w = me; if (!w || w->finished || w->inside || gmode < 0) return;
	if ((char*) p >= w->lo && (char*) p < w->hi) return;      // own stack
	point(false); w->inside = true; touch((uintptr_t) p, n, write); w->inside = false;
}
void acq(const void* a) { auto i = sync_vc.find(a); if (i != sync_vc.end()) join(me->vc, i->second); }
void rel(const void* a) { VC& v = sync_vc[a]; join(v, me->vc); ++me->vc.c[me->id]; }
void* run(void* arg) {
	Worker* w = (Worker*) arg; me = w;
	pthread_attr_t at; void* b; size_t s; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &b, &s); pthread_attr_destroy(&at);
	w->lo = (char*) b; w->hi = (char*) b + s;
	for (;;) {
		while (sem_wait(&w->sem)) ;
		if (w->quit) return nullptr;
		errno = w->err;
		try { if (w->team->fs) (*w->team->fs)[w->id](); else w->team->fn(w->team->data); }
		catch (std::exception& e) { problem(std::string("exception escapes a thread: ") + e.what()); }
		catch (...) { problem("exception escapes a thread"); }
		w->err = errno; w->finished = true; w->inside = false;
		bool all = true; for (int i = 0; i < w->team->n; ++i) if (!pool[i]->finished) all = false;
		if (all) { sem_post(&master); continue; }
		Worker* n = choose(w->team, w, false);
		if (!n) dead();
		sem_post(&n->sem);
	}
}
void team(Team& t) {
	static bool init = false;
	if (!init) { init = true; sem_init(&master, 0, 0); }
	for (int i = 0; i < t.n; ++i) {
		if (!pool[i]) { pool[i] = new Worker; pool[i]->id = i; sem_init(&pool[i]->sem, 0, 0);
			pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
			if (pthread_create(&pool[i]->th, &at, run, pool[i])) { perror("pthread_create"); _exit(4); } }
		Worker* w = pool[i]; w->team = &t; w->finished = false; w->blocked = nullptr; w->ws = w->singles = 0; w->nest = 0;
		w->err = i ? 0 : errno; unsigned own = w->vc.c[i]; w->vc = mvc; w->vc.c[i] = own + 1; mvc.c[i] = own;
	}
	memset(&t.barrier, 0, sizeof t.barrier);
	int e0 = errno;
	Worker* n = choose(&t, nullptr, false);
	sem_post(&n->sem);
	while (sem_wait(&master)) ;
	for (int i = 0; i < t.n; ++i) join(mvc, pool[i]->vc);
	for (int i = 0; i < t.n; ++i) if (mvc.c[i] < pool[i]->vc.c[i]) mvc.c[i] = pool[i]->vc.c[i];
	errno = pool[0]->err; (void) e0;
}
void barrier_() {
	Worker* w = me; if (!w || w->nest) return; Team* t = w->team;
	point(true); join(t->barrier, w->vc);
	if (++t->arrived == t->n) { t->arrived = 0; ++t->phase; wake(&t->barrier); }
	else { unsigned ph = t->phase; while (t->phase == ph) block(&t->barrier); }
	join(w->vc, t->barrier); ++w->vc.c[w->id];
}
} // namespace

namespace sched {
Result explore(int threads_, Mode mode, int bound, uint64_t cap, const std::function<void()>& body, const std::function<void()>& after) {
	Result r; if (!cells) cells = (Cell*) calloc(NC, sizeof(Cell));
	T = threads_; gbound = bound; dfs.clear(); int m = mode == ALL ? 2 : 0;
	for (;;) {
		++gen; usedc = 0; memset(&mvc, 0, sizeof mvc); for (int i = 0; i < MAXT; ++i) if (pool[i]) memset(&pool[i]->vc, 0, sizeof(VC));
		sync_vc.clear(); owner.clear(); initing.clear();
		pos = 0; preempt = 0; points = syncs = nchoice = 0; err.clear(); trail.clear(); gmode = m;
		body(); gmode = -1;
		++r.schedules; r.points += points; r.choices += nchoice; r.syncs += syncs;
		if (!err.empty() && r.error.empty()) r.error = err;
		after();
		if (!r.error.empty()) return r;
		if (m == 0) { if (!syncs) return r; m = 1; dfs.clear(); continue; }
		dfs.resize(pos);
		while (!dfs.empty() && dfs.back().pick + 1 >= dfs.back().n) dfs.pop_back();
		if (dfs.empty()) return r;
		++dfs.back().pick;
		if (r.schedules >= cap) { r.complete = false; return r; }
	}
}
void threads(const std::vector<std::function<void()>>& f) { Team t; t.n = (int) f.size(); t.fn = nullptr; t.data = nullptr; t.fs = &f; team(t); }
}

// ---- allocation: fresh memory has no history ----------------------------------------------
static void* alloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); forget(p, n); return p; }
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

extern "C" {
// ---- OpenMP -------------------------------------------------------------------------------
int omp_get_thread_num() { return me && !me->finished && !me->nest ? me->id : 0; }
int omp_get_num_threads() { return me && !me->finished && !me->nest ? me->team->n : 1; }
int omp_get_max_threads() { return T; }
int omp_get_num_procs() { return T; }
int omp_in_parallel() { return me && !me->finished; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_level() { return me && !me->finished ? 1 : 0; }
double omp_get_wtime() { return 0; }
static int width(unsigned n) { int k = n ? (int) n : T; return k < 1 ? 1 : k > MAXT ? MAXT : k; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
	if ((me && !me->finished) || gmode < 0) { if (me) ++me->nest; fn(data); if (me) --me->nest; return; }
	Team t; t.n = width(n); t.fn = fn; t.data = data; team(t);
}
static void ploop(void (*fn)(void*), void* data, unsigned n, long s, long e, long incr, long chunk, bool guided) {
	Team t; t.n = width(n); t.fn = fn; t.data = data; t.loop = true;
	Work& w = t.works[0]; w.init = true; w.next = s; w.end = e; w.incr = incr; w.chunk = chunk < 1 ? 1 : chunk; w.guided = guided;
	if ((me && !me->finished) || gmode < 0) { fprintf(stderr, "nested loop construct\n"); _exit(5); }
	team(t);
}
#define PLOOP(name, g) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c, g); }
PLOOP(static, false) PLOOP(dynamic, false) PLOOP(guided, true) PLOOP(nonmonotonic_dynamic, false) PLOOP(nonmonotonic_guided, true)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1, false); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
static bool grab(Work& w, long* a, long* b) {
	point(true);
	if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
	long left = (w.end - w.next + w.incr - (w.incr > 0 ? 1 : -1)) / w.incr, k = w.chunk;
	if (w.guided) { long q = (left + me->team->n - 1) / me->team->n; if (q > k) k = q; }
	if (k > left) k = left;
	*a = w.next; w.next += k * w.incr; *b = w.next; if (w.incr > 0 ? *b > w.end : *b < w.end) *b = w.end;
	return true;
}
static bool lstart(long s, long e, long i, long c, bool g, long* a, long* b) {
	Work& w = me->team->works[me->ws];
	if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = c < 1 ? 1 : c; w.guided = g; }
	return grab(w, a, b);
}
#define LOOP(name, g) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return lstart(s, e, i, c, g, a, b); } \
	bool GOMP_loop_##name##_next(long* a, long* b) { return grab(me->team->works[me->ws], a, b); }
LOOP(static, false) LOOP(dynamic, false) LOOP(guided, true) LOOP(nonmonotonic_dynamic, false) LOOP(nonmonotonic_guided, true)
#define LOOPR(name) bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return lstart(s, e, i, 1, false, a, b); } \
	bool GOMP_loop_##name##_next(long* a, long* b) { return grab(me->team->works[me->ws], a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
typedef unsigned long long ull;
static bool ugrab(Work& w, ull* a, ull* b) {
	point(true);
	if (w.up ? w.unext >= w.uend : w.unext <= w.uend) return false;
	ull step = w.up ? w.uincr : (ull) 0 - w.uincr, left = ((w.up ? w.uend - w.unext : w.unext - w.uend) + step - 1) / step, k = w.uchunk;
	if (w.guided) { ull q = (left + me->team->n - 1) / me->team->n; if (q > k) k = q; }
	if (k > left) k = left;
	*a = w.unext; if (k == left) w.unext = w.uend; else w.unext += k * w.uincr; *b = w.unext;
	return true;
}
static bool ustart(bool up, ull s, ull e, ull i, ull c, bool g, ull* a, ull* b) {
	Work& w = me->team->works[me->ws];
	if (!w.init) { w.init = true; w.up = up; w.unext = s; w.uend = e; w.uincr = i; w.uchunk = c < 1 ? 1 : c; w.guided = g; }
	return ugrab(w, a, b);
}
#define ULOOP(name, g) bool GOMP_loop_ull_##name##_start(bool u, ull s, ull e, ull i, ull c, ull* a, ull* b) { return ustart(u, s, e, i, c, g, a, b); } \
	bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return ugrab(me->team->works[me->ws], a, b); }
ULOOP(static, false) ULOOP(dynamic, false) ULOOP(guided, true) ULOOP(nonmonotonic_dynamic, false) ULOOP(nonmonotonic_guided, true)
#define ULOOPR(name) bool GOMP_loop_ull_##name##_start(bool u, ull s, ull e, ull i, ull* a, ull* b) { return ustart(u, s, e, i, 1, false, a, b); } \
	bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return ugrab(me->team->works[me->ws], a, b); }
ULOOPR(runtime) ULOOPR(nonmonotonic_runtime) ULOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait() { ++me->ws; }
void GOMP_loop_end() { ++me->ws; barrier_(); }
void GOMP_barrier() { barrier_(); }
bool GOMP_single_start() { if (!me || me->finished || me->nest) return true; point(true); bool& s = me->team->singles[me->singles++]; if (s) return false; return s = true; }
unsigned GOMP_sections_next() { long a, b; return grab(me->team->works[me->ws], &a, &b) ? (unsigned) a : 0; }
unsigned GOMP_sections_start(unsigned n) { Work& w = me->team->works[me->ws]; if (!w.init) { w.init = true; w.next = 1; w.end = n + 1; } return GOMP_sections_next(); }
void GOMP_sections_end() { ++me->ws; barrier_(); }
void GOMP_sections_end_nowait() { ++me->ws; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { ploop(fn, d, n, 1, (long) c + 1, 1, 1, false); }
static void lock(const void* a) { if (!me || me->finished || gmode < 0) return; point(true); while (owner.count(a)) block(a); owner[a] = me->id; acq(a); }
static void unlock(const void* a) { if (!me || me->finished || gmode < 0) return; rel(a); owner.erase(a); wake(a); }
void GOMP_critical_start() { lock(&critical_tag); }
void GOMP_critical_end() { unlock(&critical_tag); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomic_tag); }
void GOMP_atomic_end() { unlock(&atomic_tag); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
void GOMP_taskwait() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int) {
	if (cpy) { char* b = (char*) malloc(size + align); char* p = (char*) (((uintptr_t) b + align - 1) / align * align); cpy(p, data); fn(p); free(b); } else fn(data);
}
// ---- mutexes ------------------------------------------------------------------------------
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!me || me->finished || gmode < 0) return __real_pthread_mutex_lock(m); lock(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!me || me->finished || gmode < 0) return __real_pthread_mutex_unlock(m); unlock(m); return 0; }
// ---- guarded initialisation of local static variables -------------------------------------
int __real___cxa_guard_acquire(long long*); void __real___cxa_guard_release(long long*); void __real___cxa_guard_abort(long long*);
int __wrap___cxa_guard_acquire(long long* g) {
	if (!me || me->finished || gmode < 0) return __real___cxa_guard_acquire(g);
	point(true); while (initing.count(g)) block(g);
	int r = __real___cxa_guard_acquire(g); if (r) initing[g] = me->id; else acq(g); return r;
}
void __wrap___cxa_guard_release(long long* g) { __real___cxa_guard_release(g); if (me && !me->finished && gmode >= 0) { rel(g); initing.erase(g); wake(g); } }
void __wrap___cxa_guard_abort(long long* g) { __real___cxa_guard_abort(g); if (me && !me->finished && gmode >= 0) { initing.erase(g); wake(g); } }
// ---- memory accesses ----------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
	void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
	void __tsan_read_write##n(void* p) { access(p, n, false); access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access((void*) s, n, false); access(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access((void*) s, n, false); access(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) access(d, n, true); return __real_memset(d, c, n); }
// ---- atomics: acquire-release unless relaxed ----------------------------------------------
static bool on() { return me && !me->finished && gmode >= 0; }
static void before(const void* p, int mo) { if (on()) { point(true); if (mo != 0) acq(p); } }
static void done(const void* p, int mo) { if (on() && mo != 0) rel(p); }
#define AT(bits, type) \
	type __tsan_atomic##bits##_load(const volatile type* p, int mo) { before((const void*) p, mo); return *p; } \
	void __tsan_atomic##bits##_store(volatile type* p, type v, int mo) { before((const void*) p, mo); *p = v; done((const void*) p, mo); } \
	type __tsan_atomic##bits##_exchange(volatile type* p, type v, int mo) { before((const void*) p, mo); type o = *p; *p = v; done((const void*) p, mo); return o; } \
	type __tsan_atomic##bits##_fetch_add(volatile type* p, type v, int mo) { before((const void*) p, mo); type o = *p; *p = o + v; done((const void*) p, mo); return o; } \
	type __tsan_atomic##bits##_fetch_sub(volatile type* p, type v, int mo) { before((const void*) p, mo); type o = *p; *p = o - v; done((const void*) p, mo); return o; } \
	type __tsan_atomic##bits##_fetch_and(volatile type* p, type v, int mo) { before((const void*) p, mo); type o = *p; *p = o & v; done((const void*) p, mo); return o; } \
	type __tsan_atomic##bits##_fetch_or(volatile type* p, type v, int mo) { before((const void*) p, mo); type o = *p; *p = o | v; done((const void*) p, mo); return o; } \
	type __tsan_atomic##bits##_fetch_xor(volatile type* p, type v, int mo) { before((const void*) p, mo); type o = *p; *p = o ^ v; done((const void*) p, mo); return o; } \
	bool __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int mo, int) { before((const void*) p, mo); if (*p == *e) { *p = v; done((const void*) p, mo); return true; } *e = *p; return false; } \
	bool __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int mo, int f) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, f); } \
	type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type e, type v, int mo, int f) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, f); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
