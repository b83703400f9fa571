// Deterministic simulator for the RuC compiler.
//
// One process ("zygote") never runs code under test itself: for every scenario read on stdin it forks a child,
// the child executes the scenario over a simulated file system, allocator, clock, environment and scheduler, and
// reports through shared memory.  The zygote forwards the report.  A scenario decides everything: same scenario +
// same code = same event log, byte for byte.
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <alloca.h>
#include <ucontext.h>
#include <sys/personality.h>
#include <unistd.h>
#include "seam.h"

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#include <sanitizer/asan_interface.h>
#else
#define SIM_ASAN 0
#endif

typedef uint64_t u64;
using std::string;

/* ------------------------------------------------------------------ shared report buffer */
static const size_t REPORT_MAX = 96u << 20;
static const size_t PCMAP = 1u << 22;
struct Shared
{
	volatile u64 len;
	volatile u64 done;
	volatile u64 steps;
	unsigned char pcs[PCMAP];
	char text[1];
};
static Shared *shm;

static void rep(const char *s, size_t n)
{
	if (shm->len + n < REPORT_MAX - 4096)
	{
		memcpy(shm->text + shm->len, s, n);
		shm->len += n;
	}
}
static void repf(const char *fmt, ...)
{
	char b[4096];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	rep(b, n < (int)sizeof b ? n : (int)sizeof b - 1);
}

/* ------------------------------------------------------------------ rng / hash */
struct Rng
{
	u64 s;
	u64 next()
	{
		u64 z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	u64 below(u64 n) { return n ? next() % n : 0; }
};
static u64 fnv(const void *p, size_t n, u64 h = 1469598103934665603ull)
{
	const unsigned char *b = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	return h;
}

/* ------------------------------------------------------------------ scenario */
struct Fault
{
	string kind, path, action;
	long nth, count, param;
	long seen = 0, fired = 0;
	int job = -1;                             // "heap:J": allocations of call J only
};
struct Job
{
	int thread, loggers;
	string api, out;
	std::vector<string> args;
	std::vector<long> ops;
};
struct FileIn { string path, data; int mode; };
struct Scenario
{
	std::map<string, long> knob;
	std::vector<FileIn> files;
	std::vector<Job> jobs;
	std::vector<Fault> faults;
	std::vector<std::pair<u64, int>> sched;
	long k(const char *n, long d) const { auto i = knob.find(n); return i == knob.end() ? d : i->second; }
};
static Scenario *sc;

/* ------------------------------------------------------------------ simulator state (child only) */
struct Inode { string data; int mode; int dir; u64 ino; };
static std::map<string, Inode *> *fs;
static u64 next_ino = 1;
static u64 ev_hash = 1469598103934665603ull, ev_count;
static u64 seam_ops;
static std::map<string, long> *op_count;
static std::vector<string> *transcripts;      // per job
static std::vector<string> *returned;         // per job
static bool tracing;
static long kill_at_op = -1;
static u64 kill_at_step;
static u64 step_limit;
static u64 steps;
static u64 switch_in = ~0ull;                 // steps until next scheduling decision
static __thread int cur_job = -1;
static __thread int in_sim;                   // inside simulator code (no yields)
static bool finished;
static int files_open;

static void finish(const char *why, const char *detail);

static void event(const char *fmt, ...)
{
	char b[512];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if (n >= (int)sizeof b) n = sizeof b - 1;
	ev_hash = fnv(b, n, ev_hash);
	ev_hash = fnv("\n", 1, ev_hash);
	ev_count++;
	if (tracing) repf("EV %llu j%d %s\n", (unsigned long long)ev_count, cur_job, b);
}

extern "C" void sim_violation(const char *fmt, ...)
{
	char b[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	event("violation %s", b);
	repf("VIOL %d %s\n", cur_job, b);
}

extern "C" void sim_note(const char *fmt, ...)
{
	char b[8192];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if (cur_job >= 0) (*transcripts)[cur_job] += b;
}
static void transcript(const char *p, size_t n)
{
	if (cur_job >= 0 && (*transcripts)[cur_job].size() < (1u << 20)) (*transcripts)[cur_job].append(p, n);
}
extern "C" void sim_logger(int kind, const char *tag, const char *msg)
{
	string s = kind == 0 ? "[error]" : kind == 1 ? "[warning]" : "[note]";
	s += string("{") + (tag ? tag : "(null)") + "}{" + (msg ? msg : "(null)") + "}\n";
	transcript(s.data(), s.size());
}
extern "C" void sim_restart(void)
{
	(*transcripts)[cur_job].clear();
	(*returned)[cur_job].clear();
}
extern "C" char *sim_take_text(const char *t)
{
	(*returned)[cur_job] = t ? string("T") + t : string("N");
	return nullptr;
}

/* ------------------------------------------------------------------ scheduler: one thread runs at a time */
struct Thr { pthread_t id; sem_t go; bool done; };
static std::vector<Thr *> *thrs;
static int running = -1;
static Rng sched_rng;
static u64 switches;
static int held;
static size_t sched_pos;
static u64 sched_hash = 1469598103934665603ull;

static bool no_timer;
static u64 draw_period()
{
	long p = sc->k("period", 0);
	if (p <= 0) return ~0ull;
	// geometric-ish mixture: short and long slices
	u64 r = sched_rng.below(4);
	if (r == 0) return 1 + sched_rng.below((u64)p / 8 + 1);
	return 1 + sched_rng.below(2 * (u64)p);
}
static void arm_next()
{
	if (!sc->sched.empty() || sc->k("explicit", 0))
	{
		if (sched_pos < sc->sched.size())
		{
			u64 at = sc->sched[sched_pos].first;
			switch_in = at > steps ? at - steps : 1;
		}
		else switch_in = ~0ull;
	}
	else
	{
		switch_in = no_timer ? ~0ull : draw_period();
		no_timer = false;
	}
}
static void hand_to(int t)
{
	int me = running;
	if (t == me) return;
	running = t;
	sem_post(&(*thrs)[t]->go);
	if (!(*thrs)[me]->done) { while (sem_wait(&(*thrs)[me]->go) != 0) {} }
}
static int pick_other()
{
	std::vector<int> c;
	for (size_t i = 0; i < thrs->size(); i++) if (!(*thrs)[i]->done && (int)i != running) c.push_back(i);
	if (c.empty()) return -1;
	return c[sched_rng.below(c.size())];
}
static void do_switch()
{
	in_sim++;
	int t;
	if (!sc->sched.empty() || sc->k("explicit", 0))
	{
		t = sc->sched[sched_pos++].second;
		if (t < 0 || t >= (int)thrs->size() || (*thrs)[t]->done) t = -1;
	}
	else t = pick_other();
	arm_next();
	if (t >= 0 && t != running)
	{
		switches++;
		u64 rec[2] = { steps, (u64)t };
		sched_hash = fnv(rec, sizeof rec, sched_hash);
		if (switches <= 20000) repf("SW %llu %d\n", (unsigned long long)steps, t);
		hand_to(t);
	}
	in_sim--;
}

/* locks: the thread that holds one may be waiting for its turn, so a thread that wants it lets the next one run */
static void wait_turn()
{
	if (++steps >= step_limit || !thrs) finish("hang", "lock ");
	in_sim++;
	const int n = (int)thrs->size();
	for (int i = 1; i < n; i++)
	{
		const int t = (running + i) % n;
		if (!(*thrs)[t]->done) { switches++; hand_to(t); break; }
	}
	in_sim--;
}
extern "C" int sim_pthread_mutex_lock(pthread_mutex_t *m) { int e; while ((e = pthread_mutex_trylock(m)) == EBUSY) wait_turn(); return e; }
extern "C" int sim_mtx_lock(pthread_mutex_t *m) { return sim_pthread_mutex_lock(m) ? 2 : 0; }
extern "C" int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) { int e; while ((e = pthread_rwlock_tryrdlock(m)) == EBUSY) wait_turn(); return e; }
extern "C" int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) { int e; while ((e = pthread_rwlock_trywrlock(m)) == EBUSY) wait_turn(); return e; }
extern "C" int sim_pthread_spin_lock(pthread_spinlock_t *m) { int e; while ((e = pthread_spin_trylock(m)) == EBUSY) wait_turn(); return e; }
extern "C" int sim_pthread_once(pthread_once_t *o, void (*f)())
{
	static std::map<void *, int> *once;
	if (!once) once = new std::map<void *, int>;
	int &s = (*once)[o];
	while (s == 1) wait_turn();
	if (s == 0) { s = 1; f(); s = 2; }
	return 0;
}
extern "C" void sim_call_once(void *o, void (*f)()) { sim_pthread_once((pthread_once_t *)o, f); }
/* the C library takes these locks inside its own calls: no switch while one is held */
extern "C" void sim_flockfile(FILE *f) { flockfile(f); held++; }
extern "C" void sim_funlockfile(FILE *f) { held--; funlockfile(f); }

static string walk(uintptr_t fp, uintptr_t sp)
{
	// frame pointers are kept in every object
	string b;
	char t[24];
	for (int i = 0; i < 16; i++)
	{
		if (fp < sp || fp > sp + (8u << 20) || (fp & 7)) break;
		uintptr_t *f = (uintptr_t *)fp;
		if (!f[1]) break;
		snprintf(t, sizeof t, "%s%llx", i ? "," : "", (unsigned long long)f[1] - 1);
		b += t;
		if (f[0] <= fp) break;
		fp = f[0];
	}
	return b;
}
/* static variables of the code under test: a block that changed one is a good place to let another thread run */
extern "C" { extern char __start_repo_data[] __attribute__((weak)), __stop_repo_data[] __attribute__((weak)), __start_repo_bss[] __attribute__((weak)), __stop_repo_bss[] __attribute__((weak)); }
static u64 watch;                             // percent of such places used
static char *watched[2];
static bool static_changed()
{
	bool c = false;
	char *const a[2] = { __start_repo_data, __start_repo_bss };
	const size_t n[2] = { (size_t)(__stop_repo_data - __start_repo_data), (size_t)(__stop_repo_bss - __start_repo_bss) };
	for (int i = 0; i < 2; i++)
	{
		if (!n[i] || (n[i] > 4096 && steps % (n[i] / 4096))) continue;     // keep the cost of a block bounded
		if (!watched[i])
		{
			watched[i] = (char *)malloc(n[i]);
			memcpy(watched[i], a[i], n[i]);
		}
		else if (memcmp(watched[i], a[i], n[i]))
		{
			memcpy(watched[i], a[i], n[i]);
			c = true;
		}
	}
	return c;
}
static char *strtok_at __attribute__((section("repo_data"))) = nullptr;
extern "C" char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &strtok_at); }
static void hang_here(uintptr_t *fp)
{
	finish("hang", ("steps " + walk((uintptr_t)fp, (uintptr_t)fp)).c_str());
}

extern "C" void __sanitizer_cov_trace_pc(void)
{
	if (__builtin_expect(!sc, 0)) return;
	uintptr_t pc = (uintptr_t)__builtin_return_address(0);
	shm->pcs[pc & (PCMAP - 1)] = 1;
	steps++;
	if (__builtin_expect(steps >= step_limit, 0)) hang_here((uintptr_t *)__builtin_frame_address(0));
	if (__builtin_expect(steps == kill_at_step, 0)) finish("killed", "at step");
	if (__builtin_expect(--switch_in == 0, 0))
	{
		if (in_sim || held || !thrs) { switch_in = 1; return; }
		do_switch();
	}
	else if (__builtin_expect(watch != 0, 0) && static_changed())
	{
		if (in_sim || held || !thrs) { if (sched_rng.below(100) < watch) switch_in = 1; return; }
		if (sched_rng.below(100) < watch)
		{
			no_timer = sched_rng.below(2);    // often the next thread gets all the time it needs to come to the same place
			do_switch();
		}
	}
}

/* ------------------------------------------------------------------ fault decisions */
static Fault *fault_for(const char *kind, const char *path)
{
	seam_ops++;
	shm->steps = steps;
	if (kill_at_op >= 0 && (long)seam_ops > kill_at_op) finish("killed", "at seam operation");
	string key = string(kind) + " " + path;
	(*op_count)[key]++;
	Fault *hit = nullptr;
	for (auto &f : sc->faults)
	{
		if (f.kind != kind) continue;
		if (f.path != "*" && f.path != path && !(f.job >= 0 && f.job == cur_job)) continue;
		long n = f.seen++;
		if (n >= f.nth && (f.count < 0 || n < f.nth + f.count))
		{
			if (!hit) { hit = &f; f.fired++; }
		}
	}
	return hit;
}
extern "C" long sim_faults_on(const char *kind, const char *path)
{
	long n = 0;
	for (auto &f : sc->faults) if (f.kind == kind && (f.path == path || f.path == "*")) n += f.fired;
	return n;
}
extern "C" const char *sim_file(const char *path, size_t *size)
{
	auto i = fs->find(path);
	if (i == fs->end()) return nullptr;
	*size = i->second->data.size();
	return i->second->data.data();
}
static int errno_of(const string &a)
{
	static const std::map<string, int> m = { { "EIO", EIO }, { "ENOSPC", ENOSPC }, { "EINTR", EINTR }, { "EACCES", EACCES },
		{ "ENOENT", ENOENT }, { "EMFILE", EMFILE }, { "ENFILE", ENFILE }, { "EDQUOT", EDQUOT }, { "EFBIG", EFBIG }, { "EROFS", EROFS },
		{ "EPERM", EPERM }, { "ENOMEM", ENOMEM }, { "EPIPE", EPIPE }, { "ESTALE", ESTALE }, { "EISDIR", EISDIR }, { "EAGAIN", EAGAIN },
		{ "ELOOP", ELOOP }, { "ENAMETOOLONG", ENAMETOOLONG }, { "ETXTBSY", ETXTBSY } };
	auto i = m.find(a);
	return i == m.end() ? EIO : i->second;
}

/* ------------------------------------------------------------------ allocator */
struct Block { size_t size; int job; u64 seq; bool freed; };
static const uintptr_t ARENA = 0x600000000000ull;
static const size_t ARENA_SIZE = 4ull << 30;
static size_t arena_top;
static const size_t RZ = 32;
static std::map<void *, Block> *blocks;
static std::map<size_t, std::vector<void *>> *freelist;
static u64 refused_jobs;                      // which calls were refused memory
static string *refused_site;                  // where the first allocation was refused
static u64 alloc_seq, alloc_refused, live_bytes, peak_bytes, total_bytes;
static Rng heap_rng;

extern "C" int sim_alloc_failed_now(void) { return (int)alloc_refused; }

static void heap_fill(void *p, size_t n)
{
	long f = sc->k("heapfill", 0xAA);
	if (f == 256) { return; }                     // leave stale contents
	if (f == 257)
	{
		u64 v = 0;
		for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) v = heap_rng.next(); ((unsigned char *)p)[i] = v >> (8 * (i & 7)); }
		return;
	}
	memset(p, (int)f, n);
}
static void *raw_alloc(size_t n)
{
#if SIM_ASAN
	return malloc(n ? n : 1);
#else
	size_t r = (n + 15) & ~(size_t)15;
	if (sc->k("reuse", 0))
	{
		auto &l = (*freelist)[r];
		if (!l.empty()) { void *p = l.back(); l.pop_back(); return p; }
	}
	size_t need = RZ + r + RZ;
	if (arena_top + need > ARENA_SIZE) finish("hang", "arena exhausted (unbounded memory growth)");
	char *b = (char *)(ARENA + arena_top);
	arena_top += need;
	memset(b, 0xFD, RZ);
	memset(b + RZ + n, 0xFD, r - n + RZ);
	return b + RZ;
#endif
}
#if !SIM_ASAN
static bool redzone_ok(const char *p, size_t n)
{
	size_t r = (n + 15) & ~(size_t)15;
	for (size_t i = 1; i <= RZ; i++) if ((unsigned char)p[-(long)i] != 0xFD) return false;
	for (size_t i = n; i < r + RZ; i++) if ((unsigned char)p[i] != 0xFD) return false;
	return true;
}
#endif
static bool refuse(size_t n)
{
	in_sim++;
	Fault *f = fault_for("malloc", "heap");
	in_sim--;
	if ((f || (sc->k("heapcap", 0) && live_bytes + n > (u64)sc->k("heapcap", 0))) && !refused_site) { uintptr_t fp = (uintptr_t)__builtin_frame_address(0); refused_site = new string(walk(fp, fp)); }
	if (f) { alloc_refused++; if (cur_job >= 0) refused_jobs |= 1ull << (cur_job & 63); event("malloc #%llu %zu refused", (unsigned long long)alloc_seq, n); alloc_seq++; errno = ENOMEM; return true; }
	long cap = sc->k("heapcap", 0);
	if (cap && live_bytes + n > (u64)cap) { alloc_refused++; if (cur_job >= 0) refused_jobs |= 1ull << (cur_job & 63); event("malloc #%llu %zu over cap", (unsigned long long)alloc_seq, n); alloc_seq++; errno = ENOMEM; return true; }
	if (n > (1ull << 32)) { event("malloc huge refused"); errno = ENOMEM; alloc_seq++; return true; }
	if (live_bytes + n > (2ull << 30)) finish("hang", "live heap above 2 GB (unbounded memory growth)");
	return false;
}
extern "C" void *sim_malloc(size_t n)
{
	if (refuse(n)) return NULL;
	in_sim++;
	void *p = raw_alloc(n);
	if (n) heap_fill(p, n);
#if !SIM_ASAN
	else memset(p, 0xFD, 16);
	{ size_t r = (n + 15) & ~(size_t)15; memset((char *)p + n, 0xFD, r - n + RZ); }
#endif
	(*blocks)[p] = Block{ n, cur_job, alloc_seq++, false };
	live_bytes += n; total_bytes += n;
	if (live_bytes > peak_bytes) peak_bytes = live_bytes;
	ev_hash = fnv(&n, sizeof n, ev_hash); ev_count++;
	in_sim--;
	return p;
}
extern "C" void *sim_calloc(size_t a, size_t b)
{
	void *p = sim_malloc(a * b);
	if (p) memset(p, 0, a * b);
	return p;
}
static void bad_free(const char *what, void *)
{
	sim_violation("memory: %s", what);
	finish("memory", what);
}
extern "C" void sim_free(void *p)
{
	if (!p) return;
	in_sim++;
	auto it = blocks->find(p);
	if (it == blocks->end()) { free(p); in_sim--; return; }     // came from libc itself (strdup-like helpers)
	if (it->second.freed) bad_free("double free", p);
	size_t n = it->second.size;
	live_bytes -= n;
#if SIM_ASAN
	blocks->erase(it);
	free(p);
#else
	if (!redzone_ok((char *)p, n)) bad_free("heap overflow found at free", p);
	if (sc->k("reuse", 0))
	{
		if (sc->k("heapfill", 0xAA) != 256) memset(p, 0xDD, n);
		blocks->erase(it);
		(*freelist)[(n + 15) & ~(size_t)15].push_back(p);
	}
	else
	{
		it->second.freed = true;
		memset(p, 0xDD, n);
	}
#endif
	in_sim--;
}
extern "C" void *sim_realloc(void *p, size_t n)
{
	if (!p) return sim_malloc(n);
	in_sim++;
	auto it = blocks->find(p);
	if (it == blocks->end() || it->second.freed) bad_free(it == blocks->end() ? "realloc of a pointer never allocated" : "realloc after free", p);
	size_t old = it->second.size;
	in_sim--;
	if (n == 0) { sim_free(p); return NULL; }
	if (sc->k("inplace", 0) && n <= old) { refuse(0); return p; }
	void *q = sim_malloc(n);
	if (!q) return NULL;
	memcpy(q, p, old < n ? old : n);
	sim_free(p);
	return q;
}
extern "C" void *sim_reallocarray(void *p, size_t a, size_t b) { return sim_realloc(p, a * b); }
extern "C" char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
extern "C" char *sim_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *p = (char *)sim_malloc(n + 1);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}
extern "C" void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
extern "C" int sim_posix_memalign(void **o, size_t, size_t n) { *o = sim_malloc(n); return *o ? 0 : ENOMEM; }

static void heap_audit()
{
#if !SIM_ASAN
	for (auto &b : *blocks)
	{
		const char *p = (const char *)b.first;
		if (!redzone_ok(p, b.second.size)) { sim_violation("memory: heap overflow"); return; }
		if (b.second.freed)
			for (size_t i = 0; i < b.second.size; i++)
				if ((unsigned char)p[i] != 0xDD) { sim_violation("memory: write after free"); return; }
	}
#endif
}

/* ------------------------------------------------------------------ file system */
static string *cwd;     // set by chdir
static string norm(const char *p)
{
	string s = p[0] == '/' ? p : (cwd ? *cwd : "/w") + "/" + p;
	std::vector<string> parts;
	size_t i = 0;
	while (i < s.size())
	{
		while (i < s.size() && s[i] == '/') i++;
		size_t j = i;
		while (j < s.size() && s[j] != '/') j++;
		string c = s.substr(i, j - i);
		i = j;
		if (c.empty() || c == ".") continue;
		if (c == "..") { if (!parts.empty()) parts.pop_back(); continue; }
		parts.push_back(c);
	}
	string r;
	for (auto &c : parts) r += "/" + c;
	return r.empty() ? "/" : r;
}
static bool is_dir(const string &p)
{
	if (p == "/" || p == "/w" || p == "/tmp") return true;
	auto i = fs->find(p);
	if (i != fs->end()) return i->second->dir;
	string pre = p + "/";
	auto l = fs->lower_bound(pre);
	return l != fs->end() && l->first.compare(0, pre.size(), pre) == 0;
}
static string parent(const string &p) { size_t i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
static Inode *lookup(const string &p) { auto i = fs->find(p); return i == fs->end() || i->second->dir ? nullptr : i->second; }

struct Cookie
{
	string path;
	Inode *ino;
	size_t pos;
	int fd, job;
	bool rd, wr, app, closed, std_err, was_write_error;
	FILE *f;
	Rng io;
};
static std::vector<Cookie *> *cookies;
static Cookie *ck_of(FILE *f)
{
	for (auto c : *cookies) if (c->f == f) return c;
	return nullptr;
}

static ssize_t c_read(void *v, char *buf, size_t n)
{
	Cookie *c = (Cookie *)v;
	in_sim++;
	int e = 0;
	ssize_t r;
	if (c->closed) { sim_violation("file: read from %s after fclose", c->path.c_str()); }
	Fault *f = fault_for("read", c->path.c_str());
	size_t left = c->pos < c->ino->data.size() ? c->ino->data.size() - c->pos : 0;
	if (n > left) n = left;
	if (f && f->action == "EOF") { r = 0; event("read %s EOF injected", c->path.c_str()); }
	else if (f) { e = errno_of(f->action); r = -1; event("read %s -> %s", c->path.c_str(), f->action.c_str()); }
	else
	{
		long ch = sc->k("rchunk", 0);
		if (ch > 0 && n > 0) { size_t m = 1 + c->io.below(ch); if (n > m) n = m; }
		memcpy(buf, c->ino->data.data() + c->pos, n);
		c->pos += n;
		r = n;
		event("read %s %zu", c->path.c_str(), n);
	}
	in_sim--;
	if (e) errno = e;
	return r;
}
static ssize_t c_write(void *v, const char *buf, size_t n)
{
	Cookie *c = (Cookie *)v;
	in_sim++;
	if (c->closed) { sim_violation("file: write to %s after fclose", c->path.c_str()); }
	ssize_t r = 0;
	int e = 0;
	if (c->std_err)
	{
		Fault *f = fault_for("write", "<stderr>");
		if (f) { e = errno_of(f->action); r = 0; }
		else { transcript(buf, n); r = n; }
		in_sim--;
		if (e) errno = e;
		return r;
	}
	// the loop libc runs around write(2): short writes are retried, an error ends it
	size_t done = 0;
	while (done < n)
	{
		size_t m = n - done;
		Fault *f = fault_for("write", c->path.c_str());
		long ch = sc->k("wchunk", 0);
		if (ch > 0) { size_t x = 1 + c->io.below(ch); if (m > x) m = x; }
		bool stop = false;
		if (f)
		{
			e = errno_of(f->action);
			m = f->param > 0 && (size_t)f->param < m ? (size_t)f->param : 0;     // torn: part of it lands first
			stop = true;
		}
		long quota = sc->k("quota", -1);
		if (!stop && quota >= 0)
		{
			size_t used = 0;
			for (auto &i : *fs) if (i.second->ino >= (u64)sc->k("quota_from_ino", 0)) used += i.second->data.size();
			if (used + m > (size_t)quota) { m = used < (size_t)quota ? quota - used : 0; e = ENOSPC; stop = true; }
		}
		if (m)
		{
			if (c->app) c->pos = c->ino->data.size();
			if (c->ino->data.size() < c->pos + m) c->ino->data.resize(c->pos + m);
			memcpy(&c->ino->data[c->pos], buf + done, m);
			c->pos += m;
			done += m;
		}
		event("write %s %zu%s", c->path.c_str(), m, stop ? " then error" : "");
		if (stop) break;
	}
	r = done;
	if (e) c->was_write_error = true;
	in_sim--;
	if (e) errno = e;
	return r;
}
static int c_seek(void *v, off64_t *o, int w)
{
	Cookie *c = (Cookie *)v;
	if (c->std_err) { errno = ESPIPE; return -1; }
	in_sim++;
	int ret = 0, e = 0;
	Fault *f = fault_for("seek", c->path.c_str());
	if (f) { e = errno_of(f->action); ret = -1; event("seek %s -> %s", c->path.c_str(), f->action.c_str()); }
	else
	{
		off64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off64_t)c->pos : (off64_t)c->ino->data.size();
		b += *o;
		if (b < 0) { e = EINVAL; ret = -1; }
		else { c->pos = b; *o = b; }
	}
	in_sim--;
	if (e) errno = e;
	return ret;
}
static int new_fd()
{
	int base = 3 + (int)sc->k("fdbase", 0);
	for (int fd = base;; fd++)
	{
		bool used = false;
		for (auto c : *cookies) if (!c->closed && c->fd == fd) used = true;
		if (!used) return fd;
	}
}
static FILE *make_file(Cookie *c, const char *mode)
{
	cookie_io_functions_t io = { c_read, c_write, c_seek, nullptr };
	FILE *f = fopencookie(c, mode, io);
	if (!f) return nullptr;
	c->f = f;
	c->io.s = sc->k("ioseed", 7) + cookies->size() * 1000003ull;
	long bs = sc->k("bufsize", 0);
	if (c->std_err) setvbuf(f, nullptr, _IONBF, 0);
	else if (bs > 0) setvbuf(f, nullptr, _IOFBF, bs);
	cookies->push_back(c);
	return f;
}
extern "C" FILE *sim_fopen(const char *path, const char *mode)
{
	in_sim++;
	string p = norm(path);
	bool plus = strchr(mode, '+') != nullptr;
	bool rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
	int e = 0;
	FILE *out = nullptr;
	Inode *ino = lookup(p);
	Fault *f = fault_for("open", p.c_str());
	if (f) e = errno_of(f->action);
	else if (strlen(path) == 0) e = ENOENT;
	else if (is_dir(p)) { if (wr) e = EISDIR; else e = EISDIR; }
	else if (!ino && mode[0] == 'r') e = ENOENT;
	else if (!ino && !is_dir(parent(p))) e = ENOENT;
	else if (!ino && sc->k("dir_readonly", 0)) e = EACCES;
	else if (ino && rd && !(ino->mode & 0400)) e = EACCES;
	else if (ino && wr && !(ino->mode & 0200)) e = EACCES;
	else
	{
		if (!ino) { ino = new Inode{ "", 0644, 0, next_ino++ }; (*fs)[p] = ino; }
		if (mode[0] == 'w') ino->data.clear();
		Cookie *c = new Cookie();
		c->path = p; c->ino = ino; c->pos = 0; c->rd = rd; c->wr = wr; c->app = mode[0] == 'a'; c->closed = false; c->std_err = false;
		c->fd = new_fd(); c->job = cur_job;
		out = make_file(c, mode);
		files_open++;
		if (wr && mode[0] != 'r') repf("WOPEN %d %s\n", cur_job, p.c_str());
	}
	event("open %s %s -> %s%s", p.c_str(), mode, out ? "ok" : "fail ", out ? "" : f ? f->action.c_str() : "fs");
	in_sim--;
	if (e) errno = e;
	return out;
}
extern "C" FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
extern "C" int sim_fclose(FILE *f)
{
	Cookie *c = ck_of(f);
	if (!c) { if (f) return fclose(f); sim_violation("file: fclose(NULL)"); finish("memory", "fclose(NULL)"); }
	if (c->closed) { sim_violation("file: %s closed twice", c->path.c_str()); finish("memory", "double fclose"); }
	int ret = fflush(f) ? EOF : 0;      // what fclose does first; the buffer is gone after that
	int e = errno;
	in_sim++;
	Fault *x = fault_for("close", c->path.c_str());
	if (x)
	{
		e = errno_of(x->action); ret = EOF;
		// a failing close (NFS, quota) may lose what was written back late
		if (x->param > 0 && c->wr) { size_t keep = c->ino->data.size() > (size_t)x->param ? c->ino->data.size() - x->param : 0; c->ino->data.resize(keep); }
	}
	c->closed = true;
	files_open--;
	event("close %s -> %d", c->path.c_str(), ret);
	in_sim--;
	if (ret) errno = e;
	return ret;
}
extern "C" int sim_fileno(FILE *f) { Cookie *c = ck_of(f); return c ? c->fd : fileno(f); }
extern "C" ssize_t sim_readlink(const char *path, char *buf, size_t n)
{
	in_sim++;
	int e = ENOENT;
	ssize_t r = -1;
	int fd;
	string target;
	if (sscanf(path, "/proc/self/fd/%d", &fd) == 1)
	{
		for (auto c : *cookies) if (!c->closed && c->fd == fd) target = c->path;
	}
	else if (lookup(norm(path))) e = EINVAL;
	Fault *f = fault_for("readlink", target.empty() ? "?" : target.c_str());
	if (f) e = errno_of(f->action);
	else if (!target.empty())
	{
		r = target.size() < n ? target.size() : n;
		memcpy(buf, target.data(), r);
	}
	event("readlink %s -> %zd", target.c_str(), r);
	in_sim--;
	if (r < 0) errno = e;
	return r;
}
extern "C" char *sim_realpath(const char *path, char *out)
{
	string p = norm(path);
	Fault *f = fault_for("realpath", p.c_str());
	if (f) { errno = errno_of(f->action); return nullptr; }
	if (!lookup(p) && !is_dir(p)) { errno = ENOENT; return nullptr; }
	if (!out) out = (char *)sim_malloc(4096);
	if (out) strcpy(out, p.c_str());
	return out;
}
extern "C" int sim_exists(const char *path) { const string p = norm(path); return lookup(p) || is_dir(p); }
extern "C" int sim_access(const char *path, int how)
{
	in_sim++;
	string p = norm(path);
	Fault *f = fault_for("access", p.c_str());
	int e = 0;
	Inode *i = lookup(p);
	if (f) e = errno_of(f->action);
	else if (!i && !is_dir(p)) e = ENOENT;
	else if (i && (((how & 4) && !(i->mode & 0400)) || ((how & 2) && !(i->mode & 0200)) || ((how & 1) && !(i->mode & 0100)))) e = EACCES;
	event("access %s -> %d", p.c_str(), e);
	in_sim--;
	if (e) { errno = e; return -1; }
	return 0;
}
static int fill_stat(const string &p, Inode *i, struct stat *b)
{
	memset(b, 0, sizeof *b);
	if (i) { b->st_mode = S_IFREG | i->mode; b->st_size = i->data.size(); b->st_ino = i->ino; }
	else if (is_dir(p)) { b->st_mode = S_IFDIR | 0755; b->st_ino = 1; }
	else { errno = ENOENT; return -1; }
	b->st_nlink = 1; b->st_uid = 1000; b->st_blksize = 4096; b->st_mtime = sc->k("clock", 1000000000);
	return 0;
}
extern "C" int sim_stat(const char *path, struct stat *b)
{
	in_sim++;
	string p = norm(path);
	Fault *f = fault_for("stat", p.c_str());
	int r;
	if (f) { errno = errno_of(f->action); r = -1; }
	else r = fill_stat(p, lookup(p), b);
	int e = errno;
	event("stat %s -> %d", p.c_str(), r);
	in_sim--;
	errno = e;
	return r;
}
extern "C" int sim_lstat(const char *p, struct stat *b) { return sim_stat(p, b); }
extern "C" int sim_stat64(const char *p, struct stat *b) { return sim_stat(p, b); }
extern "C" int sim_lstat64(const char *p, struct stat *b) { return sim_stat(p, b); }
extern "C" int sim_fstat(int fd, struct stat *b)
{
	for (auto c : *cookies) if (!c->closed && c->fd == fd)
	{
		Fault *f = fault_for("stat", c->path.c_str());
		if (f) { errno = errno_of(f->action); return -1; }
		return fill_stat(c->path, c->ino, b);
	}
	errno = EBADF;
	return -1;
}
extern "C" int sim_fstat64(int fd, struct stat *b) { return sim_fstat(fd, b); }
extern "C" int sim_fstatat(int, const char *p, struct stat *b, int) { return sim_stat(p, b); }
extern "C" int sim_chmod(const char *path, mode_t m)
{
	in_sim++;
	string p = norm(path);
	Fault *f = fault_for("chmod", p.c_str());
	int e = 0;
	Inode *i = lookup(p);
	if (f) e = errno_of(f->action);
	else if (!i) e = ENOENT;
	else
	{
		if ((m & 0111) & ~i->mode) repf("MKEXEC %d %s %zu %016llx\n", cur_job, p.c_str(), i->data.size(), (unsigned long long)fnv(i->data.data(), i->data.size()));
		i->mode = m & 07777;
	}
	event("chmod %s %o -> %d", p.c_str(), m, e);
	in_sim--;
	if (e) { errno = e; return -1; }
	return 0;
}
extern "C" int sim_fchmod(int fd, mode_t m)
{
	for (auto c : *cookies) if (!c->closed && c->fd == fd) return sim_chmod(c->path.c_str(), m);
	errno = EBADF;
	return -1;
}
extern "C" mode_t sim_umask(mode_t) { return 022; }
extern "C" int sim_unlink(const char *path)
{
	string p = norm(path);
	Fault *f = fault_for("unlink", p.c_str());
	event("unlink %s", p.c_str());
	if (f) { errno = errno_of(f->action); return -1; }
	if (!lookup(p)) { errno = ENOENT; return -1; }
	repf("UNLINK %d %s\n", cur_job, p.c_str());
	fs->erase(p);
	return 0;
}
extern "C" int sim_remove(const char *p) { return sim_unlink(p); }
extern "C" int sim_rename(const char *a, const char *b)
{
	string p = norm(a), q = norm(b);
	Fault *f = fault_for("rename", q.c_str());
	event("rename %s %s", p.c_str(), q.c_str());
	if (f) { errno = errno_of(f->action); return -1; }
	Inode *i = lookup(p);
	if (!i) { errno = ENOENT; return -1; }
	if (is_dir(q)) { errno = EISDIR; return -1; }
	repf("RENAME %d %s %s\n", cur_job, p.c_str(), q.c_str());
	fs->erase(p);
	(*fs)[q] = i;
	return 0;
}
extern "C" char *sim_getcwd(char *b, size_t n) { if (n < 3) { errno = ERANGE; return nullptr; } const string d = cwd ? *cwd : "/w"; if (b && n <= d.size()) { errno = ERANGE; return nullptr; } if (!b) b = (char *)sim_malloc(n < d.size() + 1 ? d.size() + 1 : n); if (b) strcpy(b, d.c_str()); return b; }
extern "C" int sim_chdir(const char *path)
{
	string p = norm(path);
	event("chdir %s", p.c_str());
	if (!is_dir(p)) { errno = lookup(p) ? ENOTDIR : ENOENT; return -1; }
	cwd = new string(p);
	return 0;
}
extern "C" int sim_mkdir(const char *path, mode_t m)
{
	string p = norm(path);
	event("mkdir %s", p.c_str());
	if (lookup(p) || is_dir(p)) { errno = EEXIST; return -1; }
	if (!is_dir(parent(p))) { errno = ENOENT; return -1; }
	(*fs)[p] = new Inode{ "", (int)(m & 0777), 2, next_ino++ };
	return 0;
}
extern "C" int sim_rmdir(const char *path)
{
	string p = norm(path);
	event("rmdir %s", p.c_str());
	auto i = fs->find(p);
	if (i == fs->end() || !i->second->dir) { errno = lookup(p) ? ENOTDIR : is_dir(p) ? ENOTEMPTY : ENOENT; return -1; }
	auto l = fs->upper_bound(p + "/");
	if (l != fs->end() && l->first.compare(0, p.size() + 1, p + "/") == 0) { errno = ENOTEMPTY; return -1; }
	fs->erase(i);
	return 0;
}
extern "C" int sim_link(const char *a, const char *b)
{
	string p = norm(a), q = norm(b);
	event("link %s %s", p.c_str(), q.c_str());
	Inode *i = lookup(p);
	if (!i || !is_dir(parent(q))) { errno = ENOENT; return -1; }
	if (lookup(q) || is_dir(q)) { errno = EEXIST; return -1; }
	(*fs)[q] = i;
	return 0;
}
extern "C" int sim_symlink(const char *, const char *) { event("symlink"); errno = EPERM; return -1; }
extern "C" int sim_system(const char *) { sim_violation("effect: call to system"); return -1; }
extern "C" int sim_isatty(int) { errno = ENOTTY; return 0; }

/* raw descriptors: the repository has none today; a rewrite on top of them keeps working */
extern "C" int sim_open(const char *path, int fl, ...)
{
	const char *m = (fl & O_ACCMODE) == O_RDONLY ? "r" : (fl & O_TRUNC) ? ((fl & O_ACCMODE) == O_RDWR ? "w+" : "w") : (fl & O_CREAT) && !lookup(norm(path)) ? "w+" : "r+";
	if ((fl & O_CREAT) && (fl & O_EXCL) && lookup(norm(path))) { errno = EEXIST; return -1; }
	FILE *f = sim_fopen(path, m);
	if (!f) return -1;
	Cookie *c = ck_of(f);
	if (fl & O_APPEND) c->app = true;
	return c->fd;
}
static Cookie *ck_fd(int fd) { for (auto c : *cookies) if (!c->closed && c->fd == fd) return c; return nullptr; }
extern "C" int sim_open64(const char *p, int fl, ...) { return sim_open(p, fl, 0644); }
extern "C" int sim_openat(int, const char *p, int fl, ...) { return sim_open(p, fl, 0644); }
extern "C" int sim_creat(const char *p, mode_t) { return sim_open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); }
extern "C" ssize_t sim_read(int fd, void *b, size_t n) { Cookie *c = ck_fd(fd); if (!c) { errno = EBADF; return -1; } return c_read(c, (char *)b, n); }
extern "C" ssize_t sim_write(int fd, const void *b, size_t n)
{
	if (fd == 1 || fd == 2) { transcript((const char *)b, n); return n; }
	Cookie *c = ck_fd(fd);
	if (!c) { errno = EBADF; return -1; }
	ssize_t r = c_write(c, (const char *)b, n);
	return r == 0 && n ? -1 : r;
}
extern "C" off_t sim_lseek(int fd, off_t o, int w) { Cookie *c = ck_fd(fd); if (!c) { errno = EBADF; return -1; } off64_t x = o; return c_seek(c, &x, w) ? -1 : x; }
extern "C" int sim_close(int fd) { Cookie *c = ck_fd(fd); if (!c) { errno = EBADF; return -1; } return sim_fclose(c->f); }
extern "C" ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { Cookie *c = ck_fd(fd); if (!c) { errno = EBADF; return -1; } size_t p = c->pos; c->pos = o; ssize_t r = c_read(c, (char *)b, n); c->pos = p; return r; }
extern "C" ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { Cookie *c = ck_fd(fd); if (!c) { errno = EBADF; return -1; } size_t p = c->pos; c->pos = o; ssize_t r = c_write(c, (const char *)b, n); c->pos = p; return r == 0 && n ? -1 : r; }
extern "C" int sim_dup(int fd)
{
	Cookie *c = ck_fd(fd);
	if (!c) { errno = EBADF; return -1; }
	int n = sim_open(c->path.c_str(), c->rd && c->wr ? O_RDWR : c->wr ? O_WRONLY : O_RDONLY);
	Cookie *d = n < 0 ? nullptr : ck_fd(n);
	if (d) d->pos = c->pos;
	return n;
}
extern "C" int sim_dup2(int, int) { errno = EBADF; return -1; }
extern "C" FILE *sim_fdopen(int fd, const char *) { Cookie *c = ck_fd(fd); if (!c) { errno = EBADF; return nullptr; } return c->f; }
extern "C" FILE *sim_freopen(const char *p, const char *m, FILE *f) { if (ck_of(f)) sim_fclose(f); return p ? sim_fopen(p, m) : nullptr; }
extern "C" int sim_fsync(int fd) { return ck_fd(fd) ? 0 : -1; }
extern "C" int sim_fdatasync(int fd) { return ck_fd(fd) ? 0 : -1; }
extern "C" int sim_ftruncate(int fd, off_t n) { Cookie *c = ck_fd(fd); if (!c) { errno = EBADF; return -1; } c->ino->data.resize(n); return 0; }
extern "C" int sim_truncate(const char *p, off_t n) { Inode *i = lookup(norm(p)); if (!i) { errno = ENOENT; return -1; } i->data.resize(n); repf("WOPEN %d %s\n", cur_job, norm(p).c_str()); return 0; }
static int tmpno;
extern "C" FILE *sim_tmpfile(void) { char b[64]; snprintf(b, sizeof b, "/tmp/tmpfile%d", tmpno++); return sim_fopen(b, "w+"); }
extern "C" char *sim_tmpnam(char *b) { static char s[64]; if (!b) b = s; snprintf(b, 64, "/tmp/tmpnam%d_%ld", tmpno++, sc->k("pid", 4242)); return b; }
extern "C" int sim_mkstemp(char *t) { size_t n = strlen(t); if (n >= 6) { char b[8]; snprintf(b, sizeof b, "%06ld", (sc->k("pid", 4242) + tmpno++) % 1000000); memcpy(t + n - 6, b, 6); } return sim_open(t, O_RDWR | O_CREAT | O_EXCL, 0600); }

/* clock, randomness, identity, environment: scenario knobs */
extern "C" time_t sim_time(time_t *t) { time_t v = sc->k("clock", 1000000000) + (time_t)(seam_ops / 100); event("time"); if (t) *t = v; return v; }
extern "C" clock_t sim_clock(void) { event("clock"); return (sc->k("clock", 1000000000) & 0xffff) * 1000 + seam_ops; }
extern "C" int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = sim_time(nullptr); tv->tv_usec = seam_ops % 1000000; return 0; }
extern "C" int sim_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = sim_time(nullptr); ts->tv_nsec = seam_ops % 1000000000; return 0; }
static Rng env_rng;
extern "C" int sim_rand(void) { event("rand"); return (int)(env_rng.next() & 0x7fffffff); }
extern "C" void sim_srand(unsigned) {}
extern "C" long sim_random(void) { return sim_rand(); }
extern "C" void sim_srandom(unsigned) {}
extern "C" int sim_rand_r(unsigned *) { return sim_rand(); }
extern "C" pid_t sim_getpid(void) { event("getpid"); return sc->k("pid", 4242); }
extern "C" pid_t sim_getppid(void) { return sc->k("pid", 4242) - 1; }
extern "C" uid_t sim_getuid(void) { return 1000; }
extern "C" uid_t sim_geteuid(void) { return 1000; }
extern "C" char *sim_getenv(const char *n)
{
	event("getenv %s", n);
	long e = sc->k("env", 0);
	if (!e) return nullptr;
	static std::map<string, string> vals;
	string &v = vals[n];
	char b[32];
	snprintf(b, sizeof b, "v%ld", e);
	v = e % 2 ? b : "1";
	return (char *)v.c_str();
}
extern "C" char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
extern "C" int sim_nanosleep(const struct timespec *, struct timespec *) { return 0; }
extern "C" int sim_usleep(useconds_t) { return 0; }
extern "C" unsigned sim_sleep(unsigned) { return 0; }
extern "C" FILE *sim_popen(const char *, const char *) { sim_violation("effect: call to popen"); return nullptr; }
extern "C" int sim_pclose(FILE *) { return -1; }
extern "C" int sim_atexit(void (*)(void)) { return 0; }
extern "C" void sim_exit(int c) { char b[32]; snprintf(b, sizeof b, "%d", c); finish("exit", b); abort(); }
extern "C" void sim__exit(int c) { sim_exit(c); }
extern "C" void sim_abort(void) { finish("abort", ""); abort(); }
extern "C" ssize_t sim_getdelim(char **lp, size_t *n, int d, FILE *f)
{
	size_t len = 0;
	int ch;
	while ((ch = fgetc(f)) != EOF)
	{
		if (!*lp || len + 2 > *n) { size_t m = *lp && *n ? *n * 2 : 120; char *q = (char *)sim_realloc(*lp, m); if (!q) return -1; *lp = q; *n = m; }
		(*lp)[len++] = ch;
		if (ch == d) break;
	}
	if (!len) return -1;
	(*lp)[len] = 0;
	return len;
}
extern "C" ssize_t sim_getline(char **lp, size_t *n, FILE *f) { return sim_getdelim(lp, n, '\n', f); }
extern "C" int sim_vasprintf(char **o, const char *fmt, va_list ap)
{
	va_list c;
	va_copy(c, ap);
	int n = vsnprintf(nullptr, 0, fmt, c);
	va_end(c);
	*o = n < 0 ? nullptr : (char *)sim_malloc(n + 1);
	return *o ? vsnprintf(*o, n + 1, fmt, ap) : -1;
}
extern "C" int sim_asprintf(char **o, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vasprintf(o, fmt, ap); va_end(ap); return n; }
extern "C" FILE *sim_open_memstream(char **p, size_t *n) { return open_memstream(p, n); }
extern "C" FILE *sim_fmemopen(void *b, size_t n, const char *m) { return fmemopen(b, n, m); }

/* ------------------------------------------------------------------ reporting */
static void put_blob(const char *head, const string &s) { repf("%s %zu\n", head, s.size()); rep(s.data(), s.size()); rep("\n", 1); }
static string hx(const string &s) { char b[40]; snprintf(b, sizeof b, "%016llx", (unsigned long long)fnv(s.data(), s.size())); return b; }

static void dump_state()
{
	bool full = sc->k("dump", 0);
	for (size_t i = 0; i < sc->jobs.size(); i++)
	{
		char h[64];
		snprintf(h, sizeof h, "TEXT %zu", i);
		put_blob(h, (*transcripts)[i]);
		if (!(*returned)[i].empty()) { snprintf(h, sizeof h, "RET %zu", i); put_blob(h, (*returned)[i]); repf("RHASH %zu %s\n", i, hx((*returned)[i].substr(1)).c_str()); }
	}
	for (auto &f : *fs)
	{
		if (f.second->dir == 2) repf("FILE %o 0 dir %s\n", f.second->mode, f.first.c_str());
		if (f.second->dir) continue;
		repf("FILE %o %zu %s %s\n", f.second->mode, f.second->data.size(), hx(f.second->data).c_str(), f.first.c_str());
		if (full) { char h[64]; snprintf(h, sizeof h, "DATA"); put_blob(h, f.second->data); }
	}
	for (auto &c : *op_count) repf("COUNT %ld %s\n", c.second, c.first.c_str());
	for (size_t i = 0; i < sc->faults.size(); i++) repf("FIRED %zu %ld\n", i, sc->faults[i].fired);
	if (refused_site) repf("RSITE %s\n", refused_site->c_str());
	repf("ALLOC %llu refused %llu peak %llu total %llu jobs %llx\n", (unsigned long long)alloc_seq, (unsigned long long)alloc_refused, (unsigned long long)peak_bytes, (unsigned long long)total_bytes, (unsigned long long)refused_jobs);
	repf("EVENTS %llu %016llx steps %llu seam %llu switches %llu sched %016llx\n", (unsigned long long)ev_count, (unsigned long long)ev_hash,
		(unsigned long long)steps, (unsigned long long)seam_ops, (unsigned long long)switches, (unsigned long long)sched_hash);
}
static void finish(const char *why, const char *detail)
{
	in_sim++;
	if (!finished)
	{
		finished = true;
		repf("END %s j%d %s\n", why, cur_job, detail);
		dump_state();
		shm->done = 1;
	}
	_exit(0);
}
#if SIM_ASAN
static void asan_report(const char *text)
{
	if (finished) _exit(0);
	finished = true;
	// signature: kind plus the program counters of the faulting stack (the driver maps them to functions)
	string sig, kind;
	const char *p = strstr(text, "ERROR: AddressSanitizer: ");
	if (p) { p += 25; while (*p && *p != ' ' && *p != '\n') kind += *p++; }
	const char *q = text;
	int n = 0;
	while ((q = strstr(q, "\n    #")) && n < 16)
	{
		q += 6;
		if (n > 0 && q[0] == '0' && q[1] == ' ') break;           // the next stack (allocated by, freed by)
		const char *x = strstr(q, "0x");
		if (!x) break;
		unsigned long long pc = strtoull(x, nullptr, 16);
		char b[24];
		snprintf(b, sizeof b, "%s%llx", n ? "," : "", pc);
		sig += b;
		n++;
	}
	repf("END asan j%d %s %s\n", cur_job, kind.c_str(), sig.c_str());
	string t(text, strnlen(text, 6000));
	put_blob("ASAN", t);
	dump_state();
	shm->done = 1;
	_exit(0);
}
#endif
static void on_signal(int s, siginfo_t *, void *ucv)
{
	// frame pointers are kept in every object: walk them
	ucontext_t *uc = (ucontext_t *)ucv;
	string b = "signal" + std::to_string(s) + " ";
	char t[24];
	snprintf(t, sizeof t, "%llx", (unsigned long long)uc->uc_mcontext.gregs[REG_RIP]);
	b += t;
	string w = walk(uc->uc_mcontext.gregs[REG_RBP], uc->uc_mcontext.gregs[REG_RSP]);
	if (!w.empty()) b += "," + w;
	finish("signal", b.c_str());
}

/* ------------------------------------------------------------------ running a scenario */
static __attribute__((noinline)) void stack_fill(long pat)
{
	volatile unsigned char b[192 * 1024];
	if (pat == 257) { Rng r{ (u64)sc->k("heapseed", 1) }; for (size_t i = 0; i < sizeof b; i++) b[i] = r.next(); }
	else memset((void *)b, (int)pat, sizeof b);
	asm volatile("" ::"r"(b) : "memory");
}
static void report_job(int j, int status)
{
	const Job &job = sc->jobs[j];
	long leaks = 0, lb = 0;
	string which;
	for (auto &b : *blocks) if (!b.second.freed && b.second.job == j) { leaks++; lb += b.second.size; if (leaks <= 6) { char t[48]; snprintf(t, sizeof t, "#%llu:%zu,", (unsigned long long)b.second.seq, b.second.size); which += t; } }
	long lf = 0;
	string lfn;
	for (auto c : *cookies) if (!c->closed && !c->std_err && c->job == j) { lf++; lfn += c->path + ","; }
	repf("JOB %d status %d leaks %ld %ld files %ld %s %s\n", j, status, leaks, lb, lf, which.empty() ? "-" : which.c_str(), lfn.empty() ? "-" : lfn.c_str());
	if (!job.out.empty())
	{
		Inode *i = lookup(norm(job.out.c_str()));
		if (i) repf("OUT %d %o %zu %s\n", j, i->mode, i->data.size(), hx(i->data).c_str());
		else repf("OUT %d none 0 0\n", j);
	}
}
static void run_job(int j)
{
	const Job &job = sc->jobs[j];
	cur_job = j;
	in_sim++;
	event("job %d start %s", j, job.api.c_str());
	std::vector<const char *> av;
	for (auto &a : job.args) av.push_back(a.c_str());
	av.push_back(nullptr);
	in_sim--;
	if (sc->k("stackfill", -1) >= 0) stack_fill(sc->k("stackfill", -1));
	volatile char *pad = (volatile char *)alloca((size_t)(sc->k("stackbase", 0) & 0xffff) * 16 + 16);
	pad[0] = 0;
	int st;
	if (job.api == "model") st = job_model(job.args[0].c_str(), job.ops.data(), (int)job.ops.size());
	else st = job_run(job.api.c_str(), (int)av.size() - 1, av.data(), job.loggers);
	in_sim++;
	// exit(3) flushes what is still open when the command line program ends
	if (job.api == "cli") for (auto c : *cookies) if (!c->closed && !c->std_err && c->job == j && c->wr) fflush(c->f);
	event("job %d end %d", j, st);
	report_job(j, st);
	in_sim--;
	cur_job = -1;
}
static void *thread_main(void *v)
{
	int t = (int)(long)v;
	while (sem_wait(&(*thrs)[t]->go) != 0) {}
	for (size_t j = 0; j < sc->jobs.size(); j++) if (sc->jobs[j].thread == t) run_job(j);
	in_sim++;
	(*thrs)[t]->done = true;
	int o = pick_other();
	if (o >= 0) { repf("SW %llu %d\n", (unsigned long long)steps, o); u64 rec[2] = { steps, (u64)o }; sched_hash = fnv(rec, sizeof rec, sched_hash); running = o; sem_post(&(*thrs)[o]->go); }
	else sem_post(&(*thrs)[thrs->size() - 1]->go);
	return nullptr;
}

static void child()
{
	struct rlimit rl = { 600, 610 };    // a last resort: the step budget ends a run long before
	setrlimit(RLIMIT_CPU, &rl);
	fs = new std::map<string, Inode *>();
	op_count = new std::map<string, long>();
	transcripts = new std::vector<string>(sc->jobs.size());
	returned = new std::vector<string>(sc->jobs.size());
	cookies = new std::vector<Cookie *>();
	blocks = new std::map<void *, Block>();
	freelist = new std::map<size_t, std::vector<void *>>();
	tracing = sc->k("trace", 0);
	kill_at_op = sc->k("kill_op", -1);
	kill_at_step = sc->k("kill_step", 0);
	u64 calls = 0;
	for (auto &j : sc->jobs) calls += j.api.compare(0, 6, "again:") == 0 && j.api[6] != ':' ? 2 : 1;
	step_limit = sc->k("steps", 30000000) * calls;
	heap_rng.s = sc->k("heapseed", 1);
	env_rng.s = sc->k("envseed", 1);
	sched_rng.s = sc->k("schedseed", 1);
#if !SIM_ASAN
	if (mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { repf("END harness j-1 mmap\n"); _exit(0); }
	arena_top = 4096 + (size_t)sc->k("heapbase", 0) * 16;
	static char alt[65536];
	stack_t ss = { alt, 0, sizeof alt };
	sigaltstack(&ss, nullptr);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_signal;
	sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU }) sigaction(s, &sa, nullptr);
#else
	__asan_set_error_report_callback(asan_report);
#endif
	for (auto &f : sc->files) (*fs)[norm(f.path.c_str())] = new Inode{ f.data, f.mode & 07777, (f.mode & 0100000) != 0, next_ino++ };
	Cookie *c = new Cookie();
	c->path = "<stderr>"; c->ino = new Inode{ "", 0, 0, 0 }; c->std_err = true; c->fd = 2;
	stderr = make_file(c, "w");
	Cookie *d = new Cookie(*c);
	d->fd = 1;
	stdout = make_file(d, "w");
	int n = 1;
	for (auto &j : sc->jobs) if (j.thread + 1 > n) n = j.thread + 1;
	if (n == 1)
	{
		for (size_t j = 0; j < sc->jobs.size(); j++) run_job(j);
	}
	else
	{
		std::vector<Thr *> tv;
		for (int i = 0; i <= n; i++) { Thr *t = new Thr(); sem_init(&t->go, 0, 0); t->done = i == n; tv.push_back(t); }
		thrs = &tv;
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstacksize(&at, 8 << 20);
		for (int i = 0; i < n; i++) pthread_create(&tv[i]->id, &at, thread_main, (void *)(long)i);
		running = sc->k("first", 0) % n;
		arm_next();
		if (sc->sched.empty() && !sc->k("explicit", 0)) watch = sc->k("watch", 0);
		sem_post(&tv[running]->go);
		while (sem_wait(&tv[n]->go) != 0) {}
		switch_in = ~0ull;
		watch = 0;
	}
	heap_audit();
	finish("ok", "");
}

/* ------------------------------------------------------------------ scenario input */
static bool line(string &s)
{
	s.clear();
	int ch;
	while ((ch = getc_unlocked(stdin)) != EOF && ch != '\n') s += (char)ch;
	return ch != EOF || !s.empty();
}
static string blob(size_t n)
{
	string s(n, 0);
	size_t r = n ? fread(&s[0], 1, n, stdin) : 0;
	if (r != n) exit(3);
	getc(stdin);
	return s;
}
static bool read_scenario(Scenario &s)
{
	string l;
	while (line(l))
	{
		char a[512], b[512], c[64];
		long x, y, z;
		int pos = 0;
		if (l == "GO") return true;
		if (sscanf(l.c_str(), "KNOB %500s %ld", a, &x) == 2) s.knob[a] = x;
		else if (sscanf(l.c_str(), "FILE %lo %ld %ld", (unsigned long *)&x, &y, &z) == 3) { FileIn f; f.mode = x; f.path = blob(y); f.data = blob(z); s.files.push_back(f); }
		else if (sscanf(l.c_str(), "JOB %ld %500s %ld %n", &x, a, &y, &pos) == 3) { Job j; j.thread = x; j.api = a; j.loggers = y; j.out = l.substr(pos); s.jobs.push_back(j); }
		else if (sscanf(l.c_str(), "ARG %ld", &x) == 1) s.jobs.back().args.push_back(blob(x));
		else if (sscanf(l.c_str(), "OPS %ld", &x) == 1) { for (long i = 0; i < x; i++) { string v; line(v); s.jobs.back().ops.push_back(atol(v.c_str())); } }
		else if (sscanf(l.c_str(), "FAULT %60s %500s %ld %ld %500s %ld", c, a, &x, &y, b, &z) == 6) { Fault f; f.kind = c; f.path = a; f.nth = x; f.count = y; f.action = b; f.param = z; sscanf(a, "heap:%d", &f.job); s.faults.push_back(f); }
		else if (sscanf(l.c_str(), "SW %ld %ld", &x, &y) == 2) s.sched.push_back({ (u64)x, (int)y });
		else if (l == "STATS")
		{
			size_t n = 0;
			for (size_t i = 0; i < PCMAP; i++) n += shm->pcs[i];
			printf("%zu\n", n);
			fflush(stdout);
		}
		else if (l == "PCS") { fwrite(shm->pcs, 1, PCMAP, stdout); fflush(stdout); }
		else { fprintf(stderr, "simx: bad scenario line: %s\n", l.c_str()); exit(3); }
	}
	return false;
}

int main(int, char **argv)
{
	/* same addresses in every process: a value that leaks an address must not make runs differ by accident */
	if (!getenv("SIMX_FIXED"))
	{
		setenv("SIMX_FIXED", "1", 1);
		if (personality(0xffffffff) != -1 && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	shm = (Shared *)mmap(nullptr, REPORT_MAX + sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	static char big[1 << 16];
	setvbuf(stdin, nullptr, _IOFBF, 1 << 16);
	setvbuf(stdout, big, _IOFBF, sizeof big);
	signal(SIGPIPE, SIG_DFL);
	for (;;)
	{
		Scenario s;
		if (!read_scenario(s)) _exit(0);
		sc = &s;
		shm->len = 0;
		shm->done = 0;
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) { child(); _exit(0); }
		int st = 0;
		waitpid(p, &st, 0);
		if (!shm->done)
		{
			if (WIFSIGNALED(st)) repf("END signal j-1 %d\n", WTERMSIG(st));
			else if (SIM_ASAN) repf("END asan j-1 unreported-exit-%d\n", WEXITSTATUS(st));
			else repf("END lost j-1 %d\n", WEXITSTATUS(st));
		}
		printf("%llu\n", (unsigned long long)shm->len);
		fwrite(shm->text, 1, shm->len, stdout);
		fflush(stdout);
	}
}
