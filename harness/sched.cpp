// not instrumented itself
#include "sched.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <clocale>
#include <ctime>
#include <new>
#include <unistd.h>
#include <sys/uio.h>
#include <dlfcn.h>
#include <atomic>
namespace {
thread_local int me = 0; // 1 or 2: a controlled thread, 0: not controlled
struct Table { // location -> what was done there (1 read, 2 written), open addressing
	uint64_t* k = nullptr; unsigned char* v = nullptr; size_t cap = 0, n = 0;
	void reset() { if (!cap) grow(); memset(k, 0, cap * 8); n = 0; }
	static size_t h(uint64_t x) { x *= 0x9e3779b97f4a7c15ULL; return (size_t)(x >> 20); }
	void grow()
	{
		size_t oc = cap; uint64_t* ok = k; unsigned char* ov = v; cap = cap ? cap * 2 : 4096; k = (uint64_t*)calloc(cap, 8); v = (unsigned char*)calloc(cap, 1); n = 0;
		for (size_t i = 0; i < oc; i++) if (ok[i]) add(ok[i], ov[i]);
		free(ok); free(ov);
	}
	void add(uint64_t key, unsigned char f)
	{
		size_t i = h(key) & (cap - 1); while (k[i] && k[i] != key) i = (i + 1) & (cap - 1);
		if (!k[i]) { if (n * 2 > cap) { grow(); add(key, f); return; } k[i] = key; v[i] = f; n++; } else v[i] |= f;
	}
	int get(uint64_t key) const { if (!cap) return 0; size_t i = h(key) & (cap - 1); while (k[i] && k[i] != key) i = (i + 1) & (cap - 1); return k[i] ? v[i] : 0; }
};
enum { OFF, RECORD, EXPLORE } mode = OFF;
Table rec[3], shared;
long accesses = 0, points = 0, switches = 0; const std::vector<long>* plan = nullptr; size_t planned = 0;
sem_t baton[3]; bool done[3]; bool deadlocked = false; int spins = 0;
long since = 0; // scheduling points met since the last exchange
void give() { int t = me; switches++; since = 0; sem_post(&baton[3 - t]); while (sem_wait(&baton[t])) {} }
void point(uint64_t key, bool w)
{
	if (!me) return;
	if (mode == RECORD) { accesses++; rec[me].add(key, w ? 2 : 1); return; }
	if (mode != EXPLORE || !shared.get(key)) return;
	long p = points++;
	if (++since > 20000) { since = 0; if (!done[3 - me]) { give(); return; } } // perhaps it waits for the other one
	if (planned < plan->size() && (*plan)[planned] == p) { planned++; if (!done[3 - me]) give(); }
}
void access(const void* a, size_t n, bool w) { if (!me) return; uint64_t f = (uint64_t)a >> 3, l = ((uint64_t)a + (n ? n - 1 : 0)) >> 3; for (; f <= l; f++) point(f, w); }
// blocked: let the other thread go on
void blocked() { if (!me || done[3 - me] || ++spins > 100000) { fprintf(stderr, "deadlock: terminate called\n"); _exit(79); } give(); }
struct Job { int id; const std::function<void()>* f; };
void* body(void* q)
{
	Job* j = (Job*)q; while (sem_wait(&baton[j->id])) {} me = j->id; (*j->f)(); done[me] = true; int o = 3 - me; me = 0; sem_post(&baton[o]); return nullptr;
}
// blocks released by a controlled thread are not used again during the run
struct Dead { Dead* next; }; Dead* dead = nullptr;
void run(const std::function<void()>& a, const std::function<void()>& b, int first)
{
	for (int i = 0; i < 3; i++) sem_init(&baton[i], 0, 0);
	done[1] = done[2] = false; points = switches = 0; planned = 0; accesses = 0; spins = 0; since = 0;
	Job j[2] = { { 1,&a },{ 2,&b } }; pthread_t t[2]; for (int i = 0; i < 2; i++) if (pthread_create(&t[i], nullptr, body, &j[i])) abort();
	sem_post(&baton[first]); for (int i = 0; i < 2; i++) pthread_join(t[i], nullptr);
	for (int i = 0; i < 3; i++) sem_destroy(&baton[i]);
	while (dead) { Dead* n = dead->next; free(dead); dead = n; }
}
uint64_t text(const char* s) { uint64_t h = 1469598103934665603ULL; while (s && *s) h = (h ^ (unsigned char)*s++) * 1099511628211ULL; return h | (1ULL << 63); }
enum { G_RAND = 1, G_LOCALE, G_TOKEN, G_TIME, G_ENV };
void global(int g, bool w) { point((1ULL << 62) + g, w); }
}
namespace sched {
Result execute(const std::function<void()>& a, const std::function<void()>& b, int first, const std::vector<uint64_t>& sh, const std::vector<long>& preempt)
{
	shared.reset(); for (uint64_t x : sh) shared.add(x, 1);
	plan = &preempt; mode = EXPLORE; run(a, b, first); mode = OFF; Result r; r.points = points; r.switches = switches; return r;
}
std::vector<uint64_t> conflicts(const std::function<void()>& a, const std::function<void()>& b, long& n)
{
	for (int i = 1; i < 3; i++) rec[i].reset();
	mode = RECORD; run(a, b, 1); mode = OFF; n = accesses; std::vector<uint64_t> r;
	for (size_t i = 0; i < rec[1].cap; i++) if (rec[1].k[i]) { int o = rec[2].get(rec[1].k[i]); if (o && ((o | rec[1].v[i]) & 2)) r.push_back(rec[1].k[i]); }
	return r;
}
}
void* operator new(size_t n) { void* p = malloc(n < 16 ? 16 : n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (!p) return; if (me) { Dead* d = (Dead*)p; d->next = dead; dead = d; } else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { access(a, n, false); } void __tsan_write##n(void* a) { access(a, n, true); } \
	void __tsan_unaligned_read##n(void* a) { access(a, n, false); } void __tsan_unaligned_write##n(void* a) { access(a, n, true); } \
	void __tsan_volatile_read##n(void* a) { access(a, n, false); } void __tsan_volatile_write##n(void* a) { access(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true); }
void __tsan_vptr_read(void** a) { access(a, 8, false); }
#define AT(n, T) T __tsan_atomic##n##_load(const volatile T* a, int) { access((void*)a, n / 8, false); return __atomic_load_n(a, 5); } \
	void __tsan_atomic##n##_store(volatile T* a, T v, int) { access((void*)a, n / 8, true); __atomic_store_n(a, v, 5); } \
	T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { access((void*)a, n / 8, true); return __atomic_exchange_n(a, v, 5); } \
	T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { access((void*)a, n / 8, true); return __atomic_fetch_add(a, v, 5); } \
	T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { access((void*)a, n / 8, true); return __atomic_fetch_sub(a, v, 5); } \
	T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { access((void*)a, n / 8, true); return __atomic_fetch_and(a, v, 5); } \
	T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { access((void*)a, n / 8, true); return __atomic_fetch_or(a, v, 5); } \
	T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { access((void*)a, n / 8, true); return __atomic_fetch_xor(a, v, 5); } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { access((void*)a, n / 8, true); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { access((void*)a, n / 8, true); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int, int) { access((void*)a, n / 8, true); __atomic_compare_exchange_n(a, &e, v, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// function-local statics
int __cxa_guard_acquire(uint64_t* g) { unsigned char* b = (unsigned char*)g; for (;;) { access(g, 8, true); if (b[0]) return 0; if (!b[1]) { b[1] = 1; return 1; } blocked(); } }
void __cxa_guard_release(uint64_t* g) { unsigned char* b = (unsigned char*)g; access(g, 8, true); b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(uint64_t* g) { unsigned char* b = (unsigned char*)g; access(g, 8, true); b[1] = 0; }
// locks and memory functions called by the instrumented code (linked with --wrap)
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!me) return __real_pthread_mutex_lock(m); for (;;) { access(m, 8, true); int r = pthread_mutex_trylock(m); if (r != 16 /*EBUSY*/) return r; blocked(); } }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { access(m, 8, true); return __real_pthread_mutex_unlock(m); }
static int lockit(void* m, int (*f)(void*)) { for (;;) { access(m, 8, true); int r = f(m); if (r != 16) return r; blocked(); } }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return me ? lockit(m, (int (*)(void*))pthread_rwlock_tryrdlock) : __real_pthread_rwlock_rdlock(m); }
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return me ? lockit(m, (int (*)(void*))pthread_rwlock_trywrlock) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { int* s = (int*)o; for (;;) { access(o, 4, true); if (*s == 2) return 0; if (!*s) { *s = 1; try { f(); } catch (...) { *s = 0; throw; } access(o, 4, true); *s = 2; return 0; } blocked(); } }
void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }
// state hidden in the C library
int __real_rand(); int __wrap_rand() { global(G_RAND, true); return __real_rand(); }
void __real_srand(unsigned); void __wrap_srand(unsigned s) { global(G_RAND, true); __real_srand(s); }
double __real_drand48(); double __wrap_drand48() { global(G_RAND, true); return __real_drand48(); }
void __real_srand48(long); void __wrap_srand48(long s) { global(G_RAND, true); __real_srand48(s); }
char* __real_strtok(char*, const char*); char* __wrap_strtok(char* a, const char* b) { global(G_TOKEN, true); return __real_strtok(a, b); }
char* __real_setlocale(int, const char*); char* __wrap_setlocale(int c, const char* l) { global(G_LOCALE, l != nullptr); return __real_setlocale(c, l); }
struct tm* __real_localtime(const time_t*); struct tm* __wrap_localtime(const time_t* t) { global(G_TIME, true); return __real_localtime(t); }
struct tm* __real_gmtime(const time_t*); struct tm* __wrap_gmtime(const time_t* t) { global(G_TIME, true); return __real_gmtime(t); }
int __real_chdir(const char*); int __wrap_chdir(const char* d) { global(G_ENV, true); return __real_chdir(d); }
// files: one location per name
FILE* fopen64(const char* name, const char* how) { static FILE*(*f)(const char*, const char*) = nullptr; if (!f) f = (FILE * (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen64"); point(text(name), how[0] != 'r' || strchr(how, '+')); return f(name, how); }
FILE* fopen(const char* name, const char* how) { static FILE*(*f)(const char*, const char*) = nullptr; if (!f) f = (FILE * (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen"); point(text(name), how[0] != 'r' || strchr(how, '+')); return f(name, how); }
static uint64_t fdkey(int fd) { char l[64], p[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, p, sizeof p - 1); if (k < 0) return 0; p[k] = 0; return text(p); }
ssize_t write(int fd, const void* b, size_t n) { static ssize_t(*f)(int, const void*, size_t) = nullptr; if (!f) f = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write"); if (me) point(fdkey(fd), true); return f(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int n) { static ssize_t(*f)(int, const struct iovec*, int) = nullptr; if (!f) f = (ssize_t(*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "writev"); if (me) point(fdkey(fd), true); return f(fd, v, n); }
ssize_t read(int fd, void* b, size_t n) { static ssize_t(*f)(int, void*, size_t) = nullptr; if (!f) f = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read"); if (me) point(fdkey(fd), false); return f(fd, b, n); }
}
