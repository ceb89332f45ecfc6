#include "coop.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <vector>

namespace {
template<class F> F real(F& f, const char* n) { if(!f) { f = (F)dlsym(RTLD_NEXT, n); if(!f) { fprintf(stderr, "no %s\n", n); _exit(2); } } return f; }
#define REAL(n) static decltype(&n) r_##n; 
#define R(n) real(r_##n, #n)
REAL(pthread_mutex_lock) REAL(pthread_mutex_trylock) REAL(pthread_mutex_unlock) REAL(pthread_cond_wait) REAL(pthread_cond_timedwait)
REAL(pthread_cond_signal) REAL(pthread_cond_broadcast) REAL(pthread_create) REAL(pthread_join) REAL(nanosleep) REAL(clock_gettime) REAL(pthread_cond_clockwait)

const int64_t S = 1000000000LL;
enum St { Run, OnMutex, OnCond, OnSleep, OnJoin, Done };
struct T {
    int id; St st; sem_t sem; void* obj; bool timed, signaled, detached; int64_t deadline; int prio; int fini; pthread_t pt; long want;
    void* (*fn)(void*); void* arg; std::function<void()>* body; T* joinee;
};
std::vector<T*> all; T* cur = 0; bool active = false;
__thread T* me = 0;
__thread bool inLib = false; int fineMean = 0; long fineLeft = 0; bool forced = false; size_t npre = 0;
pthread_key_t key; bool haveKey = false;
int64_t vt = 0, base = 0, t0 = 0;     // vt never goes back, also across scenarios
uint64_t rs; int strategy, earlyPm; long stepNs; size_t npoints; size_t changeAt[4]; long ticket = 0;
uint64_t rnd() { uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z>>30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z>>27)) * 0x94D049BB133111EBull; return z ^ (z>>31); }
size_t below(size_t n) { return n ? rnd() % n : 0; }

void expire() {
    for(size_t i = 0; i < all.size(); i++) { T* t = all[i];
        if((t->st == OnCond && t->timed && t->deadline <= vt) || (t->st == OnSleep && t->deadline <= vt)) t->st = Run; }
}
void hand(T* t) { cur = t; sem_post(&t->sem); }
void waitTurn(T* t) { while(sem_wait(&t->sem)) {} }
T* choose(bool staying) {
    std::vector<T*> r;
    for(;;) {
        r.clear();
        for(size_t i = 0; i < all.size(); i++) if(all[i]->st == Run) r.push_back(all[i]);
        if(!r.empty()) break;
        int64_t best = -1;
        for(size_t i = 0; i < all.size(); i++) { T* t = all[i];
            if((t->st == OnCond && t->timed) || t->st == OnSleep) if(best < 0 || t->deadline < best) best = t->deadline; }
        if(best < 0) {
            std::string d;
            const char* nm[] = {"run", "mutex", "cond", "sleep", "join", "done"};
            for(size_t i = 0; i < all.size(); i++) if(all[i]->st != Done) d += std::to_string(all[i]->id) + ":" + nm[all[i]->st] + " ";
            if(sched::onDeadlock) sched::onDeadlock(d);
            fprintf(stderr, "deadlock %s\n", d.c_str()); _exit(4);
        }
        if(best > vt) { vt = best; if(sched::onTick) sched::onTick(vt - t0, true); }
        expire();
    }
    if(forced) { forced = false; return r[below(r.size())]; }
    if(strategy == 3) { // the longest waiting
        T* b = r[0]; for(size_t i = 1; i < r.size(); i++) if(r[i]->want < b->want) b = r[i];
        return b;
    }
    if(strategy == 2) {
        for(int i = 0; i < 4; i++) if(changeAt[i] == npoints && cur) cur->prio = i;
        T* b = r[0]; for(size_t i = 1; i < r.size(); i++) if(r[i]->prio > b->prio) b = r[i];
        return b;
    }
    if(strategy == 1 && staying && below(6)) return cur;
    return r[below(r.size())];
}
void limit() { if(++npoints > 200000) { if(sched::onDeadlock) sched::onDeadlock("livelock"); _exit(4); } }
// the calling thread gives up the baton until it is chosen again
void reschedule(bool staying) {
    T* t = me; limit();
    if(earlyPm && (int)below(1000) < earlyPm) { vt += stepNs * (1 + below(4)); if(sched::onTick) sched::onTick(vt - t0, false); expire(); }
    t->want = ++ticket;
    T* n = choose(staying && t->st == Run);
    if(n == t) { cur = t; return; }
    hand(n); waitTurn(t);
}
void wakeMutex(void* m) { for(size_t i = 0; i < all.size(); i++) if(all[i]->st == OnMutex && all[i]->obj == m) all[i]->st = Run; }
bool on() { return active && me; }
struct G { bool was; G() : was(inLib) { inLib = false; } ~G() { inLib = was; } };   // the scheduler itself is never preempted
long fineNext() { return 1 + (long)below(2 * fineMean); }
void access() { // a memory access of the library
    if(!fineMean || !inLib || !on() || --fineLeft > 0) return;
    fineLeft = fineNext(); forced = true; npre++; G g; reschedule(true);
}
int lockLoop(pthread_mutex_t* m) {
    for(;;) {
        int e = R(pthread_mutex_trylock)(m);
        if(e != EBUSY) return e;
        me->st = OnMutex; me->obj = m; reschedule(false);
    }
}
// runs in the last round of thread-specific destructors: everything the thread
// does on its way out has happened
void fini(void* p) {
    T* t = (T*)p;
    if(++t->fini < 3) { pthread_setspecific(key, t); return; }
    t->st = Done; me = 0;
    for(size_t i = 0; i < all.size(); i++) if(all[i]->st == OnJoin && all[i]->joinee == t) all[i]->st = Run;
    npoints++;
    hand(choose(false));
}
T* mk() {
    T* t = new T(); memset((void*)t, 0, sizeof *t); sem_init(&t->sem, 0, 0); t->id = all.size(); t->prio = 10 + below(1000); t->st = Run; t->want = ++ticket; all.push_back(t); return t;
}
void* tramp(void* p) {
    T* t = (T*)p; waitTurn(t); me = t; pthread_setspecific(key, t); inLib = !t->body;
    if(t->body) { (*t->body)(); return 0; }
    return t->fn(t->arg);
}
} // namespace

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if(!on()) return R(pthread_mutex_lock)(m); G g; reschedule(true); return lockLoop(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if(!on()) return R(pthread_mutex_trylock)(m); G g; reschedule(true); return R(pthread_mutex_trylock)(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    G g; int e = R(pthread_mutex_unlock)(m);
    if(on()) { wakeMutex(m); reschedule(true); }
    return e;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t deadline) {
    G g; T* t = me; t->obj = c; t->timed = timed; t->deadline = deadline; t->signaled = false;
    if(timed && deadline <= vt) { // already over: still a scheduling point without the mutex
        R(pthread_mutex_unlock)(m); wakeMutex(m); reschedule(true); lockLoop(m); return ETIMEDOUT;
    }
    t->st = OnCond;
    R(pthread_mutex_unlock)(m); wakeMutex(m);
    reschedule(false);
    bool s = t->signaled; t->obj = 0; t->timed = false;
    int e = lockLoop(m); if(e) return e;
    return s ? 0 : ETIMEDOUT;
}
static int64_t abst(const struct timespec* a) { return a->tv_sec * S + a->tv_nsec - base; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if(!on()) return R(pthread_cond_wait)(c, m); return cwait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* a) { if(!on()) return R(pthread_cond_timedwait)(c, m, a); return cwait(c, m, true, abst(a)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* a) { if(!on()) return R(pthread_cond_clockwait)(c, m, k, a); return cwait(c, m, true, abst(a)); }
int pthread_cond_signal(pthread_cond_t* c) {
    if(!on()) return R(pthread_cond_signal)(c);
    G g; std::vector<T*> w; for(size_t i = 0; i < all.size(); i++) if(all[i]->st == OnCond && all[i]->obj == c && !all[i]->signaled) w.push_back(all[i]);
    if(!w.empty()) { T* t = w[below(w.size())]; t->signaled = true; t->st = Run; }
    reschedule(true); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if(!on()) return R(pthread_cond_broadcast)(c);
    G g;
    for(size_t i = 0; i < all.size(); i++) if(all[i]->st == OnCond && all[i]->obj == c) { all[i]->signaled = true; all[i]->st = Run; }
    reschedule(true); return 0;
}
int pthread_create(pthread_t* pt, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if(!on()) return R(pthread_create)(pt, a, fn, arg);
    G g; T* t = mk(); t->fn = fn; t->arg = arg;
    // default attributes but detach state: no real priorities in the sandbox
    int ds = PTHREAD_CREATE_JOINABLE; if(a) pthread_attr_getdetachstate(a, &ds);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, ds);
    int e = R(pthread_create)(&t->pt, &at, tramp, t);
    pthread_attr_destroy(&at);
    if(e) { fprintf(stderr, "pthread_create %d\n", e); _exit(2); }
    *pt = t->pt;
    reschedule(true);
    return 0;
}
int pthread_join(pthread_t pt, void** r) {
    if(!on()) return R(pthread_join)(pt, r);
    G g; T* t = 0; for(size_t i = 0; i < all.size(); i++) if(all[i]->id && pthread_equal(all[i]->pt, pt) && !all[i]->detached) t = all[i];
    if(t) { t->detached = true; if(t->st != Done) { me->st = OnJoin; me->joinee = t; reschedule(false); } }
    return R(pthread_join)(pt, r);
}
int nanosleep(const struct timespec* a, struct timespec* rem) {
    if(!on()) return R(nanosleep)(a, rem);
    sched::sleep(a->tv_sec * S + a->tv_nsec); if(rem) rem->tv_sec = rem->tv_nsec = 0; return 0;
}
int clock_gettime(clockid_t k, struct timespec* ts) {
    if(!base) return R(clock_gettime)(k, ts);   // before the first scenario
    int64_t t = base + vt; ts->tv_sec = t / S; ts->tv_nsec = t % S; return 0;
}
}

namespace sched {
std::function<void(int64_t, bool)> onTick;
std::function<void(const std::string&)> onDeadlock;
void begin(const Opts& o) {
    // resolve everything up front
    R(pthread_mutex_lock); R(pthread_mutex_trylock); R(pthread_mutex_unlock); R(pthread_cond_wait); R(pthread_cond_timedwait); R(pthread_cond_signal); R(pthread_cond_broadcast);
    R(pthread_create); R(pthread_join); R(nanosleep); R(clock_gettime);
    if(!haveKey) { pthread_key_create(&key, fini); haveKey = true; }
    if(!base) { struct timespec ts; R(clock_gettime)(CLOCK_REALTIME, &ts); base = 1800000000LL * S; vt = 0; }
    vt += 1000 * S; vt -= vt % S; t0 = vt;
    for(size_t i = 0; i < all.size(); i++) { sem_destroy(&all[i]->sem); delete all[i]; }
    all.clear();
    rs = o.seed * 0x2545F4914F6CDD1Dull + 77; rnd(); strategy = o.strategy; fineMean = o.fine; fineLeft = o.fine ? fineNext() : 0; forced = false; npre = 0; earlyPm = o.early; stepNs = o.step; npoints = 0; ticket = 0;
    for(int i = 0; i < 4; i++) changeAt[i] = 1 + below(i < 2 ? 60 : 250);
    T* t = mk(); t->pt = pthread_self(); me = t; cur = t; active = true;
}
void end() {
    if(!alone()) { if(sched::onDeadlock) sched::onDeadlock("threads are left"); _exit(4); }
    active = false; me = 0;
}
bool alone() { for(size_t i = 1; i < all.size(); i++) if(all[i]->st != Done) return false; return true; }
void point() { G g; if(on()) reschedule(true); }
void sleep(int64_t ns) { if(!on()) return; G g; me->st = OnSleep; me->deadline = vt + ns; reschedule(false); }
int64_t now() { return vt - t0; }
int self() { return me ? me->id : -1; }
size_t points() { return npoints; }
size_t preempted() { return npre; }
Lib::Lib() : was(inLib) { inLib = true; }  Lib::~Lib() { inLib = was; }
Own::Own() : was(inLib) { inLib = false; }  Own::~Own() { inLib = was; }
int spawn(const std::function<void()>& f) {
    T* t = mk(); t->body = new std::function<void()>(f);
    int e = R(pthread_create)(&t->pt, 0, tramp, t);
    if(e) { fprintf(stderr, "spawn %d\n", e); _exit(2); }
    R(pthread_create); pthread_detach(t->pt); t->detached = true;
    return t->id;
}
void join(int id) { T* t = all[id]; if(t->st != Done) { me->st = OnJoin; me->joinee = t; reschedule(false); } }
}

// what -fsanitize=thread calls
#ifndef __SANITIZE_ADDRESS__
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) { access(); } void __tsan_vptr_read(void**) { access(); }
void __tsan_read_range(void*, size_t) { access(); } void __tsan_write_range(void*, size_t) { access(); }
#define RW(N) void __tsan_read##N(void*) { access(); } void __tsan_write##N(void*) { access(); } void __tsan_unaligned_read##N(void*) { access(); } void __tsan_unaligned_write##N(void*) { access(); } \
    void __tsan_volatile_read##N(void*) { access(); } void __tsan_volatile_write##N(void*) { access(); } void __tsan_unaligned_volatile_read##N(void*) { access(); } void __tsan_unaligned_volatile_write##N(void*) { access(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(N,T) T __tsan_atomic##N##_load(const volatile void* q, int) { access(); return __atomic_load_n((const volatile T*)q, 5); } void __tsan_atomic##N##_store(volatile void* q, T v, int) { access(); __atomic_store_n((volatile T*)q, v, 5); } \
    T __tsan_atomic##N##_exchange(volatile void* q, T v, int) { access(); return __atomic_exchange_n((volatile T*)q, v, 5); } T __tsan_atomic##N##_fetch_add(volatile void* q, T v, int) { access(); return __atomic_fetch_add((volatile T*)q, v, 5); } \
    T __tsan_atomic##N##_fetch_sub(volatile void* q, T v, int) { access(); return __atomic_fetch_sub((volatile T*)q, v, 5); } T __tsan_atomic##N##_fetch_and(volatile void* q, T v, int) { access(); return __atomic_fetch_and((volatile T*)q, v, 5); } \
    T __tsan_atomic##N##_fetch_or(volatile void* q, T v, int) { access(); return __atomic_fetch_or((volatile T*)q, v, 5); } T __tsan_atomic##N##_fetch_xor(volatile void* q, T v, int) { access(); return __atomic_fetch_xor((volatile T*)q, v, 5); } \
    T __tsan_atomic##N##_fetch_nand(volatile void* q, T v, int) { access(); return __atomic_fetch_nand((volatile T*)q, v, 5); } \
    bool __tsan_atomic##N##_compare_exchange_strong(volatile void* q, void* f, T v, int, int) { access(); return __atomic_compare_exchange_n((volatile T*)q, (T*)f, v, 0, 5, 5); } \
    bool __tsan_atomic##N##_compare_exchange_weak(volatile void* q, void* f, T v, int, int) { access(); return __atomic_compare_exchange_n((volatile T*)q, (T*)f, v, 0, 5, 5); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile void* q, T e, T v, int, int) { access(); __atomic_compare_exchange_n((volatile T*)q, &e, v, 0, 5, 5); return e; }
AT(8,unsigned char) AT(16,unsigned short) AT(32,unsigned int) AT(64,unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); } void __tsan_atomic_signal_fence(int) {}
}
#endif
