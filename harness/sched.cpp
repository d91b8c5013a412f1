// See sched.hpp. Replaces pthread primitives, clocks, the run-time of -fsanitize=thread and operator new/delete.
#include "sched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <new>

namespace {
enum State { READY, ON_MUTEX, ON_COND, ON_JOIN, ON_SLEEP, ON_GUARD, ON_POLL, DONE };
struct Th {
    int id = 0;
    State st = READY;
    void* obj = nullptr;
    int64_t deadline = -1;
    bool timedOut = false;
    int64_t prio = 0;
    volatile int go = 0;
    pthread_t real;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    struct pollfd* pfds = nullptr;
    int npfds = 0;
};
constexpr int MAXTH = 64;
constexpr int64_t MS = 1000000;
Th gTh[MAXTH];
int gN = 0;
bool gOn = false;
Th* gCur = nullptr;
__thread Th* tMe = nullptr;
int gQuiet = 0;
int64_t gNow = 0;
uint64_t gPoints = 0;
uint64_t gRng = 88172645463325252ull;
sched::Config gCfg;
uint64_t gChange[64];
int64_t gLow = -1;

// mutex owners: small open hash table
struct Own {
    void* m;
    Th* t;
    int n;
};
constexpr int OWNS = 4096;
Own gOwn[OWNS];

uint64_t rnd() {
    gRng ^= gRng << 13;
    gRng ^= gRng >> 7;
    gRng ^= gRng << 17;
    return gRng >> 11;
}
bool chance(int permille) { return permille > 0 && static_cast<int>(rnd() % 1000) < permille; }

Own* owner(void* m, bool create) {
    size_t h = (reinterpret_cast<uintptr_t>(m) >> 3) % OWNS;
    for (int i = 0; i < OWNS; ++i) {
        Own& o = gOwn[(h + i) % OWNS];
        if (o.m == m) return &o;
        if (o.m == nullptr) {
            if (!create) return nullptr;
            o.m = m;
            o.t = nullptr;
            o.n = 0;
            return &o;
        }
    }
    abort();
}

void futexWait(volatile int* a) {
    while (*a == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    *a = 0;
    __sync_synchronize();
}
void futexWake(volatile int* a) {
    __sync_synchronize();
    *a = 1;
    syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

int realPoll(struct pollfd* f, int n) { return static_cast<int>(syscall(SYS_poll, f, n, 0)); }

bool runnable(Th& t) {
    if (t.st == READY) return true;
    if (t.st == ON_POLL && realPoll(t.pfds, t.npfds) > 0) {
        t.st = READY;
        return true;
    }
    return false;
}

void describe(std::string& s) {
    static const char* names[] = {"ready", "mutex", "cond", "join", "sleep", "guard", "poll", "done"};
    for (int i = 0; i < gN; ++i) {
        char b[96];
        snprintf(b, sizeof b, "%s%d:%s", i ? " " : "", i, names[gTh[i].st]);
        s += b;
    }
}

[[noreturn]] void stuck(const char* why) {
    gQuiet++;
    std::string s;
    describe(s);
    sched::onStuck(why, s);
    _exit(14);
}

// time moves to the earliest deadline; false if there is none
bool advance() {
    int64_t d = -1;
    for (int i = 0; i < gN; ++i) {
        Th& t = gTh[i];
        if (t.st != READY && t.st != DONE && t.deadline >= 0 && (d < 0 || t.deadline < d)) d = t.deadline;
    }
    if (d < 0) return false;
    if (d > gNow) gNow = d;
    if (gNow > gCfg.limitMs * MS) stuck("virtual time limit");
    for (int i = 0; i < gN; ++i) {
        Th& t = gTh[i];
        if (t.st != READY && t.st != DONE && t.deadline >= 0 && t.deadline <= gNow) {
            t.timedOut = true;
            t.deadline = -1;
            t.st = READY;
            t.obj = nullptr;
        }
    }
    gQuiet++;
    sched::onTime(gNow / MS);
    gQuiet--;
    return true;
}

Th* choose(bool mayStay) {
    for (;;) {
        Th* c[MAXTH];
        int n = 0;
        for (int i = 0; i < gN; ++i) {
            if (runnable(gTh[i])) c[n++] = &gTh[i];
        }
        if (n > 0) {
            if (gCfg.hurry > 0 && chance(gCfg.hurry)) {
                (void)advance();
            }
            if (gCfg.spurious > 0 && chance(gCfg.spurious)) {
                for (int i = 0; i < gN; ++i) {
                    if (gTh[i].st == ON_COND) {
                        gTh[i].st = READY;
                        gTh[i].deadline = -1;
                        gTh[i].timedOut = false;
                        gTh[i].obj = nullptr;
                        break;
                    }
                }
            }
            if (gCfg.mode == 2) {
                Th* b = c[0];
                for (int i = 1; i < n; ++i) {
                    if (c[i]->prio > b->prio) b = c[i];
                }
                return b;
            }
            return c[rnd() % n];
        }
        gQuiet++;
        sched::onIdle(gNow / MS);
        gQuiet--;
        if (!advance()) stuck("deadlock");
    }
}

void switchTo(Th* me, Th* next) {
    if (next == me) return;
    gCur = next;
    futexWake(&next->go);
    if (me->st != DONE) futexWait(&me->go);
}

// the calling thread is blocked (its state says why) until someone makes it ready again
void block(Th* me) {
    switchTo(me, choose(false));
}

void doPoint(bool sync) {
    Th* me = tMe;
    if (!gOn || me == nullptr || gQuiet > 0 || me != gCur) return;
    if (++gPoints > gCfg.maxPoints) stuck("too many steps");
    if (gCfg.mode == 2) {
        for (int i = 0; i < gCfg.changes; ++i) {
            if (gChange[i] == gPoints) me->prio = gLow--;
        }
        if (sync || (gPoints % 64) == 0 || true) {
            Th* b = me;
            for (int i = 0; i < gN; ++i) {
                if (gTh[i].st == READY && gTh[i].prio > b->prio) b = &gTh[i];
            }
            if (b != me) switchTo(me, b);
        }
        return;
    }
    if (sync ? (rnd() % 100 < 40) : (gCfg.mode == 1 && rnd() % gCfg.rate == 0)) switchTo(me, choose(true));
}

// --------------------------------------------------------------------------------------------------- memory
constexpr size_t ARENA = size_t(1) << 29;
char* gArena = nullptr;
size_t gTop = 0;
unsigned char* gFreed = nullptr;  // one byte per 16 bytes: 1 = released
void arenaInit() {
    gArena = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    gFreed = static_cast<unsigned char*>(mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (gArena == MAP_FAILED || gFreed == MAP_FAILED) abort();
}
void* take(size_t n) {
    if (gArena == nullptr) arenaInit();
    const size_t need = ((n + 15) & ~size_t(15)) + 32;
    const size_t at = __sync_fetch_and_add(&gTop, need);
    if (at + need > ARENA) {
        static const char msg[] = "arena exhausted\n";
        (void)!write(2, msg, sizeof msg - 1);
        _exit(18);
    }
    *reinterpret_cast<size_t*>(gArena + at) = n;
    return gArena + at + 16;
}
std::string where() {
    void* at[12];
    sched::Quiet q;
    const int n = backtrace(at, 12);
    char** t = backtrace_symbols(at, n);
    std::string s;
    for (int i = 2; i < n; ++i) {
        const char* b = strchr(t[i], '(');
        s += std::string(b ? b : t[i]) + " ";
    }
    return s;
}
void give(void* p) {
    char* c = static_cast<char*>(p);
    if (c == nullptr) return;
    const size_t n = *reinterpret_cast<size_t*>(c - 16);
    const size_t g = (c - gArena) / 16;
    if (gFreed[g]) {
        if (gOn) {
            sched::onStuck("memory released twice", where());
        }
        _exit(17);
    }
    memset(gFreed + g, 1, (n + 15) / 16 + 1);
    memset(c, 0xdd, n);
}
inline void access(void* a) {
    const size_t off = static_cast<char*>(a) - gArena;
    if (off < ARENA && gFreed[off / 16] && gOn) {
        sched::onStuck("use of released memory", where());
        _exit(17);
    }
    doPoint(false);
}

template <class F>
F real(const char* name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

bool recursive(void* m) { return (static_cast<pthread_mutex_t*>(m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int mutexLock(void* m, bool tryOnly) {
    Th* me = tMe;
    if (!gOn || me == nullptr) return 0;
    doPoint(true);
    Own* o = owner(m, true);
    if (o->t == me && recursive(m)) {
        o->n++;
        return 0;
    }
    while (o->t != nullptr) {
        if (tryOnly) return EBUSY;
        if (gQuiet > 0) abort();
        me->st = ON_MUTEX;
        me->obj = m;
        me->deadline = -1;
        block(me);
    }
    o->t = me;
    return 0;
}
int mutexUnlock(void* m, bool pt) {
    Th* me = tMe;
    if (!gOn || me == nullptr) return 0;
    Own* o = owner(m, true);
    if (o->t != me) {
        // unlocking a mutex of somebody else (or one which isn't locked) is undefined behaviour
        std::string s;
        sched::onStuck("unlock of a mutex which isn't owned", s);
        _exit(16);
    }
    if (o->n > 0) {
        o->n--;
        return 0;
    }
    o->t = nullptr;
    for (int i = 0; i < gN; ++i) {
        if (gTh[i].st == ON_MUTEX && gTh[i].obj == m) gTh[i].st = READY;
    }
    if (pt) doPoint(true);
    return 0;
}
int condWait(void* c, void* m, int64_t deadline) {
    Th* me = tMe;
    if (!gOn || me == nullptr) return 0;
    mutexUnlock(m, false);
    me->st = ON_COND;
    me->obj = c;
    me->deadline = deadline;
    me->timedOut = false;
    block(me);
    const bool to = me->timedOut;
    me->deadline = -1;
    me->timedOut = false;
    mutexLock(m, false);
    return to ? ETIMEDOUT : 0;
}
int condWake(void* c, bool all) {
    if (!gOn || tMe == nullptr) return 0;
    doPoint(true);
    Th* w[MAXTH];
    int n = 0;
    for (int i = 0; i < gN; ++i) {
        if (gTh[i].st == ON_COND && gTh[i].obj == c) w[n++] = &gTh[i];
    }
    if (n > 0 && !all) {
        w[0] = w[rnd() % n];
        n = 1;
    }
    for (int i = 0; i < n; ++i) {
        w[i]->st = READY;
        w[i]->deadline = -1;
        w[i]->timedOut = false;
        w[i]->obj = nullptr;
    }
    doPoint(true);
    return 0;
}
int64_t toNs(const struct timespec* t) { return static_cast<int64_t>(t->tv_sec) * 1000000000ll + t->tv_nsec; }
constexpr int64_t EPOCH = 1000000000ll * 1000000ll;  // virtual clocks start at 1000000 s

void* trampoline(void* p) {
    Th* me = static_cast<Th*>(p);
    futexWait(&me->go);
    tMe = me;
    void* r = me->fn(me->arg);
    me->st = DONE;
    for (int i = 0; i < gN; ++i) {
        if (gTh[i].st == ON_JOIN && gTh[i].obj == me) gTh[i].st = READY;
    }
    Th* next = choose(false);
    gCur = next;
    tMe = nullptr;
    futexWake(&next->go);
    return r;
}
}  // namespace

namespace sched {
void begin(const Config& c) {
    if (gArena == nullptr) arenaInit();
    gCfg = c;
    gRng = c.seed * 0x9E3779B97F4A7C15ull + 0x1234567ull;
    for (int i = 0; i < 20; ++i) (void)rnd();
    for (int i = 0; i < c.changes && i < 64; ++i) gChange[i] = rnd() % (c.length > 0 ? c.length : 1);
    gN = 1;
    gTh[0].id = 0;
    gTh[0].st = READY;
    gTh[0].prio = 1000 + static_cast<int64_t>(rnd() % 1000);
    tMe = gCur = &gTh[0];
    gOn = true;
}
int tid() { return tMe ? tMe->id : -1; }
int64_t nowMs() { return gNow / MS; }
void point() { doPoint(true); }
uint64_t points() { return gPoints; }
Quiet::Quiet() { gQuiet++; }
Quiet::~Quiet() { gQuiet--; }
void sleepMs(int64_t ms) {
    Th* me = tMe;
    if (!gOn || me == nullptr) return;
    me->st = ON_SLEEP;
    me->deadline = gNow + ms * MS;
    me->timedOut = false;
    block(me);
    me->deadline = -1;
}
}  // namespace sched

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { return mutexLock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mutexLock(m, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return mutexUnlock(m, true); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return condWait(c, m, toNs(t) - EPOCH < 0 ? 0 : toNs(t) - EPOCH); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) {
    return condWait(c, m, toNs(t) - EPOCH < 0 ? 0 : toNs(t) - EPOCH);
}
int pthread_cond_signal(pthread_cond_t* c) { return condWake(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return condWake(c, true); }
int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!gOn || tMe == nullptr) return f(out, a, fn, arg);
    if (gN >= MAXTH) abort();
    Th& t = gTh[gN];
    t.id = gN;
    t.st = READY;
    t.prio = 1000 + static_cast<int64_t>(rnd() % 1000);
    t.fn = fn;
    t.arg = arg;
    const int r = f(&t.real, a, trampoline, &t);
    if (r != 0) return r;
    *out = t.real;
    gN++;
    doPoint(true);
    return 0;
}
int pthread_join(pthread_t p, void** ret) {
    static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
    Th* me = tMe;
    if (gOn && me != nullptr) {
        doPoint(true);
        for (int i = 0; i < gN; ++i) {
            Th& t = gTh[i];
            if (t.id > 0 && pthread_equal(t.real, p)) {
                while (t.st != DONE) {
                    me->st = ON_JOIN;
                    me->obj = &t;
                    me->deadline = -1;
                    block(me);
                }
                t.id = -t.id;  // pthread_t may be used again
                break;
            }
        }
    }
    return f(p, ret);
}
int clock_gettime(clockid_t, struct timespec* t) {
    const int64_t n = EPOCH + gNow;
    t->tv_sec = n / 1000000000ll;
    t->tv_nsec = n % 1000000000ll;
    return 0;
}
int gettimeofday(struct timeval* t, void*) {
    const int64_t n = EPOCH + gNow;
    t->tv_sec = n / 1000000000ll;
    t->tv_usec = (n % 1000000000ll) / 1000;
    return 0;
}
int nanosleep(const struct timespec* t, struct timespec*) {
    sched::sleepMs((toNs(t) + MS - 1) / MS);
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec*) {
    int64_t d = toNs(t);
    if (flags & TIMER_ABSTIME) d -= EPOCH + gNow;
    sched::sleepMs(d <= 0 ? 0 : (d + MS - 1) / MS);
    return 0;
}
int usleep(useconds_t u) {
    sched::sleepMs((u + 999) / 1000);
    return 0;
}
int sched_yield() {
    Th* me = tMe;
    if (gOn && me != nullptr && gQuiet == 0) {
        if (gCfg.mode == 2) me->prio = gLow--;
        switchTo(me, choose(true));
    }
    return 0;
}
int pthread_sigmask(int how, const sigset_t* s, sigset_t* o) {
    doPoint(true);
    if (o != nullptr) sigemptyset(o);
    return 0;
}
int poll(struct pollfd* f, nfds_t n, int timeout) {
    Th* me = tMe;
    if (!gOn || me == nullptr) return static_cast<int>(syscall(SYS_poll, f, n, timeout));
    doPoint(true);
    int r = realPoll(f, n);
    if (r != 0 || timeout == 0) return r;
    me->st = ON_POLL;
    me->pfds = f;
    me->npfds = n;
    me->deadline = timeout < 0 ? -1 : gNow + timeout * MS;
    me->timedOut = false;
    block(me);
    me->deadline = -1;
    me->timedOut = false;
    return realPoll(f, n);
}
int ppoll(struct pollfd* f, nfds_t n, const struct timespec* t, const sigset_t*) {
    return poll(f, n, t == nullptr ? -1 : static_cast<int>((toNs(t) + MS - 1) / MS));
}

// function-local statics
int __cxa_guard_acquire(long long int* g) {
    volatile char* c = reinterpret_cast<volatile char*>(g);
    for (;;) {
        if (c[0]) return 0;
        if (!c[1]) {
            c[1] = 1;
            return 1;
        }
        if (!gOn || tMe == nullptr) abort();
        Th* me = tMe;
        me->st = ON_GUARD;
        me->obj = g;
        me->deadline = -1;
        block(me);
    }
}
void __cxa_guard_release(long long int* g) {
    volatile char* c = reinterpret_cast<volatile char*>(g);
    c[0] = 1;
    c[1] = 0;
    for (int i = 0; i < gN; ++i) {
        if (gTh[i].st == ON_GUARD && gTh[i].obj == g) gTh[i].st = READY;
    }
}
void __cxa_guard_abort(long long int* g) {
    reinterpret_cast<volatile char*>(g)[1] = 0;
    for (int i = 0; i < gN; ++i) {
        if (gTh[i].st == ON_GUARD && gTh[i].obj == g) gTh[i].st = READY;
    }
}

// run-time of -fsanitize=thread
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(name) \
    void __tsan_##name(void* a) { access(a); }
ACC(read1) ACC(read2) ACC(read4) ACC(read8) ACC(read16) ACC(write1) ACC(write2) ACC(write4) ACC(write8) ACC(write16)
ACC(unaligned_read2) ACC(unaligned_read4) ACC(unaligned_read8) ACC(unaligned_read16)
ACC(unaligned_write2) ACC(unaligned_write4) ACC(unaligned_write8) ACC(unaligned_write16)
ACC(volatile_read1) ACC(volatile_read2) ACC(volatile_read4) ACC(volatile_read8) ACC(volatile_read16)
ACC(volatile_write1) ACC(volatile_write2) ACC(volatile_write4) ACC(volatile_write8) ACC(volatile_write16)
ACC(vptr_read)
void __tsan_vptr_update(void** a, void*) { access(a); }
void __tsan_read_range(void* a, unsigned long) { access(a); }
void __tsan_write_range(void* a, unsigned long) { access(a); }
void __tsan_atomic_thread_fence(int) { doPoint(true); }
void __tsan_atomic_signal_fence(int) {}
#define ATOMICS(N, T)                                                                                                      \
    T __tsan_atomic##N##_load(const volatile T* a, int) { access((void*)a); return *a; }                                   \
    void __tsan_atomic##N##_store(volatile T* a, T v, int) { access((void*)a); *a = v; }                                   \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { access((void*)a); T o = *a; *a = v; return o; }               \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { access((void*)a); T o = *a; *a = o + v; return o; }          \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { access((void*)a); T o = *a; *a = o - v; return o; }          \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { access((void*)a); T o = *a; *a = o & v; return o; }          \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { access((void*)a); T o = *a; *a = o | v; return o; }           \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { access((void*)a); T o = *a; *a = o ^ v; return o; }          \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { access((void*)a); T o = *a; *a = ~(o & v); return o; }      \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                                   \
        access((void*)a);                                                                                                  \
        if (*a == *c) { *a = v; return 1; }                                                                                \
        *c = *a;                                                                                                           \
        return 0;                                                                                                          \
    }                                                                                                                      \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y) {                                 \
        return __tsan_atomic##N##_compare_exchange_strong(a, c, v, x, y);                                                  \
    }                                                                                                                      \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                                         \
        access((void*)a);                                                                                                  \
        T o = *a;                                                                                                          \
        if (o == c) *a = v;                                                                                                \
        return o;                                                                                                          \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
}

void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
