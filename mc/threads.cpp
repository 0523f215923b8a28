#include "threads.h"
#include "mc.h"

#include <cerrno>
#include <cxxabi.h>
#include <clocale>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>

namespace
{
    constexpr int none = -1;
    bool active = false;
    __thread int tid = none;
    __thread int inside = 0;

    struct Clock
    {
        uint32_t of[2] = {0, 0};
        void join(Clock const& o)
        {
            for (int i = 0; i < 2; i++)
                if (o.of[i] > of[i])
                    of[i] = o.of[i];
        }
    };
    Clock clocks[2];
    sem_t turn[2];
    bool done[2];
    void const* waiting[2];
    int preemptionsLeft;
    uint64_t syncOps;

    struct Sync
    {
        void const* addr;
        Clock clock;
        int owner;
        int depth;
        int state; // for once: 0 not run, 1 running, 2 done
        bool initialised; // for the guard of a static: it never changes again
        int readers[2];
    };
    constexpr int syncBits = 12;
    Sync syncs[1 << syncBits];
    Sync& sync(void const* addr)
    {
        uint64_t i = (reinterpret_cast<uintptr_t>(addr) * 0x9e3779b97f4a7c15ull) >> (64 - syncBits);
        for (int n = 0; n < 1 << syncBits; n++, i++)
        {
            Sync& s = syncs[i & ((1 << syncBits) - 1)];
            if (s.addr == addr)
                return s;
            if (!s.addr)
            {
                s.addr = addr;
                s.owner = none;
                return s;
            }
        }
        mc::fail("internal: too many synchronisation objects");
    }

    // what each thread last did to each byte
    struct Cell
    {
        uintptr_t key;
        uint32_t read[2][8], write[2][8], atomic[2][8];
        void* pc[2];
    };
    constexpr int cellBits = 16;
    Cell cells[1 << cellBits];
    Cell* cell(uintptr_t granule, bool create)
    {
        uint64_t i = (granule * 0x9e3779b97f4a7c15ull) >> (64 - cellBits);
        for (int n = 0; n < 1 << cellBits; n++, i++)
        {
            Cell& c = cells[i & ((1 << cellBits) - 1)];
            if (c.key == granule)
                return &c;
            if (!c.key)
            {
                if (!create)
                    return nullptr;
                c.key = granule;
                return &c;
            }
        }
        mc::fail("internal: too many memory locations");
    }

    char const* where(void* pc, char* buf, size_t n)
    {
        Dl_info info;
        if (pc && dladdr(pc, &info) && info.dli_sname)
            snprintf(buf, n, "%s+%ld", info.dli_sname, long(static_cast<char*>(pc) - static_cast<char*>(info.dli_saddr)));
        else
            snprintf(buf, n, "code at offset 0x%lx", pc && dladdr(pc, &info) ? long(static_cast<char*>(pc) - static_cast<char*>(info.dli_fbase)) : 0L);
        return buf;
    }

    enum Kind { Read, Write, Atomic };

    void access(void const* p, size_t n, Kind kind, void* pc)
    {
        if (!active || tid == none || inside)
            return;
        inside++;
        int t = tid, o = 1 - t;
        uintptr_t a = reinterpret_cast<uintptr_t>(p), end = a + n;
        uint32_t now = clocks[t].of[t], known = clocks[t].of[o];
        while (a < end)
        {
            Cell& c = *cell(a >> 3, true);
            for (; a < end && (a >> 3) == c.key; a++)
            {
                int b = int(a & 7);
                bool bad = c.write[o][b] > known;
                if (kind != Read)
                    bad = bad || c.read[o][b] > known;
                if (kind != Atomic)
                    bad = bad || c.atomic[o][b] > known;
                if (bad)
                {
                    char x[256], y[256];
                    mc::fail("data race on %p: thread %d %s it in %s and thread %d accessed it in %s, not ordered by any synchronisation", reinterpret_cast<void*>(a), t + 1,
                             kind == Read ? "reads" : kind == Write ? "writes" : "atomically accesses", where(pc, x, sizeof x), o + 1, where(c.pc[o], y, sizeof y));
                }
                (kind == Read ? c.read : kind == Write ? c.write : c.atomic)[t][b] = now;
            }
            c.pc[t] = pc;
        }
        inside--;
    }

    // fresh memory has no history: the allocator orders its reuse
    void allocated(void* p, size_t n)
    {
        if (!active)
            return;
        uintptr_t a = reinterpret_cast<uintptr_t>(p), end = a + n;
        while (a < end)
        {
            Cell* c = cell(a >> 3, false);
            uintptr_t g = a >> 3;
            for (; a < end && (a >> 3) == g; a++)
                if (c)
                    for (int t = 0; t < 2; t++)
                        c->read[t][a & 7] = c->write[t][a & 7] = c->atomic[t][a & 7] = 0;
        }
    }
    void freed(void* p, size_t n) { access(p, n, Write, __builtin_return_address(0)); }

    void switchAway()
    {
        int o = 1 - tid;
        sem_post(&turn[o]);
        while (sem_wait(&turn[tid]) != 0)
        {
        }
    }

    // the explorer may let the other thread continue
    void point(char const* what)
    {
        if (!active || tid == none || inside)
            return;
        inside++;
        syncOps++;
        int o = 1 - tid;
        if (!done[o] && !waiting[o] && preemptionsLeft > 0 && mc::choose(2))
        {
            preemptionsLeft--;
            MC_OP("thread %d is interrupted at %s", tid + 1, what);
            switchAway();
        }
        inside--;
    }

    void wait(void const* addr, char const* what)
    {
        inside++;
        int o = 1 - tid;
        if (done[o] || waiting[o])
            mc::fail("deadlock: thread %d waits at %s for ever", tid + 1, what);
        MC_OP("thread %d waits at %s", tid + 1, what);
        waiting[tid] = addr;
        switchAway();
        waiting[tid] = nullptr;
        inside--;
    }
    void wake(void const* addr)
    {
        int o = 1 - tid;
        if (waiting[o] == addr)
            waiting[o] = nullptr;
    }

    bool tracked() { return active && tid != none && !inside; }
    void acquire(void const* addr) { clocks[tid].join(sync(addr).clock); }
    void release(void const* addr)
    {
        sync(addr).clock.join(clocks[tid]);
        clocks[tid].of[tid]++;
    }

    // a thread that only spins on atomics must let the other one run
    int spins[2];
    void atomicOp(void const* p, size_t n, bool store, bool load, int order, void* pc)
    {
        if (!tracked())
            return;
        if (!store && sync(p).initialised)
        {
            acquire(p);
            return;
        }
        point("an atomic operation");
        access(p, n, Atomic, pc);
        if (load && (order == 1 || order == 2 || order >= 4))
            acquire(p);
        if (store && order >= 3)
            release(p);
        spins[1 - tid] = 0;
        if (++spins[tid] > 2000)
        {
            spins[tid] = 0;
            int o = 1 - tid;
            // many atomic operations need not be a loop that waits: if nobody is left to wait for, time tells
            if (done[o] || waiting[o])
                return;
            inside++;
            switchAway();
            inside--;
        }
    }

    struct Start
    {
        void (*fn)(void*);
        void* arg;
        int id;
    };
    void* body(void* p)
    {
        Start& s = *static_cast<Start*>(p);
        while (sem_wait(&turn[s.id]) != 0)
        {
        }
        tid = s.id;
        s.fn(s.arg);
        inside++;
        tid = none;
        done[s.id] = true;
        int o = 1 - s.id;
        if (!done[o])
        {
            if (waiting[o])
                mc::fail("deadlock: thread %d waits for ever", o + 1);
            sem_post(&turn[o]);
        }
        return nullptr;
    }
}

namespace th
{
    void step() { point("an operation boundary"); }

    void run(void (*first)(void*), void* a, void (*second)(void*), void* b, int preemptions)
    {
        clocks[0] = clocks[1] = Clock{};
        clocks[0].of[0] = clocks[1].of[1] = 1;
        done[0] = done[1] = false;
        waiting[0] = waiting[1] = nullptr;
        preemptionsLeft = preemptions;
        syncOps = 0;
        sem_init(&turn[0], 0, 0);
        sem_init(&turn[1], 0, 0);
        Start s[2] = {{first, a, 0}, {second, b, 1}};
        int begin = mc::choose(2);
        pthread_t threads[2];
        for (int i = 0; i < 2; i++)
            if (pthread_create(&threads[i], nullptr, body, &s[i]))
                mc::fail("internal: cannot create a thread");
        mc::onAllocate = allocated;
        mc::onFree = freed;
        active = true;
        sem_post(&turn[begin]);
        for (int i = 0; i < 2; i++)
            pthread_join(threads[i], nullptr);
        active = false;
        mc::onAllocate = nullptr;
        mc::onFree = nullptr;
        mc::transition(syncOps + 1);
    }
}

#define PC __builtin_return_address(0)
extern "C"
{
    // ---- what the compiler inserts
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define ACCESS(N)                                                                  \
    void __tsan_read##N(void* p) { access(p, N, Read, PC); }                       \
    void __tsan_write##N(void* p) { access(p, N, Write, PC); }                     \
    void __tsan_unaligned_read##N(void* p) { access(p, N, Read, PC); }             \
    void __tsan_unaligned_write##N(void* p) { access(p, N, Write, PC); }           \
    void __tsan_volatile_read##N(void* p) { access(p, N, Read, PC); }              \
    void __tsan_volatile_write##N(void* p) { access(p, N, Write, PC); }
    ACCESS(1)
    ACCESS(2)
    ACCESS(4)
    ACCESS(8)
    ACCESS(16)
    void __tsan_read_range(void* p, size_t n) { access(p, n, Read, PC); }
    void __tsan_write_range(void* p, size_t n) { access(p, n, Write, PC); }
    void __tsan_vptr_read(void** p) { access(p, sizeof *p, Read, PC); }
    void __tsan_vptr_update(void** p, void* v)
    {
        if (*p != v)
            access(p, sizeof *p, Write, PC);
    }

#define ATOMIC(BITS, T)                                                                                                                                        \
    T __tsan_atomic##BITS##_load(T const volatile* p, int o) { atomicOp(const_cast<T const*>(p), sizeof(T), false, true, o, PC); return *p; }                   \
    void __tsan_atomic##BITS##_store(T volatile* p, T v, int o) { atomicOp(const_cast<T const*>(p), sizeof(T), true, false, o, PC); *p = v; }                   \
    T __tsan_atomic##BITS##_exchange(T volatile* p, T v, int o) { atomicOp(const_cast<T const*>(p), sizeof(T), true, true, o, PC); T old = *p; *p = v; return old; }  \
    T __tsan_atomic##BITS##_fetch_add(T volatile* p, T v, int o) { atomicOp(const_cast<T const*>(p), sizeof(T), true, true, o, PC); T old = *p; *p = static_cast<T>(old + v); return old; } \
    T __tsan_atomic##BITS##_fetch_sub(T volatile* p, T v, int o) { atomicOp(const_cast<T const*>(p), sizeof(T), true, true, o, PC); T old = *p; *p = static_cast<T>(old - v); return old; } \
    T __tsan_atomic##BITS##_fetch_and(T volatile* p, T v, int o) { atomicOp(const_cast<T const*>(p), sizeof(T), true, true, o, PC); T old = *p; *p = static_cast<T>(old & v); return old; } \
    T __tsan_atomic##BITS##_fetch_or(T volatile* p, T v, int o) { atomicOp(const_cast<T const*>(p), sizeof(T), true, true, o, PC); T old = *p; *p = static_cast<T>(old | v); return old; }  \
    T __tsan_atomic##BITS##_fetch_xor(T volatile* p, T v, int o) { atomicOp(const_cast<T const*>(p), sizeof(T), true, true, o, PC); T old = *p; *p = static_cast<T>(old ^ v); return old; } \
    int __tsan_atomic##BITS##_compare_exchange_strong(T volatile* p, T* c, T v, int o, int)                                                                     \
    {                                                                                                                                                           \
        atomicOp(const_cast<T const*>(p), sizeof(T), true, true, o, PC);                                                                                         \
        if (*p == *c)                                                                                                                                            \
        {                                                                                                                                                        \
            *p = v;                                                                                                                                              \
            return 1;                                                                                                                                            \
        }                                                                                                                                                        \
        *c = *p;                                                                                                                                                 \
        return 0;                                                                                                                                                \
    }                                                                                                                                                           \
    int __tsan_atomic##BITS##_compare_exchange_weak(T volatile* p, T* c, T v, int o, int f) { return __tsan_atomic##BITS##_compare_exchange_strong(p, c, v, o, f); }
    ATOMIC(8, unsigned char)
    ATOMIC(16, unsigned short)
    ATOMIC(32, unsigned)
    ATOMIC(64, unsigned long)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}

    // ---- statics inside functions
    int __wrap___cxa_guard_acquire(unsigned char* g)
    {
        if (!tracked())
            return abi::__cxa_guard_acquire(reinterpret_cast<abi::__guard*>(g));
        point("the initialisation of a static");
        Sync& s = sync(g);
        while (s.owner != none && s.owner != tid)
            wait(g, "the initialisation of a static");
        acquire(g);
        if (*g)
            return 0;
        if (s.owner == tid)
            mc::fail("a static is initialised recursively");
        s.owner = tid;
        return 1;
    }
    void __wrap___cxa_guard_release(unsigned char* g)
    {
        sync(g).initialised = true;
        if (!tracked() || sync(g).owner != tid)
            return abi::__cxa_guard_release(reinterpret_cast<abi::__guard*>(g));
        *g = 1;
        sync(g).owner = none;
        release(g);
        wake(g);
        point("the end of the initialisation of a static");
    }
    void __wrap___cxa_guard_abort(unsigned char* g)
    {
        if (!tracked() || sync(g).owner != tid)
            return abi::__cxa_guard_abort(reinterpret_cast<abi::__guard*>(g));
        sync(g).owner = none;
        release(g);
        wake(g);
    }

    // ---- locks
    int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (!tracked())
            return pthread_mutex_lock(m);
        point("a lock");
        Sync& s = sync(m);
        while (s.owner != none && s.owner != tid)
            wait(m, "a lock");
        if (s.owner == tid && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP)
            mc::fail("deadlock: a thread locks a mutex it holds");
        s.owner = tid;
        s.depth++;
        acquire(m);
        return 0;
    }
    int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (!tracked())
            return pthread_mutex_trylock(m);
        point("a lock");
        Sync& s = sync(m);
        if (s.owner != none && (s.owner != tid || m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP))
            return EBUSY;
        s.owner = tid;
        s.depth++;
        acquire(m);
        return 0;
    }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (!tracked())
            return pthread_mutex_unlock(m);
        Sync& s = sync(m);
        if (--s.depth == 0)
        {
            s.owner = none;
            release(m);
            wake(m);
            point("the end of a lock");
        }
        return 0;
    }
    int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
    {
        if (!tracked())
            return pthread_rwlock_rdlock(m);
        point("a shared lock");
        Sync& s = sync(m);
        while (s.owner != none)
            wait(m, "a shared lock");
        s.readers[tid]++;
        acquire(m);
        return 0;
    }
    int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
    {
        if (!tracked())
            return pthread_rwlock_wrlock(m);
        point("an exclusive lock");
        Sync& s = sync(m);
        while (s.owner != none || s.readers[1 - tid])
            wait(m, "an exclusive lock");
        s.owner = tid;
        acquire(m);
        return 0;
    }
    int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
    {
        if (!tracked())
            return pthread_rwlock_unlock(m);
        Sync& s = sync(m);
        if (s.owner == tid)
            s.owner = none;
        else
            s.readers[tid]--;
        release(m);
        wake(m);
        point("the end of a lock");
        return 0;
    }
    int __wrap_pthread_once(pthread_once_t* c, void (*fn)())
    {
        if (!tracked())
            return pthread_once(c, fn);
        point("a call_once");
        Sync& s = sync(c);
        while (s.state == 1)
            wait(c, "a call_once");
        acquire(c);
        if (s.state == 2)
            return 0;
        s.state = 1;
        fn();
        s.state = 2;
        release(c);
        wake(c);
        return 0;
    }

    // ---- functions of the C library that read or write memory of the caller
#define WRAP(ret, name, params) \
    ret __wrap_##name params;   \
    ret __wrap_##name params
    WRAP(void*, memcpy, (void* d, void const* s, size_t n)) { access(s, n, Read, PC); access(d, n, Write, PC); return memcpy(d, s, n); }
    WRAP(void*, memmove, (void* d, void const* s, size_t n)) { access(s, n, Read, PC); access(d, n, Write, PC); return memmove(d, s, n); }
    WRAP(void*, memset, (void* d, int c, size_t n)) { access(d, n, Write, PC); return memset(d, c, n); }
    WRAP(int, memcmp, (void const* a, void const* b, size_t n)) { access(a, n, Read, PC); access(b, n, Read, PC); return memcmp(a, b, n); }
    WRAP(void*, memchr, (void const* a, int c, size_t n)) { access(a, n, Read, PC); return (void*)memchr(a, c, n); }
    WRAP(size_t, strlen, (char const* s)) { size_t n = strlen(s); access(s, n + 1, Read, PC); return n; }
    WRAP(int, strcmp, (char const* a, char const* b)) { access(a, strlen(a) + 1, Read, PC); access(b, strlen(b) + 1, Read, PC); return strcmp(a, b); }
    WRAP(int, strncmp, (char const* a, char const* b, size_t n)) { access(a, strnlen(a, n), Read, PC); access(b, strnlen(b, n), Read, PC); return strncmp(a, b, n); }
    WRAP(char*, strcpy, (char* d, char const* s)) { size_t n = strlen(s) + 1; access(s, n, Read, PC); access(d, n, Write, PC); return strcpy(d, s); }
    WRAP(char*, strncpy, (char* d, char const* s, size_t n)) { access(s, strnlen(s, n), Read, PC); access(d, n, Write, PC); return strncpy(d, s, n); }
    WRAP(char*, strcat, (char* d, char const* s)) { access(d, strlen(d) + strlen(s) + 1, Write, PC); return strcat(d, s); }
    WRAP(char*, strchr, (char const* s, int c)) { access(s, strlen(s) + 1, Read, PC); return (char*)strchr(s, c); }
    static int printed(char* d, size_t n, char const* f, va_list a, void* pc)
    {
        int r = vsnprintf(d, n, f, a);
        if (d && n && r >= 0)
            access(d, size_t(r) + 1 < n ? size_t(r) + 1 : n, Write, pc);
        return r;
    }
    int __wrap_vsnprintf(char* d, size_t n, char const* f, va_list a);
    int __wrap_vsnprintf(char* d, size_t n, char const* f, va_list a) { return printed(d, n, f, a, PC); }
    int __wrap_snprintf(char* d, size_t n, char const* f, ...);
    int __wrap_snprintf(char* d, size_t n, char const* f, ...)
    {
        va_list a;
        va_start(a, f);
        int r = printed(d, n, f, a, PC);
        va_end(a);
        return r;
    }
    int __wrap_vsprintf(char* d, char const* f, va_list a);
    int __wrap_vsprintf(char* d, char const* f, va_list a) { return printed(d, 1u << 30, f, a, PC); }
    int __wrap_sprintf(char* d, char const* f, ...);
    int __wrap_sprintf(char* d, char const* f, ...)
    {
        va_list a;
        va_start(a, f);
        int r = printed(d, 1u << 30, f, a, PC);
        va_end(a);
        return r;
    }
#define PARSE(T, name)                                      \
    T __wrap_##name(char const* s, char** e)                \
    {                                                       \
        access(s, strlen(s) + 1, Read, PC);                 \
        if (e)                                              \
            access(e, sizeof *e, Write, PC);                \
        return name(s, e);                         \
    }
    PARSE(float, strtof)
    PARSE(double, strtod)
    PARSE(long double, strtold)
#define PARSEI(T, name)                                     \
    T __wrap_##name(char const* s, char** e, int b)         \
    {                                                       \
        access(s, strlen(s) + 1, Read, PC);                 \
        if (e)                                              \
            access(e, sizeof *e, Write, PC);                \
        return name(s, e, b);                      \
    }
    PARSEI(long, strtol)
    PARSEI(long long, strtoll)
    PARSEI(unsigned long, strtoul)
    PARSEI(unsigned long long, strtoull)

    // ---- functions of the C library with state shared by all threads
    static char hiddenState[16];
#define SHARED(i, kind) access(&hiddenState[i], 1, kind, PC)
    WRAP(char*, strtok, (char* s, char const* d)) { SHARED(0, Write); return strtok(s, d); }
    WRAP(char*, setlocale, (int c, char const* l)) { SHARED(1, l ? Write : Read); return setlocale(c, l); }
    WRAP(struct lconv*, localeconv, ()) { SHARED(1, Read); SHARED(2, Write); return localeconv(); }
    WRAP(char*, strerror, (int e)) { SHARED(3, Write); return strerror(e); }
    WRAP(int, rand, ()) { SHARED(4, Write); return rand(); }
    WRAP(void, srand, (unsigned s)) { SHARED(4, Write); srand(s); }
    WRAP(struct tm*, localtime, (time_t const* t)) { SHARED(5, Write); return localtime(t); }
    WRAP(struct tm*, gmtime, (time_t const* t)) { SHARED(5, Write); return gmtime(t); }
    WRAP(char*, asctime, (struct tm const* t)) { SHARED(6, Write); return asctime(t); }
    WRAP(char*, ctime, (time_t const* t)) { SHARED(6, Write); return ctime(t); }
    WRAP(char*, getenv, (char const* n)) { SHARED(7, Read); return getenv(n); }
    WRAP(int, setenv, (char const* n, char const* v, int o)) { SHARED(7, Write); return setenv(n, v, o); }
    WRAP(int, unsetenv, (char const* n)) { SHARED(7, Write); return unsetenv(n); }
    WRAP(int, putenv, (char* n)) { SHARED(7, Write); return putenv(n); }

    // ---- memory that does not come from operator new
    void* __wrap_malloc(size_t n)
    {
        void* p = malloc(n);
        if (p && tracked())
            allocated(p, n);
        return p;
    }
    void* __wrap_calloc(size_t n, size_t m)
    {
        void* p = calloc(n, m);
        if (p && tracked())
            allocated(p, n * m);
        return p;
    }
    void* __wrap_realloc(void* q, size_t n)
    {
        void* p = realloc(q, n);
        if (p && tracked())
            allocated(p, n);
        return p;
    }
    void __wrap_free(void* p) { free(p); }
    void* __wrap___cxa_allocate_exception(size_t n)
    {
        void* p = abi::__cxa_allocate_exception(n);
        if (tracked())
            allocated(p, n);
        return p;
    }
    char* __wrap_strdup(char const* s)
    {
        size_t n = strlen(s) + 1;
        access(s, n, Read, PC);
        char* p = static_cast<char*>(malloc(n));
        if (p && tracked())
            allocated(p, n);
        return p ? static_cast<char*>(memcpy(p, s, n)) : p;
    }
}
