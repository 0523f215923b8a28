#include "mc.h"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
    #define MC_SAN 1
#else
    #define MC_SAN 0
#endif

namespace
{
    constexpr int exitViolation = 42;
    constexpr int exitDivergence = 43;
    constexpr uint32_t maxChoices = 8192;
    constexpr uint32_t maxPrefix = 1024;
    constexpr uint32_t queueCapacity = 4096;
    constexpr uint32_t historyBytes = 1 << 16;
    constexpr int maxWorkers = 64;
    constexpr int samplesPerWorker = 3;

    struct Sequence
    {
        uint32_t len;
        uint16_t c[maxChoices];
        uint16_t n[maxChoices];
    };

    struct Unit
    {
        uint32_t len;
        uint16_t hiLast; // the last choice ranges over c[len-1] .. hiLast-1
        uint16_t c[maxPrefix];
    };

    struct Slot
    {
        Sequence seq;
        uint16_t hi[maxChoices];
        uint32_t base;
        std::atomic<uint64_t> started; // ms, 0 when idle
        uint64_t executions;
        uint64_t transitions;
        uint64_t validated;
        uint64_t choices;
        uint32_t maxLen;
        int failed;
        char message[8192];
        // choice sequences of the previous executions of this process, newest last (for failures
        // that depend on state left behind by earlier executions)
        uint32_t histLen;
        uint16_t hist[historyBytes / 2];
        uint32_t sampleCount;
        Sequence samples[samplesPerWorker];
    };

    struct Table
    {
        uint64_t mask;
        std::atomic<uint64_t> used;
        std::atomic<uint64_t>* slots;
    };

    struct Shared
    {
        std::atomic<int> lock;
        std::atomic<int> idle;
        std::atomic<int> stop;
        int knownCount;
        char known[16][64];
        uint32_t queueLen;
        Unit queue[queueCapacity];
        Slot slots[maxWorkers];
    };

    Shared* sh = nullptr;
    Slot* me = nullptr;
    Table states, outcomes;
    int workerCount = 8;
    bool isThorough = false;

    // replay of a prefix inside the current execution
    uint32_t prefixLen = 0;
    uint32_t pos = 0;

    uint64_t nowMs()
    {
        timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return uint64_t(ts.tv_sec) * 1000 + uint64_t(ts.tv_nsec) / 1000000;
    }

    void* shareMap(size_t size)
    {
        void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED)
        {
            perror("mmap");
            exit(2);
        }
        return p;
    }

    void tableInit(Table& t, int bits)
    {
        t.mask = (uint64_t(1) << bits) - 1;
        t.slots = static_cast<std::atomic<uint64_t>*>(shareMap(sizeof(uint64_t) << bits));
    }

    std::atomic<uint64_t>* tableCounters = nullptr; // shared: [0] states, [1] outcomes, [2] table full

    // true when the hash is new
    bool tableInsert(Table& t, int counter, uint64_t h)
    {
        if (h == 0)
            h = 1;
        uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 20;
        for (int probe = 0; probe < 64; probe++, i++)
        {
            auto& s = t.slots[i & t.mask];
            uint64_t v = s.load(std::memory_order_relaxed);
            if (v == h)
                return false;
            if (v == 0)
            {
                uint64_t expected = 0;
                if (s.compare_exchange_strong(expected, h))
                {
                    tableCounters[counter].fetch_add(1, std::memory_order_relaxed);
                    return true;
                }
                if (expected == h)
                    return false;
            }
        }
        tableCounters[2].fetch_add(1, std::memory_order_relaxed);
        return false;
    }

    // what executions observed, to be compared with another build: sums of hashes per bucket
    constexpr uint64_t digestBuckets = 4096;
    std::atomic<uint64_t>* digestSums = nullptr; // shared; made on first use
    Table digests;
    long dumpBucket = -1;
    char const* dumpFile = nullptr;
    char const* scenarioName = "";

    void lockQueue()
    {
        while (sh->lock.exchange(1, std::memory_order_acquire))
            usleep(20);
    }
    void unlockQueue()
    {
        sh->lock.store(0, std::memory_order_release);
    }

    // ---------------------------------------------------------------- allocation
    long live = 0;
    size_t liveBytes = 0;
    constexpr size_t maxLiveBytes = size_t(3) << 29; // 1.5 GB in one explored execution: runaway
    long allocs = 0;
    long failAt1 = -1, failAt2 = -1;
    int failBudget = 0; // this many allocations may fail, chosen by the explorer
    bool failFired = false;
    int faultSuspended = 0;

    bool shouldFail()
    {
        if (faultSuspended)
            return false;
        long i = allocs++;
        if (failBudget > 0 && mc::choose(2))
        {
            failBudget--;
            failFired = true;
            return true;
        }
        if (i == failAt1 || i == failAt2)
        {
            failFired = true;
            return true;
        }
        return false;
    }

#if !MC_SAN
    constexpr uint64_t magicScalar = 0xA110C5CA1A5ull;
    constexpr uint64_t magicArray = 0xA110CA55A7ull;
    constexpr uint64_t magicDead = 0xDEADDEADDEADull;
    struct Header
    {
        uint64_t magic;
        uint64_t size;
    };
    static_assert(sizeof(Header) == 16, "");
#endif

    void* allocate(size_t size, bool array)
    {
        if (shouldFail())
            throw std::bad_alloc();
#if MC_SAN
        (void)array;
        void* p = malloc(size ? size : 1);
        if (!p)
            throw std::bad_alloc();
        live++;
        liveBytes += malloc_usable_size(p);
        if (liveBytes > maxLiveBytes)
            mc::fail("runaway memory consumption");
        if (mc::onAllocate)
            mc::onAllocate(p, size);
        return p;
#else
        if (size > (size_t(1) << 40))
            throw std::bad_alloc();
        char* p = static_cast<char*>(malloc(size + sizeof(Header) + 8));
        if (!p)
            throw std::bad_alloc();
        Header* h = reinterpret_cast<Header*>(p);
        h->magic = array ? magicArray : magicScalar;
        h->size = size;
        uint64_t tail = 0x5AFE5AFE5AFE5AFEull ^ size;
        memset(p + sizeof(Header), 0xCD, size < 256 ? size : 256);
        memcpy(p + sizeof(Header) + size, &tail, 8);
        live++;
        liveBytes += size;
        if (liveBytes > maxLiveBytes)
            mc::fail("runaway memory consumption");
        if (mc::onAllocate)
            mc::onAllocate(p + sizeof(Header), size);
        return p + sizeof(Header);
#endif
    }

    void deallocate(void* ptr, bool array)
    {
        if (!ptr)
            return;
        live--;
#if MC_SAN
        (void)array;
        if (mc::onFree)
            mc::onFree(ptr, malloc_usable_size(ptr));
        liveBytes -= malloc_usable_size(ptr);
        free(ptr);
#else
        char* p = static_cast<char*>(ptr) - sizeof(Header);
        Header* h = reinterpret_cast<Header*>(p);
        uint64_t expected = array ? magicArray : magicScalar;
        if (h->magic != expected)
        {
            if (h->magic == magicDead)
                mc::fail("memory freed twice");
            mc::fail("memory freed with the wrong form of delete, or not an allocated block, or its header was overwritten");
        }
        uint64_t tail;
        memcpy(&tail, p + sizeof(Header) + h->size, 8);
        if (tail != (0x5AFE5AFE5AFE5AFEull ^ h->size))
            mc::fail("write past the end of a heap block of %llu bytes", static_cast<unsigned long long>(h->size));
        if (mc::onFree)
            mc::onFree(ptr, h->size);
        h->magic = magicDead;
        liveBytes -= h->size;
        memset(p + sizeof(Header), 0xDD, h->size < 256 ? h->size : 256);
        free(p);
#endif
    }

    // ---------------------------------------------------------------- trace
    FILE* traceFile = nullptr;

    void runOnce(mc::Scenario const& s)
    {
        pos = 0;
        me->seq.len = prefixLen;
        mc::failAllocation(-1);
        s.fn();
        mc::failAllocation(-1);
        if (pos < prefixLen)
        {
            snprintf(me->message, sizeof(me->message), "divergence while replaying a prefix: the execution ended after %u of %u choices", pos, prefixLen);
            me->failed = 1;
            fflush(nullptr);
            _exit(exitDivergence);
        }
    }

    // One execution of the current choice sequence, with the allocation balance check
    void execute(mc::Scenario const& s)
    {
        me->started.store(nowMs(), std::memory_order_relaxed);
        if (s.isolated)
        {
            pid_t pid = fork();
            if (pid == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                runOnce(s);
                _exit(0);
            }
            int status = 0;
            while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
            {
            }
            if (WIFSIGNALED(status))
            {
                signal(WTERMSIG(status), SIG_DFL);
                kill(getpid(), WTERMSIG(status));
                _exit(1);
            }
            if (WEXITSTATUS(status) != 0)
                _exit(WEXITSTATUS(status));
            me->executions++;
            me->choices += me->seq.len - (prefixLen < me->seq.len ? prefixLen : me->seq.len);
            if (me->seq.len > me->maxLen)
                me->maxLen = me->seq.len;
            me->started.store(0, std::memory_order_relaxed);
            return;
        }
        mc::leakCheck = true;
        long before = live;
        runOnce(s);
        if (mc::leakCheck && live != before)
        {
            // allow one-time initialisations: repeat the same execution
            uint32_t saved = prefixLen;
            prefixLen = me->seq.len;
            uint64_t t = me->transitions, v = me->validated;
            before = live;
            runOnce(s);
            me->transitions = t;
            me->validated = v;
            prefixLen = saved;
            if (live != before)
                mc::fail("memory leak: %ld allocation(s) made during this execution were never freed", live - before);
        }
        me->executions++;
        me->choices += me->seq.len - (prefixLen < me->seq.len ? prefixLen : me->seq.len);
        if (me->seq.len > me->maxLen)
            me->maxLen = me->seq.len;
        me->started.store(0, std::memory_order_relaxed);
    }

    void pushHistory()
    {
        uint32_t need = me->seq.len + 1;
        uint32_t cap = historyBytes / 2;
        if (need > cap)
            return;
        while (me->histLen + need > cap)
        {
            // drop the oldest half: records are [len, choices...]
            uint32_t i = 0;
            while (i < me->histLen / 2)
                i += me->hist[i] + 1u;
            if (i == 0 || i >= me->histLen)
            {
                me->histLen = 0;
                break;
            }
            memmove(me->hist, me->hist + i, (me->histLen - i) * sizeof(uint16_t));
            me->histLen -= i;
        }
        me->hist[me->histLen++] = static_cast<uint16_t>(me->seq.len);
        memcpy(me->hist + me->histLen, me->seq.c, me->seq.len * sizeof(uint16_t));
        me->histLen += me->seq.len;
    }

    void donate()
    {
        uint32_t i = me->base;
        while (i < me->seq.len && me->seq.c[i] + 1 >= me->hi[i])
            i++;
        if (i >= me->seq.len || i + 1 > maxPrefix)
            return;
        lockQueue();
        if (sh->queueLen < queueCapacity)
        {
            Unit& u = sh->queue[sh->queueLen++];
            uint16_t mid = static_cast<uint16_t>(me->seq.c[i] + 1 + (me->hi[i] - me->seq.c[i] - 1) / 2);
            u.len = i + 1;
            memcpy(u.c, me->seq.c, (i + 1) * sizeof(uint16_t));
            u.c[i] = mid;
            u.hiLast = me->hi[i];
            me->hi[i] = mid;
            if (mid <= me->seq.c[i])
                abort();
        }
        unlockQueue();
    }

    void worker(mc::Scenario const& s)
    {
        bool idle = false;
        for (;;)
        {
            if (sh->stop.load(std::memory_order_relaxed))
                return;
            bool got = false;
            lockQueue();
            if (sh->queueLen > 0)
            {
                if (idle)
                {
                    idle = false;
                    sh->idle.fetch_sub(1);
                }
                Unit const& u = sh->queue[--sh->queueLen];
                memcpy(me->seq.c, u.c, u.len * sizeof(uint16_t));
                prefixLen = u.len;
                me->base = u.len > 0 ? u.len - 1 : 0;
                for (uint32_t i = 0; i < u.len; i++)
                    me->hi[i] = static_cast<uint16_t>(u.c[i] + 1);
                if (u.len > 0)
                    me->hi[u.len - 1] = u.hiLast;
                got = true;
            }
            else if (!idle)
            {
                idle = true;
                sh->idle.fetch_add(1);
            }
            unlockQueue();
            if (!got)
            {
                if (sh->idle.load() == workerCount)
                    return;
                usleep(100);
                continue;
            }
            for (;;)
            {
                execute(s);
                if (me->executions == 1 || me->executions == 100 || me->executions == 5000)
                    if (me->sampleCount < samplesPerWorker)
                        me->samples[me->sampleCount++] = me->seq;
                pushHistory();
                if (sh->stop.load(std::memory_order_relaxed))
                    return;
                if (sh->idle.load(std::memory_order_relaxed) > 0 && sh->queueLen == 0)
                    donate();
                // next sequence
                uint32_t i = me->seq.len;
                while (i > me->base && me->seq.c[i - 1] + 1 >= me->hi[i - 1])
                    i--;
                if (i <= me->base)
                    break;
                me->seq.c[i - 1]++;
                prefixLen = i;
            }
        }
    }

    void resetSlot(Slot& s)
    {
        s.seq.len = 0;
        s.base = 0;
        s.started = 0;
        s.executions = s.transitions = s.validated = s.choices = 0;
        s.maxLen = 0;
        s.failed = 0;
        s.message[0] = 0;
        s.histLen = 0;
        s.sampleCount = 0;
    }

    std::string readFile(std::string const& path, size_t limit)
    {
        std::string r;
        FILE* f = fopen(path.c_str(), "rb");
        if (!f)
            return r;
        char buf[4096];
        size_t n;
        while (r.size() < limit && (n = fread(buf, 1, sizeof(buf), f)) > 0)
            r.append(buf, n);
        fclose(f);
        if (r.size() > limit)
            r.resize(limit);
        return r;
    }

    std::string jsonStr(std::string const& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            char b[8];
            if (c == '"' || c == '\\')
            {
                r += '\\';
                r += static_cast<char>(c);
            }
            else if (c < 0x20 || c >= 0x7f)
            {
                snprintf(b, sizeof(b), "\\u%04x", c);
                r += b;
            }
            else
                r += static_cast<char>(c);
        }
        return r + "\"";
    }

    struct ReplayResult
    {
        bool failed = false; // a violation or a crash
        bool hung = false;
        bool killed = false; // SIGKILL from outside (memory)
        std::string how;
        std::string trace;
    };

    // Runs the given sequences one after another in a fresh process, tracing the last one
    ReplayResult replay(mc::Scenario const& s, std::vector<std::vector<uint16_t>> const& seqs, std::string const& scratch, int limitSeconds)
    {
        ReplayResult r;
        std::string out = scratch + ".out";
        Slot& slot = sh->slots[maxWorkers - 1];
        resetSlot(slot);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 1);
            dup2(fd, 2);
            me = &slot;
            for (size_t i = 0; i < seqs.size(); i++)
            {
                bool last = i + 1 == seqs.size();
                memcpy(me->seq.c, seqs[i].data(), seqs[i].size() * sizeof(uint16_t));
                prefixLen = static_cast<uint32_t>(seqs[i].size());
                if (last)
                {
                    traceFile = fdopen(fd, "w");
                    setvbuf(traceFile, nullptr, _IONBF, 0);
                    mc::tracing = true;
                }
                execute(s);
            }
            _exit(0);
        }
        uint64_t start = nowMs();
        int status = 0;
        for (;;)
        {
            pid_t p = waitpid(pid, &status, WNOHANG);
            if (p == pid)
                break;
            if (nowMs() - start > uint64_t(limitSeconds) * 1000)
            {
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                r.hung = true;
                r.failed = true;
                r.how = "no termination within " + std::to_string(limitSeconds) + " s";
                break;
            }
            usleep(500);
        }
        r.trace = readFile(out, 1 << 16);
        unlink(out.c_str());
        if (!r.hung)
        {
            if (WIFSIGNALED(status))
            {
                if (WTERMSIG(status) == SIGKILL)
                    r.killed = true;
                else
                    r.failed = true;
                r.how = std::string("killed by signal ") + strsignal(WTERMSIG(status));
            }
            else if (WEXITSTATUS(status) != 0)
            {
                r.failed = true;
                if (slot.failed)
                    r.how = slot.message;
                else
                    r.how = "process ended with status " + std::to_string(WEXITSTATUS(status)) + " (sanitizer report or unexpected exit)";
            }
        }
        return r;
    }

    std::string seqToText(std::vector<uint16_t> const& v)
    {
        std::string r;
        for (uint16_t c : v)
            r += std::to_string(c) + " ";
        return r;
    }

    struct Totals
    {
        uint64_t executions = 0, transitions = 0, validated = 0, choices = 0;
        uint32_t maxLen = 0;
        bool capped = false;
    };
}

namespace mc
{
    bool tracing = false;
    bool leakCheck = true;
    int hangSeconds = 30;
    void (*onAllocate)(void*, size_t) = nullptr;
    void (*onFree)(void*, size_t) = nullptr;

    bool thorough()
    {
        return isThorough;
    }
    bool asan()
    {
        return MC_SAN;
    }

    int choose(int n)
    {
        if (n <= 1)
        {
            if (n < 1)
                fail("internal: choose(%d)", n);
            return 0;
        }
        NoFault nf;
        if (pos >= maxChoices)
            fail("internal: too many choices in one execution");
        uint16_t v = 0;
        if (pos < prefixLen)
        {
            v = me->seq.c[pos];
            if (v >= n)
            {
                snprintf(me->message, sizeof(me->message), "divergence while replaying a prefix: choice %u is %u of %d", pos, v, n);
                me->failed = 1;
                fflush(nullptr);
                _exit(exitDivergence);
            }
        }
        else
        {
            me->seq.c[pos] = 0;
            me->hi[pos] = static_cast<uint16_t>(n);
            me->seq.len = pos + 1;
        }
        me->seq.n[pos] = static_cast<uint16_t>(n);
        pos++;
        return v;
    }

    void fail(char const* fmt, ...)
    {
        faultSuspended++;
        char buf[8192];
        va_list args;
        va_start(args, fmt);
        vsnprintf(buf, sizeof(buf), fmt, args);
        va_end(args);
        if (me)
        {
            memcpy(me->message, buf, sizeof(buf));
            me->failed = 1;
        }
        if (tracing && traceFile)
            fprintf(traceFile, "VIOLATED: %s\n", buf);
        else if (!me)
            fprintf(stderr, "%s\n", buf);
        _exit(exitViolation);
    }

    void logf(char const* fmt, ...)
    {
        if (!traceFile)
            return;
        NoFault nf;
        va_list args;
        va_start(args, fmt);
        vfprintf(traceFile, fmt, args);
        va_end(args);
        fputc('\n', traceFile);
    }

    void state(uint64_t h)
    {
        tableInsert(states, 0, h);
    }
    void outcome(uint64_t h)
    {
        tableInsert(outcomes, 1, h);
    }
    void digest(std::string const& value)
    {
        NoFault nf;
        if (tracing)
            logf("observed: %s", value.c_str());
        std::string key = scenarioName;
        key += ":";
        for (uint32_t i = 0; i < pos; i++)
            key += " " + std::to_string(me->seq.c[i]);
        uint64_t k = hashStr(key), h = mix(k, hashStr(value));
        if (!tableInsert(digests, 3, h))
            return;
        if (dumpBucket < 0)
        {
            digestSums[k % digestBuckets].fetch_add(h, std::memory_order_relaxed);
            return;
        }
        if (long(k % digestBuckets) != dumpBucket)
            return;
        std::string line = key + "\t" + show(value) + "\n";
        int fd = open(dumpFile, O_CREAT | O_APPEND | O_WRONLY, 0600);
        if (fd < 0 || write(fd, line.data(), line.size()) != ssize_t(line.size()))
            fail("internal: cannot write %s", dumpFile);
        close(fd);
    }
    void transition(uint64_t n)
    {
        me->transitions += n;
    }
    void validated(uint64_t n)
    {
        me->validated += n;
    }

    bool probe(void (*fn)(), std::string* how)
    {
        fflush(nullptr);
        me->failed = 0;
        me->message[0] = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            fn();
            _exit(0);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
        {
        }
        bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
        if (!ok && how)
        {
            NoFault nf;
            *how = me->failed ? me->message : WIFSIGNALED(status) ? std::string("killed by signal ") + strsignal(WTERMSIG(status)) : "process ended with status " + std::to_string(WEXITSTATUS(status));
        }
        me->failed = 0;
        return ok;
    }

    void knownFinding(char const* key)
    {
        lockQueue();
        bool seen = false;
        for (int i = 0; i < sh->knownCount; i++)
            seen = seen || strcmp(sh->known[i], key) == 0;
        if (!seen && sh->knownCount < 16)
            snprintf(sh->known[sh->knownCount++], sizeof sh->known[0], "%s", key);
        unlockQueue();
    }

    long liveAllocations()
    {
        return live;
    }
    void failAllocation(long index)
    {
        failAllocation2(index, -1);
    }
    void failAllocation2(long index1, long index2)
    {
        allocs = 0;
        failAt1 = index1;
        failAt2 = index2;
        failBudget = 0;
        failFired = false;
    }
    void failAnywhere(int count)
    {
        allocs = 0;
        failAt1 = failAt2 = -1;
        failBudget = count;
        failFired = false;
    }
    bool allocationFailed()
    {
        return failFired;
    }
    long allocationCount()
    {
        return allocs;
    }
    NoFault::NoFault()
    {
        faultSuspended++;
    }
    NoFault::~NoFault()
    {
        faultSuspended--;
    }

    std::string show(std::string const& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            char b[8];
            if (c == '"' || c == '\\')
            {
                r += '\\';
                r += static_cast<char>(c);
            }
            else if (c < 0x20 || c >= 0x7f)
            {
                snprintf(b, sizeof(b), "\\x%02x", c);
                r += b;
            }
            else
                r += static_cast<char>(c);
        }
        return r + "\"";
    }

    int main(int argc, char** argv, Scenario const* scenarios, size_t count)
    {
        std::string only, outPath, replayDir = ".", label = "run", replaySeq;
        double budget = 600;
        bool doReplay = false;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--scenario")
                only = next();
            else if (a == "--out")
                outPath = next();
            else if (a == "--replay-dir")
                replayDir = next();
            else if (a == "--label")
                label = next();
            else if (a == "--workers")
                workerCount = atoi(next().c_str());
            else if (a == "--budget")
                budget = atof(next().c_str());
            else if (a == "--thorough")
                isThorough = true;
            else if (a == "--replay")
            {
                doReplay = true;
                replaySeq = next();
            }
            else if (a == "--list")
            {
                for (size_t k = 0; k < count; k++)
                    printf("%s\n", scenarios[k].name);
                return 0;
            }
        }
        if (workerCount > maxWorkers - 1)
            workerCount = maxWorkers - 1;

        sh = static_cast<Shared*>(shareMap(sizeof(Shared)));
        tableCounters = static_cast<std::atomic<uint64_t>*>(shareMap(4096));
        tableInit(states, isThorough ? 28 : 26);
        tableInit(outcomes, isThorough ? 27 : 25);
        tableInit(digests, isThorough ? 27 : 25);
        digestSums = static_cast<std::atomic<uint64_t>*>(shareMap(digestBuckets * sizeof(uint64_t)));
        if ((dumpFile = getenv("MC_DUMP_FILE")))
            dumpBucket = atol(getenv("MC_DUMP_BUCKET"));

        std::string scratch = replayDir + "/" + label + "." + std::to_string(getpid());

        if (doReplay)
        {
            // --replay "scenario: c c c | c c c": sequences separated by |
            size_t colon = replaySeq.find(':');
            std::string name = replaySeq.substr(0, colon);
            std::vector<std::vector<uint16_t>> seqs(1);
            char const* p = replaySeq.c_str() + colon + 1;
            while (*p)
            {
                if (*p == '|')
                {
                    seqs.emplace_back();
                    p++;
                }
                else if (*p >= '0' && *p <= '9')
                {
                    char* e;
                    seqs.back().push_back(static_cast<uint16_t>(strtoul(p, &e, 10)));
                    p = e;
                }
                else
                    p++;
            }
            for (size_t k = 0; k < count; k++)
                if (name == scenarios[k].name)
                {
                    scenarioName = scenarios[k].name;
                    ReplayResult r = replay(scenarios[k], seqs, scratch, 120);
                    printf("%s\n%s\n", r.trace.c_str(), r.failed ? ("FAILED: " + r.how).c_str() : "PASSED");
                    return r.failed ? 1 : 0;
                }
            fprintf(stderr, "no scenario %s\n", name.c_str());
            return 2;
        }

        uint64_t start = nowMs();
        Totals total;
        std::string perScenario, samples;
        std::string violationFile, violationText;
        int sampleBudget = 6;
        bool internalError = false;

        for (size_t k = 0; k < count; k++)
        {
            Scenario const& s = scenarios[k];
            scenarioName = s.name;
            if (!only.empty() && only != s.name)
                continue;
            if (!(s.tiers & (isThorough ? 2 : 1)))
                continue;
            if (!(s.kinds & (MC_SAN ? 1 : 2)))
                continue;
            uint64_t t0 = nowMs();
            uint64_t states0 = tableCounters[0], outcomes0 = tableCounters[1];
            sh->idle = 0;
            sh->stop = 0;
            sh->lock = 0;
            sh->queueLen = 1;
            sh->queue[0].len = 0;
            std::vector<pid_t> pids;
            fflush(nullptr);
            for (int w = 0; w < workerCount; w++)
                resetSlot(sh->slots[w]);
            for (int w = 0; w < workerCount; w++)
            {
                pid_t pid = fork();
                if (pid == 0)
                {
                    std::string log = scratch + ".w" + std::to_string(w);
                    int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                    dup2(fd, 1);
                    dup2(fd, 2);
                    me = &sh->slots[w];
                    worker(s);
                    _exit(0);
                }
                pids.push_back(pid);
            }
            int alive = workerCount;
            int bad = -1;
            bool hang = false, capped = false;
            int badStatus = 0;
            while (alive > 0)
            {
                bool progress = false;
                for (int w = 0; w < workerCount; w++)
                {
                    if (pids[w] <= 0)
                        continue;
                    int status;
                    pid_t p = waitpid(pids[w], &status, WNOHANG);
                    if (p == pids[w])
                    {
                        progress = true;
                        pids[w] = 0;
                        alive--;
                        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0) && bad < 0)
                        {
                            bad = w;
                            badStatus = status;
                        }
                        continue;
                    }
                    uint64_t st = sh->slots[w].started.load(std::memory_order_relaxed);
                    if (st && nowMs() > st && nowMs() - st > uint64_t(hangSeconds) * 1000 && bad < 0)
                    {
                        bad = w;
                        hang = true;
                    }
                }
                if (bad >= 0)
                {
                    for (int w = 0; w < workerCount; w++)
                        if (pids[w] > 0)
                        {
                            kill(pids[w], SIGKILL);
                            waitpid(pids[w], nullptr, 0);
                            pids[w] = 0;
                        }
                    alive = 0;
                    break;
                }
                if (!capped && double(nowMs() - start) / 1000 > budget)
                {
                    capped = true;
                    sh->stop = 1;
                }
                if (!progress)
                    usleep(1000);
            }
            Totals t;
            for (int w = 0; w < workerCount; w++)
            {
                Slot& sl = sh->slots[w];
                t.executions += sl.executions;
                t.transitions += sl.transitions;
                t.validated += sl.validated;
                t.choices += sl.choices;
                if (sl.maxLen > t.maxLen)
                    t.maxLen = sl.maxLen;
            }
            if (bad >= 0)
            {
                Slot& sl = sh->slots[bad];
                std::vector<uint16_t> seq(sl.seq.c, sl.seq.c + (sl.seq.len > maxChoices ? 0 : sl.seq.len));
                std::vector<std::vector<uint16_t>> hist;
                for (uint32_t i = 0; i < sl.histLen; i += sl.hist[i] + 1u)
                    hist.emplace_back(sl.hist + i + 1, sl.hist + i + 1 + sl.hist[i]);
                std::string how = sl.failed ? sl.message
                    : hang                  ? "no termination"
                    : WIFSIGNALED(badStatus) ? std::string("killed by signal ") + strsignal(WTERMSIG(badStatus))
                                             : "process ended with status " + std::to_string(WEXITSTATUS(badStatus));
                std::string workerLog = readFile(scratch + ".w" + std::to_string(bad), 1 << 15);
                bool sigkill = !hang && !sl.failed && WIFSIGNALED(badStatus) && WTERMSIG(badStatus) == SIGKILL;

                ReplayResult r;
                std::vector<std::vector<uint16_t>> used;
                size_t tries[] = {0, 1, 2, 8, 64, 1024, 1u << 20};
                for (size_t back : tries)
                {
                    used.clear();
                    size_t b = back < hist.size() ? back : hist.size();
                    for (size_t i = hist.size() - b; i < hist.size(); i++)
                        used.push_back(hist[i]);
                    used.push_back(seq);
                    r = replay(s, used, scratch, hang ? 2 * hangSeconds : 120);
                    if (r.failed || back >= hist.size())
                        break;
                }
                if (!r.failed && (sigkill || hang || r.killed))
                {
                    // ended from outside (memory) or merely slow: not a verdict about the code
                    fprintf(stderr, "scenario %s: a worker was lost (%s) and the execution is fine when repeated\n", s.name, how.c_str());
                    internalError = true;
                    break;
                }
                // A divergence means the code behaves differently for the same inputs
                violationFile = replayDir + "/" + label + "." + s.name + ".replay";
                violationText = r.failed ? r.how : how + " (depends on earlier executions in the same process)";
                FILE* f = fopen(violationFile.c_str(), "w");
                if (f)
                {
                    fprintf(f, "label: %s\nscenario: %s\n", label.c_str(), s.name);
                    fprintf(f, "violation: %s\n", violationText.c_str());
                    fprintf(f, "reproduced on replay: %s (after %zu earlier executions)\n", r.failed ? "yes" : "no", used.size() - 1);
                    fprintf(f, "choices: %s:", s.name);
                    for (size_t i = 0; i < used.size() && used.size() < 5000; i++)
                        fprintf(f, "%s%s", i ? "| " : " ", seqToText(used[i]).c_str());
                    fprintf(f, "\n\ntrace:\n%s\n", r.trace.c_str());
                    if (!r.failed)
                        fprintf(f, "\noutput of the failing worker:\n%s\n", workerLog.c_str());
                    fclose(f);
                }
            }
            for (int w = 0; w < workerCount; w++)
                unlink((scratch + ".w" + std::to_string(w)).c_str());

            total.executions += t.executions;
            total.transitions += t.transitions;
            total.validated += t.validated;
            total.choices += t.choices;
            if (t.maxLen > total.maxLen)
                total.maxLen = t.maxLen;
            total.capped = total.capped || capped;

            if (!perScenario.empty())
                perScenario += ",\n";
            char buf[512];
            snprintf(buf, sizeof(buf), "{\"scenario\": \"%s\", \"executions\": %llu, \"transitions\": %llu, \"extra_comparisons\": %llu, \"new_states\": %llu, \"new_outcomes\": %llu, \"max_choices\": %u, \"complete\": %s, \"wall_s\": %.2f}",
                     s.name, (unsigned long long)t.executions, (unsigned long long)t.transitions, (unsigned long long)t.validated,
                     (unsigned long long)(tableCounters[0] - states0), (unsigned long long)(tableCounters[1] - outcomes0), t.maxLen,
                     capped || bad >= 0 ? "false" : "true", double(nowMs() - t0) / 1000);
            perScenario += buf;
            if (bad >= 0 || internalError)
                break;

            // samples: replay the deepest recorded execution with its trace written out
            if (sampleBudget > 0)
            {
                Sequence* best = nullptr;
                for (int w = 0; w < workerCount; w++)
                    for (uint32_t i = 0; i < sh->slots[w].sampleCount; i++)
                        if (!best || sh->slots[w].samples[i].len > best->len)
                            best = &sh->slots[w].samples[i];
                if (best)
                {
                    std::vector<uint16_t> seq(best->c, best->c + best->len);
                    ReplayResult r = replay(s, {seq}, scratch, 120);
                    if (r.trace.size() > 1500)
                        r.trace = r.trace.substr(0, 1500) + "...";
                    if (!samples.empty())
                        samples += ",\n";
                    samples += "{\"scenario\": \"" + std::string(s.name) + "\", \"choices\": " + jsonStr(seqToText(seq).substr(0, 400)) + ", \"trace\": " + jsonStr(r.trace) + "}";
                    sampleBudget--;
                }
            }
            if (capped)
                break;
        }

        std::string known;
        for (int i = 0; i < sh->knownCount; i++)
            known += (i ? ", " : "") + jsonStr(sh->known[i]);
        if (tableCounters[3])
        {
            known += "], \"digests\": [";
            for (uint64_t i = 0; i < digestBuckets; i++)
                known += (i ? "," : "") + std::to_string(digestSums[i].load());
        }
        std::string json = "{\"label\": " + jsonStr(label) + ", \"executions\": " + std::to_string(total.executions) +
            ", \"transitions\": " + std::to_string(total.transitions) + ", \"extra_comparisons\": " + std::to_string(total.validated) +
            ", \"states\": " + std::to_string(tableCounters[0]) + ", \"outcomes\": " + std::to_string(tableCounters[1]) +
            ", \"table_overflow\": " + std::to_string(tableCounters[2]) + ", \"max_choices\": " + std::to_string(total.maxLen) +
            ", \"complete\": " + (total.capped || !violationFile.empty() || internalError ? "false" : "true") +
            ", \"violation\": " + (violationFile.empty() ? "null" : jsonStr(violationText)) + ", \"replay\": " + (violationFile.empty() ? "null" : jsonStr(violationFile)) +
            ", \"known\": [" + known + "]" +
            ", \"wall_s\": " + std::to_string(double(nowMs() - start) / 1000) + ",\n\"scenarios\": [" + perScenario + "],\n\"samples\": [" + samples + "]}\n";
        if (!outPath.empty())
        {
            FILE* f = fopen(outPath.c_str(), "w");
            if (f)
            {
                fputs(json.c_str(), f);
                fclose(f);
            }
        }
        else
            printf("%s", json.c_str());
        if (!violationFile.empty())
            return 1;
        return internalError ? 2 : 0;
    }
}

void* operator new(size_t size)
{
    return allocate(size, false);
}
void* operator new[](size_t size)
{
    return allocate(size, true);
}
void* operator new(size_t size, std::nothrow_t const&) noexcept
{
    try
    {
        return allocate(size, false);
    }
    catch (...)
    {
        return nullptr;
    }
}
void* operator new[](size_t size, std::nothrow_t const&) noexcept
{
    try
    {
        return allocate(size, true);
    }
    catch (...)
    {
        return nullptr;
    }
}
void operator delete(void* p) noexcept
{
    deallocate(p, false);
}
void operator delete[](void* p) noexcept
{
    deallocate(p, true);
}
void operator delete(void* p, size_t) noexcept
{
    deallocate(p, false);
}
void operator delete[](void* p, size_t) noexcept
{
    deallocate(p, true);
}
void operator delete(void* p, std::nothrow_t const&) noexcept
{
    deallocate(p, false);
}
void operator delete[](void* p, std::nothrow_t const&) noexcept
{
    deallocate(p, true);
}
