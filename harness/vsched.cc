// Scheduler of threads, see vsched.h.  Defines the thread functions of libc and the callbacks of -fsanitize=thread instrumentation.
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unordered_map>
#include <vector>
#include "vsched.h"

namespace vs {
    void (*on_stuck)() = nullptr;
    namespace {
        long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
            long ret;
            register long r10 asm("r10") = d;
            register long r8 asm("r8") = e;
            register long r9 asm("r9") = f;
            asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
            return ret;
        }
        enum State { READY, BLOCKED, DONE };
        enum Why { NONE, MUTEX, RDLOCK, WRLOCK, COND, FUTEX, JOIN, ONCE };
        struct Thread {
            int go = 0;
            State state = READY;
            Why why = NONE;
            const void* on = nullptr;
            void* (*fn)(void*) = nullptr;
            void* arg = nullptr;
            pthread_t handle{};
            bool detached = false;
        };
        struct Lock { Thread* owner = nullptr; int depth = 0, readers = 0; };

        thread_local Thread* me __attribute__((tls_model("initial-exec"))) = nullptr;
        thread_local bool gone __attribute__((tls_model("initial-exec"))) = false;
        std::vector<Thread*>& live() { static auto* v = new std::vector<Thread*>; return *v; }
        std::unordered_map<const void*, Lock>& locks() { static auto* m = new std::unordered_map<const void*, Lock>; return *m; }
        std::unordered_map<const void*, int>& onces() { static auto* m = new std::unordered_map<const void*, int>; return *m; }
        uint64_t rnd = 0x2545F4914F6CDD1Dull;
        uint64_t gap = 997, countdown = 997;
        int ready_count = 1;
        bool exploring = false;
        int bound = 0, used = 0;
        size_t place = 0;
        std::vector<std::pair<int, int>> choices;

        uint64_t next() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd * 0x2545F4914F6CDD1Dull >> 20; }
        Thread* self() {
            if (!me && !gone) {
                me = new Thread;
                live().push_back(me);
                if (const char* s = std::getenv("VSCHED")) random_schedule(std::strtoull(s, nullptr, 10));
            }
            return me;
        }
        void post(Thread* t) { __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST); raw_syscall(SYS_futex, reinterpret_cast<long>(&t->go), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
        void wait(Thread* t) {
            while (!__atomic_exchange_n(&t->go, 0, __ATOMIC_SEQ_CST)) raw_syscall(SYS_futex, reinterpret_cast<long>(&t->go), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
        }
        void hand(Thread* t) { if (t != me) { Thread* m = me; post(t); wait(m); } }
        int choose(int n) {
            if (n == 1) return 0;
            if (!exploring) return static_cast<int>(next() % static_cast<uint64_t>(n));
            if (place == choices.size()) choices.emplace_back(0, n);
            if (choices[place].second != n) { std::fputs("vsched: run cannot be repeated\n", stderr); std::abort(); }
            return choices[place++].first;
        }
        // ready threads, the present one first
        std::vector<Thread*> ready() {
            std::vector<Thread*> r;
            if (me && me->state == READY) r.push_back(me);
            for (auto* t : live()) if (t != me && t->state == READY) r.push_back(t);
            return r;
        }
        [[noreturn]] void stuck() {
            gone = true;
            if (on_stuck) on_stuck();
            std::fputs("vsched: no thread can go on\n", stderr);
            std::abort();
        }
        void wake(Thread* t) { t->state = READY; t->why = NONE; t->on = nullptr; ++ready_count; }
        void wake_all(Why w, const void* on) { for (auto* t : live()) if (t->state == BLOCKED && t->why == w && t->on == on) wake(t); }
        void wake_lock(const void* on) { for (auto* t : live()) if (t->state == BLOCKED && t->on == on && (t->why == MUTEX || t->why == RDLOCK || t->why == WRLOCK)) wake(t); }
        int wake_some(Why w, const void* on, int n) {
            int woken = 0;
            for (; woken < n; ++woken) {
                std::vector<Thread*> c;
                for (auto* t : live()) if (t->state == BLOCKED && t->why == w && t->on == on) c.push_back(t);
                if (c.empty()) break;
                wake(c[static_cast<size_t>(choose(static_cast<int>(c.size())))]);
            }
            return woken;
        }
        void point() {
            if (ready_count <= 1 || gone || !self() || me->state != READY) return;
            auto r = ready();
            if (r.size() < 2) return;
            if (exploring) {
                if (used >= bound) return;
                const int c = choose(static_cast<int>(r.size()));
                if (c) { ++used; hand(r[static_cast<size_t>(c)]); }
                return;
            }
            if (next() & 1) hand(r[next() % r.size()]);
        }
        void yield() {        // let another go on
            if (ready_count <= 1 || gone || !self()) return;
            auto r = ready();
            if (r.size() < 2) return;
            hand(r[1 + static_cast<size_t>(choose(static_cast<int>(r.size()) - 1))]);
        }
        void block(Why w, const void* on) {
            me->state = BLOCKED;
            me->why = w;
            me->on = on;
            --ready_count;
            auto r = ready();
            if (r.empty()) stuck();
            Thread* t = r[static_cast<size_t>(choose(static_cast<int>(r.size())))];
            Thread* m = me;
            post(t);
            wait(m);
        }
        inline void touch() {       // a memory access
            if (ready_count <= 1) return;
            if (--countdown) return;
            countdown = 1 + next() % (2 * gap);
            if (!exploring && !gone && me && me->state == READY) { auto r = ready(); hand(r[next() % r.size()]); }
        }
        inline void atomic_point() {
            if (ready_count <= 1) return;
            if (exploring || !(next() & 1)) point();
        }
        template<typename F> F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

        void* start(void* p) {
            me = static_cast<Thread*>(p);
            wait(me);
            void* out = me->fn(me->arg);
            Thread* t = me;
            t->state = DONE;
            --ready_count;
            for (size_t k = 0; k < live().size(); ++k) if (live()[k] == t) { live().erase(live().begin() + static_cast<long>(k)); break; }
            wake_all(JOIN, t);
            auto r = ready();
            if (r.empty()) stuck();
            Thread* n = r[static_cast<size_t>(choose(static_cast<int>(r.size())))];
            me = nullptr;
            gone = true;
            post(n);
            return out;
        }
        void release(Lock& l, const void* on) { l.owner = nullptr; l.depth = 0; locks().erase(on); wake_lock(on); }
        int take(pthread_mutex_t* m, bool patient) {
            if (gone || !self()) return 0;
            point();
            for (;;) {
                Lock& l = locks()[m];
                if (!l.owner) { l.owner = me; l.depth = 1; return 0; }
                if (l.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++l.depth; return 0; }
                if (!patient) return EBUSY;
                block(MUTEX, m);
            }
        }
        int give(pthread_mutex_t* m) {
            if (gone || !self()) return 0;
            auto it = locks().find(m);
            if (it == locks().end()) return EPERM;
            if (--it->second.depth == 0) release(it->second, m);
            point();
            return 0;
        }
        int take_shared(pthread_rwlock_t* m, bool writing, bool patient) {
            if (gone || !self()) return 0;
            point();
            for (;;) {
                Lock& l = locks()[m];
                if (writing ? (!l.owner && !l.readers) : !l.owner) { if (writing) l.owner = me; else ++l.readers; return 0; }
                if (!patient) return EBUSY;
                block(writing ? WRLOCK : RDLOCK, m);
            }
        }
    }

    void random_schedule(uint64_t seed) {
        exploring = false;
        rnd = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
        if (!rnd) rnd = 1;
        next();
        static const uint64_t gaps[] = {20, 100, 500, 2500, 20000};
        gap = gaps[next() % 5];
        countdown = 1 + next() % gap;
    }
    void explore_begin(int b) { self(); exploring = true; bound = b; used = 0; place = 0; choices.clear(); }
    bool explore_again() {
        while (!choices.empty() && choices.back().first + 1 == choices.back().second) choices.pop_back();
        place = 0;
        used = 0;
        if (choices.empty()) return false;
        ++choices.back().first;
        return true;
    }
    void explore_end() { exploring = false; }
}
using namespace vs;

extern "C" {
    int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
        static auto create = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
        self();
        auto* t = new Thread;
        t->fn = fn;
        t->arg = arg;
        const int rc = create(&t->handle, attr, start, t);
        if (rc) { delete t; return rc; }
        *out = t->handle;
        live().push_back(t);
        ++ready_count;
        locks()[reinterpret_cast<const void*>(t->handle)].owner = t;      // thread of a handle
        point();
        return 0;
    }
    int pthread_join(pthread_t h, void** out) {
        static auto join = real<int (*)(pthread_t, void**)>("pthread_join");
        if (!gone && self()) {
            point();
            auto it = locks().find(reinterpret_cast<const void*>(h));
            if (it != locks().end()) {
                Thread* t = it->second.owner;
                while (t->state != DONE) block(JOIN, t);
                locks().erase(reinterpret_cast<const void*>(h));
                const int rc = join(h, out);
                delete t;
                return rc;
            }
        }
        return join(h, out);
    }
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return take(m, true); }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return take(m, false); }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return give(m); }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return take_shared(m, false, true); }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return take_shared(m, true, true); }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return take_shared(m, false, false); }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return take_shared(m, true, false); }
    int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
        if (gone || !self()) return 0;
        auto it = locks().find(m);
        if (it == locks().end()) return EPERM;
        Lock& l = it->second;
        if (l.owner) release(l, m);
        else if (--l.readers <= 0) release(l, m);
        point();
        return 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
        if (gone || !self()) return 0;
        point();
        auto it = locks().find(m);
        if (it != locks().end()) release(it->second, m);
        block(COND, c);
        for (;;) {
            Lock& l = locks()[m];
            if (!l.owner) { l.owner = me; l.depth = 1; return 0; }
            block(MUTEX, m);
        }
    }
    int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec*) { give(m); yield(); take(m, true); return ETIMEDOUT; }
    int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec*) { give(m); yield(); take(m, true); return ETIMEDOUT; }
    int pthread_cond_signal(pthread_cond_t* c) noexcept { if (gone || !self()) return 0; point(); wake_some(COND, c, 1); point(); return 0; }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (gone || !self()) return 0; point(); wake_all(COND, c); point(); return 0; }
    int pthread_once(pthread_once_t* o, void (*f)()) {
        if (gone || !self()) { f(); return 0; }
        point();
        for (;;) {
            if (*o == 2) return 0;      // done (as in glibc)
            int& s = onces()[o];
            if (s == 0) {
                s = 1;
                try { f(); } catch (...) { onces().erase(o); wake_all(ONCE, o); throw; }
                onces().erase(o);
                *o = 2;
                wake_all(ONCE, o);
                return 0;
            }
            block(ONCE, o);
        }
    }
    int sched_yield() noexcept { yield(); return 0; }
    int nanosleep(const struct timespec*, struct timespec*) { yield(); return 0; }
    int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { yield(); return 0; }
    int get_nprocs() noexcept { static const char* n = std::getenv("VSCHED_CPUS"); return n ? std::atoi(n) : 4; }
    long syscall(long n, ...) noexcept {
        va_list ap;
        va_start(ap, n);
        long a[6];
        for (long& x : a) x = va_arg(ap, long);
        va_end(ap);
        if (n == SYS_futex && !gone && self()) {
            const auto* addr = reinterpret_cast<const void*>(a[0]);
            const int op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                point();
                if (__atomic_load_n(static_cast<const int*>(addr), __ATOMIC_SEQ_CST) != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
                if (a[3]) { yield(); errno = ETIMEDOUT; return -1; }
                block(FUTEX, addr);
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
                point();
                const int woken = wake_some(FUTEX, addr, static_cast<int>(a[2]));
                point();
                return woken;
            }
        }
        const long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
        if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
        return r;
    }

    // ------------------------------------------------------------------ instrumentation
    void __tsan_init() { }
    void __tsan_func_entry(void*) { }
    void __tsan_func_exit() { }
    void __tsan_vptr_update(void**, void*) { touch(); }
    void __tsan_vptr_read(void**) { touch(); }
    void __tsan_read_range(void*, unsigned long) { touch(); }
    void __tsan_write_range(void*, unsigned long) { touch(); }
#define ACCESS(n) \
    void __tsan_read##n(void*) { touch(); } \
    void __tsan_write##n(void*) { touch(); } \
    void __tsan_unaligned_read##n(void*) { touch(); } \
    void __tsan_unaligned_write##n(void*) { touch(); } \
    void __tsan_volatile_read##n(void*) { touch(); } \
    void __tsan_volatile_write##n(void*) { touch(); } \
    void __tsan_read##n##_pc(void*, void*) { touch(); } \
    void __tsan_write##n##_pc(void*, void*) { touch(); }
    ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
#define ATOMIC(bits, type) \
    type __tsan_atomic##bits##_load(const volatile type* p, int) { atomic_point(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile type* p, type v, int) { atomic_point(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); atomic_point(); } \
    type __tsan_atomic##bits##_exchange(volatile type* p, type v, int) { atomic_point(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_add(volatile type* p, type v, int) { atomic_point(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_sub(volatile type* p, type v, int) { atomic_point(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_and(volatile type* p, type v, int) { atomic_point(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_or(volatile type* p, type v, int) { atomic_point(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_xor(volatile type* p, type v, int) { atomic_point(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_nand(volatile type* p, type v, int) { atomic_point(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int, int) { atomic_point(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int, int) { atomic_point(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type e, type v, int, int) { atomic_point(); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
    ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
    void __tsan_atomic_thread_fence(int) { atomic_point(); }
    void __tsan_atomic_signal_fence(int) { }
}
