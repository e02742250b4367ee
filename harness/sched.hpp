// A scheduler under our control: pthread operations of the program are interposed, one thread runs at a time, the
// next one is chosen from the seed at every lock, unlock, wait, notification, creation and join; sleeping takes virtual time.
// A run is therefore a function of (program, seed); "nobody can go on" is seen at once.
#pragma once
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace sched {
struct Th { int id; enum St { Run, Mutex, Cond, Sleep, Join, Done } st = Run; void* on = nullptr; std::int64_t until = -1; bool timed = false, fired = false; sem_t sem; pthread_t pt{}; int tag = 0, ctag = 0; };
struct Rw { int readers = 0; Th* writer = nullptr; };
struct S {
    std::vector<Th*> ths; std::map<void*, Th*> owner; std::map<void*, Rw> rw; std::uint64_t rnd; int stay = 50, drift = 0; std::int64_t now = 0; long steps = 0, maxSteps = 200000; std::int64_t maxTime = 0;
    std::function<void(const char*)> stuck; std::function<void(int, bool)> threads;
    std::uint64_t next() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }
};
inline S* s = nullptr; inline thread_local Th* me = nullptr;
template <typename F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) static auto f = sched::real<decltype(&name)>(#name)
inline bool on() { return s && me; }
inline void handOver(Th* t) { if (t == me) return; sem_post(&t->sem); while (sem_wait(&me->sem) != 0) {} }
// somebody else may go on (me: too, if I am still runnable)
inline void resched() {
    if (++s->steps > s->maxSteps) s->stuck("livelock");
    if (s->drift && (int)(s->next() % 100) < s->drift) { // time passes although somebody could go on (short sleeps only)
        Th* x = nullptr; for (auto* t : s->ths) if (t->st == Th::Sleep && t->until >= 0 && (!x || t->until < x->until)) x = t;
        if (x && x->until - s->now <= 1000000000) { s->now = x->until; x->st = Th::Run; x->until = -1; x->timed = true; x->on = nullptr; }
    }
    for (;;) {
        std::vector<Th*> r; for (auto* t : s->ths) if (t->st == Th::Run) r.push_back(t);
        if (r.empty()) {
            std::int64_t m = -1; for (auto* t : s->ths) if (t->st != Th::Done && t->until >= 0 && (m < 0 || t->until < m)) m = t->until;
            if (m < 0) s->stuck("nobody can go on");
            if (s->maxTime && m > s->maxTime) s->stuck("nothing but time passes");
            s->now = m; for (auto* t : s->ths) if (t->st != Th::Done && t->until == m) { t->st = Th::Run; t->until = -1; t->timed = true; t->on = nullptr; }
            continue;
        }
        Th* n = me->st == Th::Run && (int)(s->next() % 100) < s->stay ? me : r[s->next() % r.size()];
        handOver(n); return;
    }
}
inline void wakeOn(void* p, Th::St st) { for (auto* t : s->ths) if (t->st == st && t->on == p) { t->st = Th::Run; t->on = nullptr; } }
inline void block(Th::St st, void* p) { me->st = st; me->on = p; resched(); }
inline void lock(void* m) { resched(); while (s->owner.count(m)) block(Th::Mutex, m); s->owner[m] = me; }
inline void unlockOnly(void* m) { s->owner.erase(m); wakeOn(m, Th::Mutex); }
inline int condWait(void* c, void* m, std::int64_t until) {
    resched(); unlockOnly(m); me->timed = me->fired = false; me->until = until; block(Th::Cond, c); me->until = -1; bool late = me->timed && !me->fired;
    while (s->owner.count(m)) block(Th::Mutex, m);
    s->owner[m] = me; return late ? ETIMEDOUT : 0;
}
inline void signal(void* c, bool all) {
    resched(); std::vector<Th*> w; for (auto* t : s->ths) if (t->st == Th::Cond && t->on == c) w.push_back(t);
    if (w.empty()) return;
    auto go = [](Th* t) { t->st = Th::Run; t->on = nullptr; t->fired = true; t->until = -1; };
    if (all) for (auto* t : w) go(t); else go(w[s->next() % w.size()]);
}
inline void sleepFor(std::int64_t ns) { me->until = s->now + ns; block(Th::Sleep, nullptr); }
struct Boot { void* (*fn)(void*); void* arg; Th* t; };
inline void* entry(void* p) {
    Boot b = *(Boot*)p; delete (Boot*)p; me = b.t; while (sem_wait(&me->sem) != 0) {}
    void* r = b.fn(b.arg);
    me->st = Th::Done; if (s->threads) s->threads(me->tag, false);
    wakeOn(me, Th::Join);
    std::vector<Th*> x; auto* self = me;
    // hand over for good
    for (;;) {
        std::vector<Th*> q; for (auto* t : s->ths) if (t->st == Th::Run) q.push_back(t);
        if (q.empty()) {
            std::int64_t m = -1; for (auto* t : s->ths) if (t->st != Th::Done && t->until >= 0 && (m < 0 || t->until < m)) m = t->until;
            if (m < 0) s->stuck("nobody can go on");
            if (s->maxTime && m > s->maxTime) s->stuck("nothing but time passes");
            s->now = m; for (auto* t : s->ths) if (t->st != Th::Done && t->until == m) { t->st = Th::Run; t->until = -1; t->timed = true; t->on = nullptr; }
            continue;
        }
        auto* n = q[s->next() % q.size()]; me = nullptr; (void)self; sem_post(&n->sem); break;
    }
    return r;
}
// the calling thread becomes the first one
struct Session {
    explicit Session(std::uint64_t seed, int stay) { s = new S; s->rnd = seed * 0x9E3779B97F4A7C15ull + 0x1234567; for (int i = 0; i < 5; ++i) s->next(); s->stay = stay; auto* t = new Th{0}; sem_init(&t->sem, 0, 0); s->ths.push_back(t); me = t; }
    ~Session() { for (auto* t : s->ths) { sem_destroy(&t->sem); delete t; } delete s; s = nullptr; me = nullptr; }
};
} // namespace sched
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept(noexcept(pthread_mutex_lock(m))) { REAL(pthread_mutex_lock); if (!sched::on()) return f(m); sched::lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept(noexcept(pthread_mutex_trylock(m))) { REAL(pthread_mutex_trylock); if (!sched::on()) return f(m); sched::resched(); if (sched::s->owner.count(m)) return EBUSY; sched::s->owner[m] = sched::me; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept(noexcept(pthread_mutex_unlock(m))) { REAL(pthread_mutex_unlock); if (!sched::on()) return f(m); sched::unlockOnly(m); sched::resched(); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept(noexcept(pthread_rwlock_rdlock(m))) { REAL(pthread_rwlock_rdlock); if (!sched::on()) return f(m); sched::resched(); while (sched::s->rw[m].writer) sched::block(sched::Th::Mutex, m); ++sched::s->rw[m].readers; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept(noexcept(pthread_rwlock_wrlock(m))) { REAL(pthread_rwlock_wrlock); if (!sched::on()) return f(m); sched::resched(); while (sched::s->rw[m].writer || sched::s->rw[m].readers) sched::block(sched::Th::Mutex, m); sched::s->rw[m].writer = sched::me; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept(noexcept(pthread_rwlock_unlock(m))) { REAL(pthread_rwlock_unlock); if (!sched::on()) return f(m); auto& r = sched::s->rw[m]; if (r.writer) r.writer = nullptr; else --r.readers; sched::wakeOn(m, sched::Th::Mutex); sched::resched(); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { REAL(pthread_cond_wait); if (!sched::on()) return f(c, m); return sched::condWait(c, m, -1); }
static std::int64_t vfUntil(clockid_t k, const struct timespec* t) { struct timespec n; clock_gettime(k, &n); std::int64_t d = (t->tv_sec - n.tv_sec) * 1000000000ll + (t->tv_nsec - n.tv_nsec); return sched::s->now + (d < 0 ? 0 : d); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { REAL(pthread_cond_timedwait); if (!sched::on()) return f(c, m, t); return sched::condWait(c, m, vfUntil(CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { REAL(pthread_cond_clockwait); if (!sched::on()) return f(c, m, k, t); return sched::condWait(c, m, vfUntil(k, t)); }
int pthread_cond_signal(pthread_cond_t* c) noexcept(noexcept(pthread_cond_signal(c))) { REAL(pthread_cond_signal); if (!sched::on()) return f(c); sched::signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept(noexcept(pthread_cond_broadcast(c))) { REAL(pthread_cond_broadcast); if (!sched::on()) return f(c); sched::signal(c, true); return 0; }
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept(noexcept(pthread_create(p, a, fn, arg))) {
    REAL(pthread_create); if (!sched::on()) return f(p, a, fn, arg);
    auto* t = new sched::Th{(int)sched::s->ths.size()}; sem_init(&t->sem, 0, 0); t->tag = sched::me->ctag ? sched::me->ctag : sched::me->tag * 10 + 1;
    int r = f(p, a, sched::entry, new sched::Boot{fn, arg, t}); t->pt = *p; sched::s->ths.push_back(t);
    if (sched::s->threads) sched::s->threads(t->tag, true);
    sched::resched(); return r;
}
int pthread_join(pthread_t p, void** r) {
    REAL(pthread_join); if (!sched::on()) return f(p, r);
    sched::resched(); sched::Th* x = nullptr; for (auto* t : sched::s->ths) if (t->st != sched::Th::Done && t->id && pthread_equal(t->pt, p)) x = t;
    while (x && x->st != sched::Th::Done) sched::block(sched::Th::Join, x);
    return f(p, r);
}
int nanosleep(const struct timespec* t, struct timespec* r) { REAL(nanosleep); if (!sched::on()) return f(t, r); sched::sleepFor(t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
int clock_nanosleep(clockid_t k, int fl, const struct timespec* t, struct timespec* r) { REAL(clock_nanosleep); if (!sched::on()) return f(k, fl, t, r); sched::sleepFor(fl & TIMER_ABSTIME ? vfUntil(k, t) - sched::s->now : t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
int sched_yield() noexcept(noexcept(sched_yield())) { REAL(sched_yield); if (!sched::on()) return f(); sched::resched(); return 0; }
}
