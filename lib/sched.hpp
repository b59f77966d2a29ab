// sched.hpp - controlled scheduler: one thread runs at a time; every lock, unlock-with-waiters, condition wait,
// signal, thread start, join and explicit yield of the code under test is a scheduling point decided by mc::choose.
// Reached by interposition: the executable defines the pthread functions itself (no source hooks).
//   preemptions are bounded (a switch away from a thread that could go on); spurious wake-ups are an explicit,
//   separately bounded choice.  No enabled thread = deadlock (process exit 71).
#pragma once
#include "mc.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <execinfo.h>

namespace sched {
struct Thr {
    int id; sem_t go; enum St { RUN, LOCK, COND, JOIN, DONE } st = RUN;
    void* on = nullptr;            // mutex / condition / joined thread id
    void* cm = nullptr;            // mutex to take back after a condition wait
    void* (*fn)(void*) = nullptr; void* arg = nullptr; pthread_t real; void* ret = nullptr; bool joined = false, detached = false;
};
struct S {
    bool on = false;
    std::vector<Thr*> t; int cur = 0;
    std::map<void*, int> owner; std::map<void*, int> depth;
    int preempt = 0, maxpre = 2, spurious = 0, maxspur = 0;
    long points = 0, maxpoints = 100000;
    std::string log;
};
inline S& G() { static S s; return s; }
static thread_local int my_id = 0;
// also a point after every unlock and before every notify
inline bool& fine_points() { static bool f = true; return f; }
inline bool active() { return G().on; }

inline bool enabled(Thr* t) {
    switch (t->st) {
    case Thr::RUN: return true;
    case Thr::LOCK: return !G().owner.count(t->on) || G().owner[t->on] == t->id;
    case Thr::JOIN: return G().t[(size_t) (intptr_t) t->on]->st == Thr::DONE;
    default: return false;
    }
}
inline void dead(const std::string& what) {
    std::string s = what + ":";
    for (auto* t : G().t) s += " T" + std::to_string(t->id) + (t->st == Thr::DONE ? "=done" : t->st == Thr::LOCK ? "=waits for a lock" : t->st == Thr::COND ? "=waits on a condition" : t->st == Thr::JOIN ? "=joins" : "=runs");
    printf("  | %s\n  | schedule %s\n", s.c_str(), G().log.c_str()); fflush(stdout);
    _exit(71);
}
// the current thread offers to be switched; it must have set its own state
inline void point(bool blocked = false) {
    S& g = G();
    if (!g.on) return;
    Thr* me = g.t[my_id];
    if (++g.points > g.maxpoints) dead("endless schedule");
    mc::step();
    std::vector<int> en; int me_ok = 0;
    if (enabled(me)) { en.push_back(me->id); me_ok = 1; }
    for (auto* t : g.t) if (t != me && enabled(t)) en.push_back(t->id);
    size_t plain = en.size();
    if (g.spurious < g.maxspur) for (auto* t : g.t) if (t->st == Thr::COND) en.push_back(-1 - t->id);     // spurious wake-up of t
    if (en.empty()) dead("deadlock");
    int c = 0;
    if (me_ok && g.preempt >= g.maxpre) {
        // may only continue (or take a spurious wake-up event)
        if (en.size() > plain) { std::vector<int> r{en[0]}; for (size_t i = plain; i < en.size(); ++i) r.push_back(en[i]); en = r; }
        else en.resize(1);
    }
    c = en.size() > 1 ? mc::choose((int) en.size()) : 0;
    int next = en[(size_t) c];
    if (next < 0) {                                        // a condition wait returns for no reason
        Thr* t = g.t[(size_t) (-1 - next)];
        ++g.spurious; t->st = Thr::LOCK; t->on = t->cm;
        g.log += " ~T" + std::to_string(t->id);
        return point(blocked);
    }
    if (next != me->id && me_ok) ++g.preempt;
    Thr* t = g.t[(size_t) next];
    if (next != me->id) g.log += " T" + std::to_string(next);
    if (t->st == Thr::LOCK) { g.owner[t->on] = t->id; ++g.depth[t->on]; t->st = Thr::RUN; }
    else if (t->st == Thr::JOIN) t->st = Thr::RUN;
    if (next != me->id) {
        g.cur = next;
        sem_post(&t->go);
        if (me->st != Thr::DONE) sem_wait(&me->go);
    }
}
inline void yield() { point(); }
// lets every other thread that can run go on before this one does (no preemption is counted, no choice is made for the caller)
inline void hand_over() {
    S& g = G();
    if (!g.on) return;
    Thr* me = g.t[(size_t) my_id];
    Thr* to = nullptr; for (auto* t : g.t) if (t != me && enabled(t)) { to = t; break; }
    if (!to) return;
    if (to->st == Thr::LOCK) { g.owner[to->on] = to->id; ++g.depth[to->on]; to->st = Thr::RUN; }
    else if (to->st == Thr::JOIN) to->st = Thr::RUN;
    int s = g.preempt; g.cur = to->id; g.log += " T" + std::to_string(to->id);
    (void) s; sem_post(&to->go); sem_wait(&me->go);
}

typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*mx_t)(pthread_mutex_t*); typedef int (*cw_t)(pthread_cond_t*, pthread_mutex_t*); typedef int (*cs_t)(pthread_cond_t*);
typedef int (*join_t)(pthread_t, void**); typedef int (*detach_t)(pthread_t);
template <class T> inline T real(const char* n) { T f = (T) dlsym(RTLD_NEXT, n); if (!f) _exit(98); return f; }

extern "C" char __executable_start; extern "C" char etext;
inline bool mine(void* ra) { return (char*) ra >= &__executable_start && (char*) ra < &etext; }

inline void* tramp(void* p) {
    Thr* t = (Thr*) p;
    my_id = t->id;
    sem_wait(&t->go);
    t->ret = t->fn(t->arg);
    t->st = Thr::DONE;
    // hand over: someone must be enabled, or everything is finished
    S& g = G();
    bool all = true; for (auto* x : g.t) if (x->st != Thr::DONE) all = false;
    if (!all) point();
    return t->ret;
}
// run body as thread 0 under the scheduler
struct Leak { int n; };
inline void run(int maxpre, int maxspur, const std::function<void()>& body) {
    S& g = G();
    g = S(); g.maxpre = maxpre; g.maxspur = maxspur;
    Thr* m = new Thr; m->id = 0; sem_init(&m->go, 0, 0); g.t.push_back(m);
    my_id = 0; g.on = true; mc::E().soft = true;
    auto finish = [&]() {
        // let the threads that are still alive end
        int alive = 0; for (auto* t : g.t) if (t->id && t->st != Thr::DONE) ++alive;
        bool stuck = false;
        while (true) {
            Thr* w = nullptr; for (auto* t : g.t) if (t->id && t->st != Thr::DONE) { w = t; break; }
            if (!w) break;
            bool any = false; for (auto* t : g.t) if (t->id && enabled(t)) any = true;
            if (!any) { stuck = true; break; }
            m->st = Thr::JOIN; m->on = (void*) (intptr_t) w->id;
            point();
        }
        g.on = false; mc::E().soft = false;
        if (stuck) { printf("  | a thread never ends; schedule %s\n", g.log.c_str()); fflush(stdout); _exit(72); }
        for (auto* t : g.t) if (t->id && !t->joined) { static auto j = real<join_t>("pthread_join"); j(t->real, nullptr); }
        int leaked = 0; for (auto* t : g.t) if (t->id && !t->joined && !t->detached) ++leaked;
        for (auto* t : g.t) { sem_destroy(&t->go); delete t; }
        g.t.clear();
        (void) alive;
        if (leaked) mc::fail("a thread was never joined", g.log);
    };
    try { body(); } catch (mc::Violation& v) { v.msg += "\nschedule" + g.log; std::string l = g.log; try { finish(); } catch (mc::Violation&) {} throw v; }
    finish();
}
}  // namespace sched

extern "C" {
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    static auto r = sched::real<sched::create_t>("pthread_create");
    sched::S& g = sched::G();
    if (!g.on) return r(p, a, fn, arg);
    auto* t = new sched::Thr; t->id = (int) g.t.size(); sem_init(&t->go, 0, 0); t->fn = fn; t->arg = arg;
    g.t.push_back(t);
    int rc = r(p, a, sched::tramp, t);
    if (rc) _exit(98);
    t->real = *p;
    sched::point();
    return 0;
}
int pthread_join(pthread_t p, void** ret) {
    static auto r = sched::real<sched::join_t>("pthread_join");
    sched::S& g = sched::G();
    if (!g.on) return r(p, ret);
    for (auto* t : g.t) if (t->id && !t->joined && pthread_equal(t->real, p)) {
        auto* me = g.t[(size_t) sched::my_id];
        me->st = sched::Thr::JOIN; me->on = (void*) (intptr_t) t->id;
        sched::point();
        t->joined = true;
        return r(p, ret);
    }
    return r(p, ret);
}
int pthread_detach(pthread_t p) {
    static auto r = sched::real<sched::detach_t>("pthread_detach");
    sched::S& g = sched::G();
    if (!g.on) return r(p);
    for (auto* t : g.t) if (t->id && !t->joined && pthread_equal(t->real, p)) { t->detached = true; return 0; }
    return r(p);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto r = sched::real<sched::mx_t>("pthread_mutex_lock");
    sched::S& g = sched::G();
    if (!g.on || !sched::mine(__builtin_return_address(0))) return r(m);
    auto* me = g.t[(size_t) sched::my_id];
    me->st = sched::Thr::LOCK; me->on = m;
    auto o = g.owner.find(m);
    if (o != g.owner.end() && o->second == me->id && g.depth[m] > 0) { int k; (void) k; sched::dead("self-deadlock on a mutex"); }
    sched::point();
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    static auto r = sched::real<sched::mx_t>("pthread_mutex_trylock");
    sched::S& g = sched::G();
    if (!g.on || !sched::mine(__builtin_return_address(0))) return r(m);
    sched::point();
    if (g.owner.count(m)) return EBUSY;
    g.owner[m] = sched::my_id; ++g.depth[m];
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static auto r = sched::real<sched::mx_t>("pthread_mutex_unlock");
    sched::S& g = sched::G();
    if (!g.on || !sched::mine(__builtin_return_address(0))) return r(m);
    auto o = g.owner.find(m);
    if (o == g.owner.end()) return r(m);
    if (--g.depth[m] == 0) { g.owner.erase(m); g.depth.erase(m); }
    if (sched::fine_points()) sched::point();
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto r = sched::real<sched::cw_t>("pthread_cond_wait");
    sched::S& g = sched::G();
    if (!g.on || !g.owner.count(m)) return r(c, m);
    auto* me = g.t[(size_t) sched::my_id];
    sched::point();                       // before the wait begins, still holding the mutex: a signal sent without it is lost
    g.owner.erase(m); g.depth.erase(m);
    me->st = sched::Thr::COND; me->on = c; me->cm = m;
    sched::point(true);
    return 0;
}
static int mc_wake(void* c, bool all) {
    sched::S& g = sched::G();
    if (sched::fine_points()) sched::point();
    std::vector<sched::Thr*> w;
    for (auto* t : g.t) if (t->st == sched::Thr::COND && t->on == c) w.push_back(t);
    if (w.empty()) { sched::point(); return 0; }
    if (!all && w.size() > 1) { auto* t = w[(size_t) mc::choose((int) w.size())]; w = {t}; }
    for (auto* t : w) { t->st = sched::Thr::LOCK; t->on = t->cm; }
    sched::point();
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { static auto r = sched::real<sched::cs_t>("pthread_cond_signal"); return sched::active() ? mc_wake(c, false) : r(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { static auto r = sched::real<sched::cs_t>("pthread_cond_broadcast"); return sched::active() ? mc_wake(c, true) : r(c); }
}
