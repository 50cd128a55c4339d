// Controlled-scheduler harness for the thread pool source of /repo.
//
// The pool's object file is linked with every threading/time/allocation symbol renamed to sx_* (objcopy) and with
// clang's load/store coverage callbacks, so every logical thread is a fiber and a scheduling decision is possible at
// each pthread call and at each access to shared memory.  Executions are deterministic given (scenario, seed).
//
// usage: harness SCENARIOS OUT first last seeds seed0    (scenario lines [first,last))
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <errno.h>
#include <signal.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unordered_set>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

extern "C" {
// public API of the pool
void cppadcg_thpool_set_threads(int n);
int cppadcg_thpool_get_threads();
void cppadcg_thpool_set_scheduler_strategy(int s);
int cppadcg_thpool_get_scheduler_strategy();
void cppadcg_thpool_set_disabled(int);
int cppadcg_thpool_is_disabled();
void cppadcg_thpool_set_guided_maxgroupwork(float v);
float cppadcg_thpool_get_guided_maxgroupwork();
unsigned int cppadcg_thpool_get_n_time_meas();
void cppadcg_thpool_set_n_time_meas(unsigned int n);
void cppadcg_thpool_set_verbose(int v);
int cppadcg_thpool_is_verbose();
int cppadcg_thpool_get_time_meas_ref();
void cppadcg_thpool_set_time_meas_ref(int r);
void cppadcg_thpool_prepare();
void cppadcg_thpool_add_job(void (*f)(void*), void* arg, float* avg, float* elapsed);
void cppadcg_thpool_add_jobs(void (*f[])(void*), void* args[], const float avg[], float elapsed[], const int order[], int job2Thread[], int n, int last);
void cppadcg_thpool_wait();
void cppadcg_thpool_update_order(float ref[], unsigned int n, const float elapsed[], int order[], int nJobs);
void cppadcg_thpool_shutdown();
}

// ------------------------------------------------------------------ output buffer shared with the parent
struct Shared { volatile size_t len; volatile long points; volatile int done; volatile size_t cur; char buf[1 << 16]; };
static Shared* sh;
static void ev(const char* fmt, ...) {
    char tmp[2048];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(tmp, sizeof tmp, fmt, ap); va_end(ap);
    if (sh->len + n + 2 >= sizeof sh->buf) return;
    if (sh->len) sh->buf[sh->len++] = ',';
    memcpy(sh->buf + sh->len, tmp, n); sh->len += n;
}
// ------------------------------------------------------------------ scheduler
static const size_t STK = 128 * 1024;
enum St { READY, MUTEX, COND, JOIN, SLEEP, SEM, DONE };
struct Fiber {
    ucontext_t ctx; char* stk; St st; void* obj; void* obj2; int id; long prio; long run; double cpu;
    void* (*fn)(void*); void* arg; void* ret; bool detached; bool joined; long wake; bool notified; bool timed; void* fake;
};
static std::vector<Fiber*> F; static std::vector<char*> freeStk;
static Fiber* cur; static bool active = false;
static uint64_t rs;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static long points, maxPoints, vtime; // virtual microseconds
static int strategy; static double pSwitch; static bool spurious;
static std::vector<long> changePts; static long lowPrio;
static long fairFrom;
struct Mx { Fiber* owner = nullptr; int rec = 0; };
static std::map<void*, Mx> MX;
static std::map<void*, int> SEMV;

[[noreturn]] static void endProcess(const char* what, const char* detail) {
    active = false;
    ev("{\"e\":\"%s\",\"d\":\"%s\"}", what, detail);
    sh->done = 1; sh->points += points;
    _exit(0);
}
static bool runnable(Fiber* f) {
    switch (f->st) {
        case READY: return true;
        case MUTEX: return MX[f->obj].owner == nullptr;
        case COND: return f->notified || (f->timed && false);
        case JOIN: return F[(size_t) f->obj]->st == DONE;
        case SLEEP: return f->wake <= vtime;
        case SEM: return SEMV[f->obj] > 0;
        default: return false;
    }
}
static void switchTo(Fiber* n) {
    Fiber* o = cur; if (n == o) return;
    cur = n;
    __sanitizer_start_switch_fiber(o->st == DONE ? nullptr : &o->fake, n->stk, STK);
    swapcontext(&o->ctx, &n->ctx);
    __sanitizer_finish_switch_fiber(o->fake, nullptr, nullptr);
}
static void pick() {
    std::vector<Fiber*> r;
    for (auto* f : F) if (runnable(f)) r.push_back(f);
    if (r.empty()) { // let time pass for sleepers
        long w = -1;
        for (auto* f : F) if ((f->st == SLEEP || (f->st == COND && f->timed)) && (w < 0 || f->wake < w)) w = f->wake;
        if (w < 0) endProcess("hang", "deadlock");
        if (w > vtime) vtime = w;
        for (auto* f : F) { if (f->st == COND && f->timed && f->wake <= vtime) f->notified = true; if (runnable(f)) r.push_back(f); }
        if (r.empty()) endProcess("hang", "deadlock");
    }
    Fiber* n = nullptr;
    if (points >= fairFrom) { // fair phase: round robin with long slices
        int base = cur->id; int best = 1 << 30;
        for (auto* f : r) { int d = f->id - base; if (d <= 0) d += (int) F.size(); if (d < best) { best = d; n = f; } }
    } else if (strategy == 1) { // priorities
        for (auto* f : r) if (!n || f->prio > n->prio) n = f;
    } else n = r[rnd() % r.size()];
    n->run = 0;
    switchTo(n);
}
// one scheduling point of the running thread; blocked = the thread cannot go on
static void point(bool blocked, bool sync) {
    if (!active) return;
    ++points; vtime += 1;
    if (points > maxPoints) endProcess("hang", "no progress");
    if (spurious && rnd() % 97 == 0)
        for (auto* f : F) if (f->st == COND && !f->notified && rnd() % 3 == 0) { f->notified = true; break; }
    if (blocked) { pick(); return; }
    ++cur->run;
    if (points >= fairFrom) { if (cur->run > 300) pick(); return; }
    if (cur->run > 1500) { cur->prio = --lowPrio; pick(); return; }
    if (strategy == 1) {
        for (long c : changePts) if (c == points) { cur->prio = --lowPrio; break; }
        Fiber* n = cur; for (auto* f : F) if (f->prio > n->prio && runnable(f)) n = f;
        if (n != cur) { n->run = 0; switchTo(n); }
    } else if (strategy == 2) { if (sync && rnd01() < 0.6) pick(); }
    else if (rnd01() < pSwitch) pick();
}
static void checkMem(const void* p, const char* what) {
    if (__asan_address_is_poisoned(p)) endProcess("crash", what);
}
static void fiberMain() {
    __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
    Fiber* me = cur;
    me->ret = me->fn(me->arg);
    ev("{\"e\":\"texit\",\"t\":%d}", me->id);
    me->st = DONE;
    active = true;
    pick();
    abort();
}
static char* getStk() {
    if (!freeStk.empty()) { char* s = freeStk.back(); freeStk.pop_back(); return s; }
    char* s = (char*) mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return s;
}
static bool onStack(const void* p) { return (char*) p >= cur->stk && (char*) p < cur->stk + STK; }
static std::set<void*> liveAlloc; static bool poolAlloc = true;
static int createFail = -1, createCount = 0;

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; ++a) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t*) {}
#define LS(n) void __sanitizer_cov_load##n(void* p) { if (active && !onStack(p)) point(false, false); } \
              void __sanitizer_cov_store##n(void* p) { if (active && !onStack(p)) point(false, false); }
LS(1) LS(2) LS(4) LS(8) LS(16)

int sx_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { checkMem(m, "mutex init in released memory"); MX[m] = Mx(); return 0; }
int sx_pthread_mutex_destroy(pthread_mutex_t* m) { MX.erase(m); return 0; }
int sx_pthread_mutex_lock(pthread_mutex_t* m) {
    point(false, true); checkMem(m, "lock of a mutex in released memory");
    Mx& x = MX[m];
    if (x.owner == cur) endProcess("hang", "self deadlock");
    while (MX[m].owner != nullptr) { cur->st = MUTEX; cur->obj = m; point(true, true); cur->st = READY; }
    checkMem(m, "lock of a mutex in released memory");
    MX[m].owner = cur; return 0;
}
int sx_pthread_mutex_trylock(pthread_mutex_t* m) {
    point(false, true); checkMem(m, "lock of a mutex in released memory");
    if (MX[m].owner) return EBUSY; MX[m].owner = cur; return 0;
}
int sx_pthread_mutex_unlock(pthread_mutex_t* m) {
    point(false, true); checkMem(m, "unlock of a mutex in released memory");
    if (MX[m].owner != cur) endProcess("crash", "unlock of a mutex that is not held");
    MX[m].owner = nullptr; point(false, true); return 0;
}
int sx_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { checkMem(c, "cond init in released memory"); return 0; }
int sx_pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, long wake) {
    point(false, true); checkMem(c, "wait on a condition in released memory"); checkMem(m, "wait with a mutex in released memory");
    if (MX[m].owner != cur) endProcess("crash", "condition wait without the mutex");
    MX[m].owner = nullptr;
    cur->st = COND; cur->obj = c; cur->notified = false; cur->timed = timed; cur->wake = wake;
    point(true, true); cur->st = READY;
    bool to = timed && vtime >= wake; cur->timed = false;
    checkMem(m, "wake up with a mutex in released memory");
    while (MX[m].owner != nullptr) { cur->st = MUTEX; cur->obj = m; point(true, true); cur->st = READY; }
    MX[m].owner = cur; return to ? ETIMEDOUT : 0;
}
int sx_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, false, 0); }
int sx_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    return condWait(c, m, true, t->tv_sec * 1000000L + t->tv_nsec / 1000);
}
int sx_pthread_cond_signal(pthread_cond_t* c) {
    point(false, true); checkMem(c, "signal of a condition in released memory");
    std::vector<Fiber*> w; for (auto* f : F) if (f->st == COND && f->obj == c && !f->notified) w.push_back(f);
    if (!w.empty()) w[rnd() % w.size()]->notified = true;
    return 0;
}
int sx_pthread_cond_broadcast(pthread_cond_t* c) {
    point(false, true); checkMem(c, "broadcast of a condition in released memory");
    for (auto* f : F) if (f->st == COND && f->obj == c) f->notified = true;
    return 0;
}
int sx_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    point(false, true);
    auto* f = new Fiber(); memset((void*) &f->ctx, 0, sizeof f->ctx);
    f->stk = getStk(); f->st = READY; f->id = (int) F.size(); f->prio = (long) (rnd() % 1000) + 10; f->run = 0; f->cpu = 0;
    f->fn = fn; f->arg = arg; f->detached = f->joined = f->notified = f->timed = false; f->fake = nullptr; f->obj = nullptr;
    getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stk; f->ctx.uc_stack.ss_size = STK; f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, fiberMain, 0);
    F.push_back(f); *t = (pthread_t) f->id;
    ev("{\"e\":\"tstart\",\"t\":%d}", f->id);
    point(false, true); return 0;
}
int sx_pthread_detach(pthread_t t) { point(false, true); F[(size_t) t]->detached = true; return 0; }
int sx_pthread_join(pthread_t t, void** r) {
    point(false, true);
    Fiber* f = F[(size_t) t];
    if (f->detached || f->joined) endProcess("crash", "join of a detached or joined thread");
    while (f->st != DONE) { cur->st = JOIN; cur->obj = (void*) (size_t) t; point(true, true); cur->st = READY; }
    f->joined = true; if (r) *r = f->ret; return 0;
}
pthread_t sx_pthread_self() { return (pthread_t) cur->id; }
void sx_pthread_exit(void* r) { ev("{\"e\":\"texit\",\"t\":%d}", cur->id); cur->ret = r; cur->st = DONE; pick(); abort(); }
int sx_pthread_setname_np(pthread_t, const char*) { return 0; }
int sx_prctl(int, ...) { return 0; }
int sx_sched_yield() { point(false, true); if (active) pick(); return 0; }
unsigned sx_sleep(unsigned s) { cur->st = SLEEP; cur->wake = vtime + s * 1000000L; point(true, true); cur->st = READY; return 0; }
int sx_usleep(unsigned us) { cur->st = SLEEP; cur->wake = vtime + us; point(true, true); cur->st = READY; return 0; }
int sx_nanosleep(const struct timespec* t, struct timespec*) { return sx_usleep((unsigned) (t->tv_sec * 1000000L + t->tv_nsec / 1000)); }
int sx_clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) { return sx_usleep((unsigned) (t->tv_sec * 1000000L + t->tv_nsec / 1000)); }
time_t sx_time(time_t* t) { point(false, false); vtime += 200000; time_t v = vtime / 1000000; if (t) *t = v; return v; }
int sx_clock_gettime(clockid_t c, struct timespec* ts) {
    point(false, false);
    if (c == CLOCK_THREAD_CPUTIME_ID) { double v = cur->cpu; ts->tv_sec = (time_t) v; ts->tv_nsec = (long) ((v - (double) ts->tv_sec) * 1e9); }
    else { ts->tv_sec = 100 + vtime / 1000000; ts->tv_nsec = (vtime % 1000000) * 1000; }
    return 0;
}
int sx_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = vtime / 1000000; tv->tv_usec = vtime % 1000000; return 0; }
int sx_sem_init(sem_t* s, int, unsigned v) { SEMV[s] = (int) v; return 0; }
int sx_sem_destroy(sem_t*) { return 0; }
int sx_sem_post(sem_t* s) { point(false, true); checkMem(s, "semaphore in released memory"); ++SEMV[s]; return 0; }
int sx_sem_wait(sem_t* s) {
    point(false, true); checkMem(s, "semaphore in released memory");
    while (SEMV[s] <= 0) { cur->st = SEM; cur->obj = s; point(true, true); cur->st = READY; }
    --SEMV[s]; return 0;
}
int sx_sem_trywait(sem_t* s) { point(false, true); if (SEMV[s] <= 0) { errno = EAGAIN; return -1; } --SEMV[s]; return 0; }
void* sx_malloc(size_t n) { void* p = malloc(n ? n : 1); memset(p, 0xA5, n); liveAlloc.insert(p); return p; }
void* sx_calloc(size_t a, size_t b) { void* p = calloc(a ? a : 1, b ? b : 1); liveAlloc.insert(p); return p; }
void* sx_realloc(void* q, size_t n) { if (q) liveAlloc.erase(q); void* p = realloc(q, n ? n : 1); liveAlloc.insert(p); return p; }
void sx_free(void* p) { if (!p) return; if (!liveAlloc.erase(p)) endProcess("crash", "release of memory that is not allocated"); free(p); }
int sx_fprintf(FILE*, const char*, ...) { return 0; }
int sx_printf(const char*, ...) { return 0; }
size_t sx_fwrite(const void*, size_t, size_t n, FILE*) { return n; }
int sx_puts(const char*) { return 0; }
int sx_fputs(const char*, FILE*) { return 0; }
int sx_fflush(FILE*) { return 0; }
void sx_exit(int) { endProcess("crash", "exit called"); }
}
// ------------------------------------------------------------------ scenarios
// line format: whitespace separated tokens, one op after another; see spec/PoolScenario.tla
static std::vector<double> durTab = {0.0, 1e-6, 1e-3, 0.5, 1.0, 2.0, 8.0, 1e3, 1e8, 5.0};
struct Fn { int n = 0; std::vector<float> ref, ela; std::vector<int> order, j2t; int last = 1; unsigned nmeas = 0; };
struct JobArg { int job; int fnid; double dur; int* meet = nullptr; int need = 0; };
static std::vector<JobArg*> jobArgs;
static void body(JobArg* a, int fnid) {
    bool was = active;
    ev("{\"e\":\"start\",\"j\":%d,\"f\":%d,\"t\":%d}", a->job, fnid, cur->id);
    if (a->meet) { ++*a->meet; while (*a->meet < a->need) { point(false, true); if (active) pick(); } }
    int k = 1 + (int) (rnd() % 3);
    if (was) for (int i = 0; i < k; ++i) point(false, true);
    cur->cpu += a->dur < 8 ? a->dur : 1.0;
    ev("{\"e\":\"end\",\"j\":%d,\"t\":%d}", a->job, cur->id);
    if (was) point(false, true);
}
template<int N> static void jf(void* a) { body((JobArg*) a, N); }
typedef void (*jfun)(void*);
static jfun JF[8] = {jf<0>, jf<1>, jf<2>, jf<3>, jf<4>, jf<5>, jf<6>, jf<7>};

static std::vector<std::string> toks;
static int nextJob;
static std::map<int, Fn> fns;
static std::string jint(const std::vector<int>& v) { std::ostringstream s; s << "["; for (size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i]; s << "]"; return s.str(); }
static int durIdx(float v) { for (size_t i = 0; i < durTab.size(); ++i) if (std::abs(v - (float) durTab[i]) <= 1e-5f * (float) durTab[i] + 2e-9f) return (int) i; return -1; }

static void* client(void*) {
    size_t p = 0;
    auto I = [&]() { return atoi(toks[p++].c_str()); };
    while (p < toks.size()) {
        std::string op = toks[p++];
        if (op == "threads") { int n = I(); ev("{\"e\":\"call\",\"op\":\"threads\",\"n\":%d}", n); cppadcg_thpool_set_threads(n); ev("{\"e\":\"ret\",\"v\":%d}", cppadcg_thpool_get_threads()); }
        else if (op == "strategy") { int n = I(); ev("{\"e\":\"call\",\"op\":\"strategy\",\"n\":%d}", n); cppadcg_thpool_set_scheduler_strategy(n); ev("{\"e\":\"ret\",\"v\":%d}", cppadcg_thpool_get_scheduler_strategy()); }
        else if (op == "disabled") { int n = I(); ev("{\"e\":\"call\",\"op\":\"disabled\",\"n\":%d}", n); cppadcg_thpool_set_disabled(n); ev("{\"e\":\"ret\",\"v\":%d}", cppadcg_thpool_is_disabled()); }
        else if (op == "verbose") { int n = I(); ev("{\"e\":\"call\",\"op\":\"verbose\",\"n\":%d}", n); cppadcg_thpool_set_verbose(n); ev("{\"e\":\"ret\",\"v\":%d}", cppadcg_thpool_is_verbose()); }
        else if (op == "guided") { int n = I(); ev("{\"e\":\"call\",\"op\":\"guided\",\"n\":%d}", n); cppadcg_thpool_set_guided_maxgroupwork(n / 100.0f); ev("{\"e\":\"ret\",\"v\":%d}", (int) (cppadcg_thpool_get_guided_maxgroupwork() * 100 + 0.5)); }
        else if (op == "timeref") { int n = I(); ev("{\"e\":\"call\",\"op\":\"timeref\",\"n\":%d}", n); cppadcg_thpool_set_time_meas_ref(n); ev("{\"e\":\"ret\",\"v\":%d}", cppadcg_thpool_get_time_meas_ref()); }
        else if (op == "nmeas") { int n = I(); ev("{\"e\":\"call\",\"op\":\"nmeas\",\"n\":%d}", n); cppadcg_thpool_set_n_time_meas(n); ev("{\"e\":\"ret\",\"v\":%d}", (int) cppadcg_thpool_get_n_time_meas()); }
        else if (op == "prepare") { ev("{\"e\":\"call\",\"op\":\"prepare\"}"); cppadcg_thpool_prepare(); ev("{\"e\":\"ret\",\"v\":0}"); }
        else if (op == "addone") { // single job: timed?(avg index or -1)
            int a = I(); float* avg = nullptr; if (a >= 0) { avg = (float*) malloc(sizeof(float)); *avg = (float) durTab[a]; }
            auto* ja = new JobArg{nextJob++, 0, a >= 0 ? durTab[a] : 0.0}; jobArgs.push_back(ja);
            ja->fnid = ja->job % 8;
            ev("{\"e\":\"call\",\"op\":\"add\",\"first\":%d,\"n\":1}", ja->job);
            cppadcg_thpool_add_job(JF[ja->fnid], ja, avg, nullptr); ev("{\"e\":\"ret\",\"v\":0}");
        } else if (op == "addraw") { // n, hasAvg, avg[n], hasOrder, order[n]
            int n = I(); int ha = I(); float* avg = (float*) malloc(sizeof(float) * (n + 1)); for (int i = 0; i < n; ++i) avg[i] = (float) durTab[I()];
            int ho = I(); int* ord = (int*) malloc(sizeof(int) * (n + 1)); for (int i = 0; i < n; ++i) ord[i] = I();
            int* j2t = (int*) malloc(sizeof(int) * (n + 1)); for (int i = 0; i < n; ++i) j2t[i] = -1;
            int first = nextJob; nextJob += n;
            std::vector<jfun> f(n + 1); std::vector<void*> args(n + 1);
            for (int i = 0; i < n; ++i) { auto* ja = new JobArg{first + i, (first + i) % 8, avg[i]}; jobArgs.push_back(ja); f[i] = JF[ja->fnid]; args[i] = ja; }
            ev("{\"e\":\"call\",\"op\":\"add\",\"first\":%d,\"n\":%d}", first, n);
            cppadcg_thpool_add_jobs(f.data(), args.data(), ha ? avg : nullptr, nullptr, ho ? ord : nullptr, j2t, n, 1); ev("{\"e\":\"ret\",\"v\":0}");
        } else if (op == "rendez") { // k, static timing?, submitted one by one?
            int k = I(), tm = I(), single = I(); int first = nextJob; nextJob += k; int* meet = new int(0);
            float* avg = (float*) malloc(sizeof(float) * k); int* ord = (int*) malloc(sizeof(int) * k); int* j2t = (int*) malloc(sizeof(int) * k);
            std::vector<jfun> f(k); std::vector<void*> args(k);
            for (int i = 0; i < k; ++i) { auto* ja = new JobArg{first + i, (first + i) % 8, 1.0}; ja->meet = meet; ja->need = k; jobArgs.push_back(ja);
                f[i] = JF[ja->fnid]; args[i] = ja; avg[i] = 1; ord[i] = i; j2t[i] = -1; }
            if (single) for (int i = 0; i < k; ++i) { ev("{\"e\":\"call\",\"op\":\"add\",\"first\":%d,\"n\":1}", first + i); cppadcg_thpool_add_job(f[i], args[i], nullptr, nullptr); ev("{\"e\":\"ret\",\"v\":0}"); }
            else { ev("{\"e\":\"call\",\"op\":\"add\",\"first\":%d,\"n\":%d}", first, k);
                cppadcg_thpool_add_jobs(f.data(), args.data(), tm ? avg : nullptr, nullptr, tm ? ord : nullptr, j2t, k, 1); ev("{\"e\":\"ret\",\"v\":0}"); }
        } else if (op == "eval") { // like generated code: function id, n, dur[n]
            int id = I(); int n = I(); std::vector<int> d(n); for (auto& x : d) x = I();
            Fn& f = fns[id];
            if (f.n == 0) { f.n = n; f.ref.assign(n, 0); f.ela.assign(n, 0); f.order.resize(n); for (int i = 0; i < n; ++i) f.order[i] = i; f.j2t.assign(n, -1); }
            int nb = cppadcg_thpool_get_n_time_meas();
            int bench = n > 0 && (int) f.nmeas < nb && !cppadcg_thpool_is_disabled();
            int first = nextJob; nextJob += n;
            std::vector<jfun> fu(n + 1); std::vector<void*> args(n + 1);
            for (int i = 0; i < n; ++i) { auto* ja = new JobArg{first + i, (first + i) % 8, durTab[d[i]]}; jobArgs.push_back(ja); fu[i] = JF[ja->fnid]; args[i] = ja; }
            ev("{\"e\":\"call\",\"op\":\"add\",\"first\":%d,\"n\":%d}", first, n);
            cppadcg_thpool_add_jobs(fu.data(), args.data(), f.ref.data(), bench ? f.ela.data() : nullptr, f.order.data(), f.j2t.data(), n, f.last); ev("{\"e\":\"ret\",\"v\":0}");
            ev("{\"e\":\"call\",\"op\":\"wait\"}"); cppadcg_thpool_wait(); ev("{\"e\":\"ret\",\"v\":0}");
            if (bench) {
                std::vector<int> el(n); for (int i = 0; i < n; ++i) el[i] = d[i];
                std::vector<float> old = f.ref; int ref = cppadcg_thpool_get_time_meas_ref();
                cppadcg_thpool_update_order(f.ref.data(), f.nmeas, f.ela.data(), f.order.data(), n);
                // facts about the update, projected to what the contract talks about
                bool nz = false; for (float e : f.ela) if (e != 0) nz = true;
                int ok = 1;
                for (int i = 0; i < n && nz; ++i) {
                    double want = ref == 0 ? (double(old[i]) * f.nmeas + f.ela[i]) / (f.nmeas + 1.0) : (f.nmeas == 0 || f.ela[i] < old[i] ? f.ela[i] : old[i]);
                    if (std::abs(want - f.ref[i]) > 1e-5 * std::abs(want)) ok = 0;
                }
                if (!nz) ok = f.ref == old;
                std::vector<int> measured(n); for (int i = 0; i < n; ++i) measured[i] = (durIdx(f.ela[i]) == d[i] || std::abs(f.ela[i] - (float) durTab[d[i]]) <= 1e-4) ? 1 : 0;
                ev("{\"e\":\"order\",\"first\":%d,\"o\":%s,\"ref\":%d,\"meas\":%s}", first, jint(f.order).c_str(), ok, jint(measured).c_str());
                f.nmeas++;
            } else f.last = 0;
        }
        else if (op == "wait") { ev("{\"e\":\"call\",\"op\":\"wait\"}"); cppadcg_thpool_wait(); ev("{\"e\":\"ret\",\"v\":0}"); }
        else if (op == "shutdown") { ev("{\"e\":\"call\",\"op\":\"shutdown\"}"); cppadcg_thpool_shutdown();
            ev("{\"e\":\"ret\",\"v\":%d}", (int) liveAlloc.size()); }
        else { fprintf(stderr, "bad op %s\n", op.c_str()); _exit(3); }
    }
    return nullptr;
}
static void runOne(const std::string& scen, uint64_t seed) {
    rs = seed * 0x9E3779B97F4A7C15ULL + 0x1234567; for (int i = 0; i < 8; ++i) rnd();
    toks.clear(); std::istringstream is(scen); std::string t; while (is >> t) toks.push_back(t);
    F.clear(); MX.clear(); SEMV.clear(); fns.clear(); liveAlloc.clear(); nextJob = 0; points = 0; vtime = 0; lowPrio = 0;
    fairFrom = 60000; maxPoints = 400000;
    int r = (int) (seed % 8);
    spurious = seed % 5 == 3;
    if (r < 4) strategy = 1; else if (r < 6) { strategy = 0; pSwitch = 0.02 + 0.3 * rnd01(); } else strategy = 2;
    changePts.clear(); long est = 300 + (long) (rnd() % 3000); int d = 1 + (int) (rnd() % 6); for (int i = 0; i < d; ++i) changePts.push_back(1 + (long) (rnd() % est));
    auto* m = new Fiber(); memset((void*) &m->ctx, 0, sizeof m->ctx); m->stk = getStk(); m->st = READY; m->id = 0; m->prio = 500; m->run = 0; m->cpu = 0; m->fake = nullptr; m->timed = m->notified = m->detached = m->joined = false;
    static ucontext_t back; static void* bfake; static bool finished; finished = false;
    static const void* bstk; static size_t bsz;
    F.push_back(m);
    m->fn = client; m->arg = nullptr;
    getcontext(&m->ctx); m->ctx.uc_stack.ss_sp = m->stk; m->ctx.uc_stack.ss_size = STK; m->ctx.uc_link = nullptr;
    struct W { static void go() {
        __sanitizer_finish_switch_fiber(nullptr, &bstk, &bsz);
        active = true; client(nullptr); 
        // let the workers settle: the pool must be quiescent or idle
        active = false;
        finished = true; Fiber* me = cur; me->st = DONE;
        __sanitizer_start_switch_fiber(nullptr, bstk, bsz);
        setcontext(&back);
    } };
    makecontext(&m->ctx, (void (*)()) W::go, 0);
    cur = m;
    getcontext(&back);
    if (!finished) {
        __sanitizer_start_switch_fiber(&bfake, m->stk, STK);
        setcontext(&m->ctx);
    }
    __sanitizer_finish_switch_fiber(bfake, nullptr, nullptr);
    for (auto* f : F) { __asan_unpoison_memory_region(f->stk, STK); freeStk.push_back(f->stk); delete f; }
    F.clear();
    sh->points += points;
}
static void onDeath() { }
int main(int argc, char** argv) {
    if (argc < 7) return 3;
    std::ifstream in(argv[1]); std::vector<std::string> sc; std::string l; while (std::getline(in, l)) sc.push_back(l);
    size_t a = atol(argv[3]), b = atol(argv[4]); if (b > sc.size()) b = sc.size();
    long seeds = atol(argv[5]); long seed0 = atol(argv[6]);
    bool slice = argc > 7; long maxSec = slice ? atol(argv[7]) : 0; time_t t0 = time(nullptr);
    sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    FILE* out = fopen(argv[2], "w");
    std::unordered_set<std::string> seen; long execs = 0, distinct = 0;
    for (long s = 0; s < seeds; ++s) {
        for (size_t i = a; i < b; ++i) {
            if (maxSec && time(nullptr) - t0 > maxSec) goto end;
            // the pool keeps static state, so each execution gets a fresh process image (fork)
            sh->len = 0; sh->done = 0;
            pid_t pid = fork();
            if (pid == 0) { int fd = open("/dev/null", O_WRONLY); if (!getenv("SX_DEBUG")) { dup2(fd, 2); } alarm(20); runOne(sc[i], (uint64_t) (seed0 + s)); sh->done = 1; _exit(0); }
            int stt = 0; waitpid(pid, &stt, 0);
            ++execs;
            if (!sh->done) { if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGALRM) ev("{\"e\":\"hang\",\"d\":\"real time\"}"); else ev("{\"e\":\"crash\",\"d\":\"memory error or abort\"}"); }
            std::string tr(sh->buf, sh->len);
            if (seen.insert(std::to_string(i) + tr).second) { ++distinct; fprintf(out, "{\"s\":%zu,\"seed\":%ld,\"ev\":[%s]}\n", i, seed0 + s, tr.c_str()); }
        }
    }
end:
    fclose(out);
    printf("{\"execs\":%ld,\"distinct\":%ld,\"points\":%ld}\n", execs, distinct, (long) sh->points);
    return 0;
}
