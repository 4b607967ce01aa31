/* libsim: deterministic scheduler for threads, forked processes and OpenMP teams.
 *
 * Exactly one actor owns the token at any time.  All scheduling state lives in a
 * MAP_SHARED region so that forked processes take part.  Every decision comes from one
 * PRNG seeded by sim_start (or from an explicit trace of switches, for replay).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#define MAXA 768
#define MAXF 16
#define MAXT 400000
#define EXPORT __attribute__((visibility("default")))

enum { A_FREE, A_RUN, A_BLOCK, A_DEAD };
enum { P_SYNC, P_LINE, P_MEM, NCLASS };
enum { K_MAIN, K_THREAD, K_PROC, K_OMP, NKIND };
enum { V_NONE, V_DONE, V_DEADLOCK, V_VTIME, V_STEPS, V_ABORT };
enum { F_NONE, F_KILL, F_STALL, F_RAISE, F_INTR };
enum { W_NOTIFY, W_TIMEOUT, W_INTR };

typedef struct {
    _Atomic uint32_t go;
    int32_t  state, kind, ord, pid, parent, exitcode, wake, intr, task, interruptible;
    uint64_t res;
    int64_t  deadline, stall;
    uint64_t n[NCLASS], nall;
    uint64_t prio;
} actor_t;

typedef struct {
    int32_t  kind, ord, cls, action;  /* kind -1: global step trigger */
    uint64_t nth;
    int64_t  arg;
    int32_t  fired, victim;
} fault_t;

typedef struct {
    uint64_t ev;
    int32_t  to, preempt;
} tr_t;

typedef struct {
    int32_t  active, verdict, cur, nact;
    int32_t  strat, nofork, dbg, pgid;
    uint64_t rng[4];
    uint64_t ev, next_mem, steps, switches, preempts, hash;
    uint64_t gap[NCLASS], cd[NCLASS];
    uint64_t npoint[NCLASS];
    int64_t  now, tick, max_now, intr_at;
    uint64_t max_steps;
    uint64_t prio_lo;
    int32_t  kcount[NKIND];
    int32_t  nfault, pad0;
    fault_t  fault[MAXF];
    uint64_t fired[8];
    int32_t  ntrace_in, itrace, ntrace_out, trace_over;
    /* planner / allocator monitors (summed over processes) */
    uint64_t planner_conc, bad_free, overflow, uaf, nalloc, nfree;
    uint64_t max_par[NKIND];
    char     msg[512];
    uint64_t grng;
    int32_t  garbage, pad1;
    int32_t  par[NKIND];
    uint64_t counter[64];   /* user counters shared by all processes */
    actor_t  a[MAXA];
    tr_t     tin[MAXT];
    tr_t     tout[MAXT];
} sim_t;

static sim_t*                                             S;
static __thread int tl_id __attribute__((tls_model("initial-exec")))      = -1;
static __thread int tl_noyield __attribute__((tls_model("initial-exec"))) = 0;

static void die_group(int verdict, const char* m);

/* ------------------------------------------------------------------ prng */
static uint64_t splitmix(uint64_t* x)
{
    uint64_t z = (*x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd(void)
{
    uint64_t* s = S->rng;
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
static uint64_t rndn(uint64_t n) { return n ? rnd() % n : 0; }
static uint64_t gapdraw(uint64_t mean)
{
    if(mean <= 1) return 1;
    /* roughly geometric: product of a uniform and a power of two burst */
    uint64_t g = 1 + rndn(2 * mean - 1);
    if(rndn(8) == 0) g = 1 + rndn(mean / 4 + 1);
    return g;
}

/* ------------------------------------------------------------------ futex */
static void fwait(_Atomic uint32_t* p, uint32_t v) { syscall(SYS_futex, p, FUTEX_WAIT, v, NULL, NULL, 0); }
static void fwake(_Atomic uint32_t* p) { syscall(SYS_futex, p, FUTEX_WAKE, 1, NULL, NULL, 0); }
static void park(int me)
{
    actor_t* a = &S->a[me];
    while(atomic_load(&a->go) == 0) fwait(&a->go, 0);
    atomic_store(&a->go, 0);
}
static void unpark(int id)
{
    S->cur = id;
    atomic_store(&S->a[id].go, 1);
    fwake(&S->a[id].go);
}

/* ------------------------------------------------------------------ choice */
static void mix(uint64_t v) { S->hash = (S->hash ^ v) * 0x100000001b3ULL; S->hash ^= S->hash >> 29; }

static int collect(int* out)
{
    int n = 0;
    for(;;)
    {
        int64_t best = INT64_MAX;
        for(int i = 0; i < S->nact; i++)
        {
            actor_t* a = &S->a[i];
            if(a->state == A_BLOCK && a->deadline >= 0)
            {
                if(a->deadline <= S->now) { a->state = A_RUN; a->wake = W_TIMEOUT; }
                else if(a->deadline < best) best = a->deadline;
            }
            if(a->state == A_RUN)
            {
                if(a->stall <= S->now) out[n++] = i;
                else if(a->stall < best) best = a->stall;
            }
        }
        if(n) return n;
        if(best == INT64_MAX) return 0;
        S->now = best;
        if(S->now > S->max_now) die_group(V_VTIME, "virtual time limit reached");
    }
}

static void rec(int to, int preempt)
{
    S->switches++;
    S->preempts += preempt;
    mix(S->ev * 1024 + to);
    if(S->ntrace_out < MAXT)
    {
        tr_t* t = &S->tout[S->ntrace_out++];
        t->ev = S->ev; t->to = to; t->preempt = preempt;
    }
    else S->trace_over = 1;
}

/* choose who runs next; forced: the current actor cannot continue */
static int choose(int me, int forced)
{
    int c[MAXA];
    int n = collect(c);
    if(n == 0)
    {
        char m[400]; int o = 0;
        o += snprintf(m, sizeof m, "deadlock at ev=%lu:", (unsigned long) S->ev);
        for(int i = 0; i < S->nact && o < 340; i++)
            if(S->a[i].state == A_BLOCK)
                o += snprintf(m + o, sizeof m - o, " a%d(k%d)@%lx", i, S->a[i].kind, (unsigned long) S->a[i].res);
        die_group(V_DEADLOCK, m);
    }
    int to;
    if(S->strat == 3)
    {
        to = -1;
        if(forced)
        {
            /* use the recorded choice when it fits, otherwise the lowest runnable */
            while(S->itrace < S->ntrace_in && S->tin[S->itrace].ev < S->ev) S->itrace++;
            if(S->itrace < S->ntrace_in && S->tin[S->itrace].ev == S->ev)
            {
                int w = S->tin[S->itrace++].to;
                for(int i = 0; i < n; i++) if(c[i] == w) to = w;
            }
            if(to < 0) to = c[0];
        }
        else
        {
            to = me;
            int w = S->tin[S->itrace++].to;
            for(int i = 0; i < n; i++) if(c[i] == w) to = w;
        }
    }
    else if(S->strat == 1)
    {
        to = c[0];
        for(int i = 1; i < n; i++) if(S->a[c[i]].prio > S->a[to].prio) to = c[i];
    }
    else
        to = c[rndn(n)];
    return to;
}

static void set_next_mem(void)
{
    if(S->strat == 3)
    {
        while(S->itrace < S->ntrace_in && S->tin[S->itrace].ev < S->ev) S->itrace++;
        S->next_mem = S->itrace < S->ntrace_in ? S->tin[S->itrace].ev : UINT64_MAX;
        return;
    }
    S->next_mem = S->gap[P_MEM] ? S->ev + gapdraw(S->gap[P_MEM]) : UINT64_MAX;
    if(S->next_mem > S->ev + 50000) S->next_mem = S->ev + 50000;   /* so that step/time limits apply inside kernels */
}

static void hand(int me, int to, int preempt)
{
    if(to == me) return;
    rec(to, preempt);
    unpark(to);
    park(me);
}

/* returns F_RAISE / F_INTR codes for Python points */
static int fire(int me, int cls)
{
    actor_t* a = &S->a[me];
    int ret = 0;
    for(int i = 0; i < S->nfault; i++)
    {
        fault_t* f = &S->fault[i];
        if(f->fired) continue;
        if(f->kind < 0)
        {
            if(S->steps < f->nth) continue;
        }
        else
        {
            if(f->kind != a->kind || (f->ord >= 0 && f->ord != a->ord)) continue;
            if(f->cls >= 0 && f->cls != cls) continue;
            uint64_t c = f->cls >= 0 ? a->n[f->cls] : a->nall;
            if(c < f->nth) continue;
        }
        if(f->action == F_KILL)
        {
            if(a->kind != K_PROC) continue;
            f->fired = 1; f->victim = me; S->fired[F_KILL]++;
            mix(0x1111 + me);
            a->exitcode = (int) f->arg;
            a->state = A_DEAD;
            for(int j = 0; j < S->nact; j++)
                if(S->a[j].state == A_BLOCK && S->a[j].res == (0xE000000000ULL + me)) { S->a[j].state = A_RUN; S->a[j].wake = W_NOTIFY; }
            int to = choose(me, 1);
            rec(to, 0);
            unpark(to);
            raise(SIGKILL);
            for(;;) pause();
        }
        else if(f->action == F_STALL)
        {
            f->fired = 1; f->victim = me; S->fired[F_STALL]++;
            a->stall = S->now + f->arg;
        }
        else if(f->action == F_RAISE)
        {
            if(cls != P_LINE || (a->kind != K_MAIN && a->task <= 0)) continue;
            f->fired = 1; f->victim = me; S->fired[F_RAISE]++;
            ret = F_RAISE;
        }
        else if(f->action == F_INTR)
        {
            f->fired = 1; f->victim = 0; S->fired[F_INTR]++;
            S->a[0].intr = 1;
            S->intr_at = S->now;
            if(S->a[0].state == A_BLOCK && S->a[0].interruptible) { S->a[0].state = A_RUN; S->a[0].wake = W_INTR; }
            if(f->arg)
                for(int j = 1; j < S->nact; j++)
                    if(S->a[j].kind == K_PROC && S->a[j].state != A_DEAD)
                    {
                        S->a[j].intr = 1;
                        if(S->a[j].state == A_BLOCK && S->a[j].interruptible) { S->a[j].state = A_RUN; S->a[j].wake = W_INTR; }
                    }
        }
    }
    return ret;
}

static int point(int cls)
{
    int me = tl_id;
    actor_t* a = &S->a[me];
    S->npoint[cls]++;
    S->steps++;
    S->now += S->tick;
    a->n[cls]++; a->nall++;
    if(S->steps > S->max_steps) die_group(V_STEPS, "step limit reached");
    if(S->now > S->max_now) die_group(V_VTIME, "virtual time limit reached");
    int ret = S->nfault ? fire(me, cls) : 0;
    int sw = 0, forced = 0;
    if(a->stall > S->now) { sw = 1; forced = 1; }
    else if(S->strat == 3)
    {
        while(S->itrace < S->ntrace_in && S->tin[S->itrace].ev < S->ev) S->itrace++;
        sw = S->itrace < S->ntrace_in && S->tin[S->itrace].ev == S->ev && S->tin[S->itrace].preempt;
    }
    else if(cls == P_MEM)
        sw = S->gap[P_MEM] > 0;
    else if(S->gap[cls])
    {
        if(--S->cd[cls] == 0) { S->cd[cls] = gapdraw(S->gap[cls]); sw = 1; }
    }
    if(sw && !forced && S->strat == 1 )
        a->prio = --S->prio_lo;
    if(sw)
    {
        int to = choose(me, forced);
        hand(me, to, 1);
    }
    if(cls == P_MEM || S->strat == 3) set_next_mem();
    return ret;
}

/* ------------------------------------------------------------------ API */
EXPORT size_t sim_region_size(void) { return sizeof(sim_t); }

static void fork_child(void) { tl_id = -1; tl_noyield = 0; }

EXPORT void* sim_map(void)
{
    static int once;
    if(!once) { once = 1; pthread_atfork(NULL, NULL, fork_child); }
    S = mmap(NULL, sizeof(sim_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return S == MAP_FAILED ? NULL : S;
}

EXPORT void sim_reset(void)
{
    size_t head = offsetof(sim_t, tin);
    memset(S, 0, head);
    tl_id = -1;
}

static void crash_handler(int sig)
{
    if(S && S->active && tl_id >= 0 && S->a[tl_id].kind == K_PROC)
    {
        actor_t* a = &S->a[tl_id];
        a->exitcode = -sig;
        a->state = A_DEAD;
        S->counter[60]++;
        for(int j = 0; j < S->nact; j++)
            if(S->a[j].state == A_BLOCK && S->a[j].res == (0xE000000000ULL + tl_id)) { S->a[j].state = A_RUN; S->a[j].wake = W_NOTIFY; }
        int to = choose(tl_id, 1);
        rec(to, 0);
        unpark(to);
        raise(SIGKILL);
    }
    signal(sig, SIG_DFL);
    raise(sig);
}

EXPORT void sim_start(uint64_t seed, int strat, uint64_t gs, uint64_t gl, uint64_t gm, int64_t tick,
                      uint64_t max_steps, int64_t max_now)
{
    uint64_t x = seed ^ 0x5851f42d4c957f2dULL;
    for(int i = 0; i < 4; i++) S->rng[i] = splitmix(&x);
    S->strat = strat;
    S->gap[P_SYNC] = gs; S->gap[P_LINE] = gl; S->gap[P_MEM] = gm;
    for(int i = 0; i < NCLASS; i++) S->cd[i] = S->gap[i] ? gapdraw(S->gap[i]) : 0;
    S->tick = tick;
    S->max_steps = max_steps; S->max_now = max_now;
    S->prio_lo = 1ULL << 40;
    S->hash = 0xcbf29ce484222325ULL;
    S->nact = 1; S->cur = 0;
    memset(&S->a[0], 0, sizeof(actor_t));
    S->a[0].state = A_RUN; S->a[0].kind = K_MAIN; S->a[0].deadline = -1; S->a[0].pid = getpid();
    S->a[0].prio = (1ULL << 41) + rnd() % (1 << 20);
    S->kcount[K_MAIN] = 1;
    S->ev = 0;
    S->pgid = getpgrp();
    set_next_mem();
    tl_id = 0;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = crash_handler;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGABRT, &sa, NULL); sigaction(SIGILL, &sa, NULL);
    S->active = 1;
}
EXPORT void sim_stop(int verdict)
{
    S->active = 0;
    S->verdict = verdict;
    tl_id = -1;
}
static void die_group(int verdict, const char* m)
{
    if(S->verdict == V_NONE)
    {
        S->verdict = verdict;
        snprintf(S->msg, sizeof S->msg, "%s", m);
    }
    S->active = 0;
    if(S->pgid > 1 && getenv("SIM_STACKS")) { kill(-S->pgid, SIGUSR1); usleep(500000); }
    if(S->pgid > 1) kill(-S->pgid, SIGKILL);
    for(;;) pause();
}
EXPORT void sim_abort(const char* m) { die_group(V_ABORT, m); }

EXPORT int sim_active(void) { return S && S->active && tl_id >= 0; }
EXPORT int sim_id(void) { return tl_id; }
EXPORT int64_t sim_now(void) { return S ? S->now : 0; }
EXPORT int64_t sim_intr_at(void) { return S ? S->intr_at : 0; }
EXPORT void sim_advance(int64_t d) { S->now += d; }
EXPORT uint64_t sim_ev(void) { return S->ev; }
EXPORT uint64_t sim_rand(uint64_t n) { return rndn(n); }

EXPORT int sim_spawn(int kind)
{
    int id = -1;
    for(int i = 1; i < S->nact; i++) if(S->a[i].state == A_FREE) { id = i; break; }
    if(id < 0)
    {
        if(S->nact >= MAXA) die_group(V_ABORT, "too many actors");
        id = S->nact++;
    }
    actor_t* a = &S->a[id];
    memset(a, 0, sizeof *a);
    a->kind = kind; a->ord = S->kcount[kind]++; a->parent = tl_id; a->deadline = -1;
    a->state = A_RUN;
    a->exitcode = 1 << 20;
    a->prio = (1ULL << 41) + (S->strat == 1 ? rnd() % (1 << 20) : 0);
    mix(0x7777 + kind);
    return id;
}
EXPORT void sim_unspawn(int id) { S->a[id].state = A_DEAD; }
EXPORT void sim_attach(int id)
{
    tl_id = id;
    tl_noyield = 0;
    S->a[id].pid = getpid();
    park(id);
}
static void wake_res(uint64_t res, int n)
{
    if(n <= 0 || n >= MAXA)
    {
        for(int j = 0; j < S->nact; j++)
            if(S->a[j].state == A_BLOCK && S->a[j].res == res) { S->a[j].state = A_RUN; S->a[j].wake = W_NOTIFY; }
        return;
    }
    while(n-- > 0)
    {
        int c[MAXA], k = 0;
        for(int j = 0; j < S->nact; j++) if(S->a[j].state == A_BLOCK && S->a[j].res == res) c[k++] = j;
        if(!k) return;
        int j = c[S->strat == 3 ? 0 : rndn(k)];
        S->a[j].state = A_RUN; S->a[j].wake = W_NOTIFY;
    }
}
EXPORT void sim_exit(int code)
{
    int me = tl_id;
    if(me < 0) return;
    S->a[me].state = A_DEAD;
    S->a[me].exitcode = code;
    wake_res(0xE000000000ULL + me, 0);
    S->ev++;
    int to = choose(me, 1);
    rec(to, 0);
    tl_id = -1;
    unpark(to);
    /* do not touch shared scheduling state after this point */
}
/* another actor (a process) is removed by the current one */
EXPORT void sim_reap(int id, int code)
{
    actor_t* a = &S->a[id];
    if(a->state == A_DEAD) return;
    a->state = A_DEAD; a->exitcode = code;
    mix(0x9999 + id);
    wake_res(0xE000000000ULL + id, 0);
}
EXPORT int sim_alive(int id) { return S->a[id].state != A_DEAD; }
EXPORT int sim_exitcode(int id) { return S->a[id].exitcode; }
EXPORT int sim_kindcount(int kind, int alive)
{
    int n = 0;
    for(int i = 0; i < S->nact; i++)
        if(S->a[i].kind == kind && S->a[i].state != A_FREE && (!alive || S->a[i].state != A_DEAD)) n++;
    return n;
}
EXPORT int sim_yield(int cls)
{
    if(!S || !S->active || tl_id < 0 || tl_noyield) return 0;
    S->ev++;
    return point(cls);
}
/* cheap test used from Python: 1 when the full sim_yield must be called */
EXPORT int sim_tick(int cls)
{
    if(!S || !S->active || tl_id < 0 || tl_noyield) return 0;
    return 1;
}
EXPORT int sim_take_intr(void)
{
    if(tl_id < 0 || !S || !S->active) return 0;
    int r = S->a[tl_id].intr;
    S->a[tl_id].intr = 0;
    return r;
}
/* faults that have not happened yet no longer do */
EXPORT void sim_disarm(void) { for(int i = 0; i < S->nfault; i++) S->fault[i].fired = 1; }
EXPORT int sim_pending_intr(void) { return (tl_id >= 0 && S && S->active) ? S->a[tl_id].intr : 0; }
EXPORT int sim_block(uint64_t res, int64_t timeout, int interruptible)
{
    int me = tl_id;
    actor_t* a = &S->a[me];
    S->ev++; S->steps++; S->now += S->tick;
    a->n[P_SYNC]++; a->nall++; S->npoint[P_SYNC]++;
    if(S->steps > S->max_steps) die_group(V_STEPS, "step limit reached");
    if(S->nfault) fire(me, P_SYNC);
    if(interruptible && a->intr) return W_INTR;
    a->state = A_BLOCK; a->res = res; a->interruptible = interruptible;
    a->deadline = timeout >= 0 ? S->now + timeout : -1;
    a->wake = W_NOTIFY;
    int to = choose(me, 1);
    if(to != me) hand(me, to, 0);
    a->deadline = -1; a->res = 0; a->interruptible = 0;
    if(a->wake == W_INTR) return W_INTR;
    return a->wake;
}
EXPORT void sim_notify(uint64_t res, int n) { if(S && S->active && tl_id >= 0) wake_res(res, n); }
EXPORT void sim_noyield(int d) { tl_noyield += d; }
EXPORT void sim_setid(int id) { tl_id = id; }
EXPORT void sim_add_fault(int kind, int ord, int cls, uint64_t nth, int action, int64_t arg)
{
    if(S->nfault >= MAXF) return;
    fault_t* f = &S->fault[S->nfault++];
    memset(f, 0, sizeof *f);
    f->kind = kind; f->ord = ord; f->cls = cls; f->nth = nth; f->action = action; f->arg = arg;
}
EXPORT int sim_fault_fired(int i) { return S->fault[i].fired; }
EXPORT int sim_fault_victim(int i) { return S->fault[i].victim; }
EXPORT void sim_trace_add(uint64_t ev, int to, int preempt)
{
    if(S->ntrace_in < MAXT) { tr_t* t = &S->tin[S->ntrace_in++]; t->ev = ev; t->to = to; t->preempt = preempt; }
}
EXPORT int sim_trace_len(void) { return S->ntrace_out; }
EXPORT uint64_t sim_trace_ev(int i) { return S->tout[i].ev; }
EXPORT int sim_trace_to(int i) { return S->tout[i].to; }
EXPORT int sim_trace_pre(int i) { return S->tout[i].preempt; }
EXPORT int sim_trace_over(void) { return S->trace_over; }
EXPORT int sim_verdict(void) { return S->verdict; }
EXPORT void sim_set_verdict(int v) { S->verdict = v; }
EXPORT const char* sim_msg(void) { return S->msg; }
EXPORT uint64_t sim_stat(int i)
{
    switch(i)
    {
        case 0: return S->steps;
        case 1: return S->switches;
        case 2: return S->preempts;
        case 3: return S->hash;
        case 4: return S->ev;
        case 5: return (uint64_t) S->now;
        case 6: return S->npoint[P_SYNC];
        case 7: return S->npoint[P_LINE];
        case 8: return S->npoint[P_MEM];
        case 9: return S->nact;
        case 10: return S->planner_conc;
        case 11: return S->bad_free;
        case 12: return S->overflow;
        case 13: return S->uaf;
        case 14: return S->nalloc;
        case 15: return S->nfree;
        case 16: return S->fired[F_KILL];
        case 17: return S->fired[F_STALL];
        case 18: return S->fired[F_RAISE];
        case 19: return S->fired[F_INTR];
        case 20: return S->max_par[K_THREAD];
        case 21: return S->max_par[K_PROC];
        case 22: return S->max_par[K_OMP];
        case 23: return S->kcount[K_THREAD];
        case 24: return S->kcount[K_PROC];
        case 25: return S->kcount[K_OMP];
    }
    return 0;
}
EXPORT void sim_par(int kind, int d)
{
    if(!S) return;
    S->par[kind] += d;
    if(tl_id >= 0) S->a[tl_id].task += d;
    if(S->par[kind] > (int) S->max_par[kind]) S->max_par[kind] = S->par[kind];
}
EXPORT void sim_par_reset(void) { memset(S->par, 0, sizeof S->par); memset(S->max_par, 0, sizeof S->max_par); }
EXPORT uint64_t sim_counter_add(int i, int64_t d) { S->counter[i] += d; return S->counter[i]; }
EXPORT uint64_t sim_counter_get(int i) { return S->counter[i]; }
EXPORT void sim_garbage(int mode, uint64_t seed) { S->garbage = mode; S->grng = seed; }

/* fill memory with run-dependent garbage */
static void garbage_fill(void* p, size_t n, int mode)
{
    unsigned char* b = p;
    uint64_t g = S->grng;
    splitmix(&S->grng);
    switch(mode)
    {
        case 0: memset(b, 0, n); break;
        case 1: memset(b, 0xff, n); break; /* NaN */
        case 2:
            for(size_t i = 0; i + 4 <= n; i += 4) { uint32_t v = (uint32_t) splitmix(&g); memcpy(b + i, &v, 4); }
            break;
        default:
            for(size_t i = 0; i + 4 <= n; i += 4) { float v = (float) (splitmix(&g) % 20001) / 100.0f - 100.0f; memcpy(b + i, &v, 4); }
    }
}
EXPORT void sim_fill(void* p, size_t n) { if(S) garbage_fill(p, n, S->garbage); }

/* ------------------------------------------------------------------ allocator of the instrumented C code */
#define MAGIC 0x51a7b10cc0ffee01ULL
#define FREED 0x51a7b10cdeadbeefULL
#define RZ 224
typedef struct hdr { uint64_t magic; size_t n; struct hdr *prev, *next; unsigned char rz[RZ]; } hdr_t;
_Static_assert(sizeof(hdr_t) == 256, "header");

/* bytes that the native code must not touch: one bit per byte, for the pages that have any */
#define PTAB (1 << 16)
typedef struct { uint64_t page; uint64_t* bits; } ppage_t;
static ppage_t ptab[PTAB];
static int     poison_on, npoison;
EXPORT void sim_poison_enable(int on) { poison_on = on; }
static ppage_t* ppage(uint64_t page, int make)
{
    unsigned h = (unsigned) ((page * 0x9e3779b97f4a7c15ULL) >> 48);
    while(ptab[h].page && ptab[h].page != page) h = (h + 1) & (PTAB - 1);
    if(!ptab[h].page)
    {
        if(!make || npoison > PTAB / 2) return NULL;
        ptab[h].bits = calloc(4096 / 64, 8);
        ptab[h].page = page;
        npoison++;
    }
    return &ptab[h];
}
EXPORT void sim_poison(const void* p, size_t n, int on)
{
    if(!poison_on) return;
    uint64_t a = (uint64_t) p, e = a + n;
    while(a < e)
    {
        ppage_t* q = ppage(a >> 12, on);
        uint64_t end = ((a >> 12) + 1) << 12;
        if(end > e) end = e;
        if(q) for(; a < end; a++)
        {
            if(on) q->bits[(a & 4095) >> 6] |= 1ULL << (a & 63);
            else   q->bits[(a & 4095) >> 6] &= ~(1ULL << (a & 63));
        }
        a = end;
    }
}
static void rep(uint64_t* ctr, const char* what, size_t n);
static void __attribute__((noinline)) poison_check(uint64_t a, size_t n, const char* what)
{
    for(size_t i = 0; i < n; i++)
    {
        ppage_t* q = ppage((a + i) >> 12, 0);
        if(!q) { i += 4095 - ((a + i) & 4095); continue; }
        if(q->bits[((a + i) & 4095) >> 6] >> ((a + i) & 63) & 1)
        {
            if(tl_id < 0 || !S || !S->active) return;
            rep(&S->overflow, what, n);
            return;
        }
    }
}
EXPORT void* sim_memcpy(void* d, const void* s, size_t n)
{
    if(poison_on) { poison_check((uint64_t) s, n, "copy from memory outside the block"); poison_check((uint64_t) d, n, "copy to memory outside the block"); }
    return memmove(d, s, n);
}
EXPORT void* sim_memset(void* d, int c, size_t n)
{
    if(poison_on) poison_check((uint64_t) d, n, "write outside the block");
    return memset(d, c, n);
}
static hdr_t  live = { 0, 0, &live, &live, { 0 } };
static uint64_t nlive, blive;
#define QMAX 128
static hdr_t* quar[QMAX];
static unsigned qi;
static void rep(uint64_t* ctr, const char* what, size_t n)
{
    if(!S) return;
    if(!(*ctr)++) snprintf(S->msg, sizeof S->msg, "%s (block of %zu bytes)", what, n);
}
static void* sim_alloc(size_t n, int zero)
{
    hdr_t* h = NULL;
    if(posix_memalign((void**) &h, 64, sizeof(hdr_t) + n + RZ)) return NULL;   /* the header keeps blocks 64-byte aligned */
    h->magic = MAGIC; h->n = n;
    memset(h->rz, 0xA5, RZ);
    unsigned char* p = (unsigned char*) (h + 1);
    memset(p + n, 0x5A, RZ);
    if(zero) memset(p, 0, n);
    else if(S) garbage_fill(p, n, S->active ? S->garbage : 0);
    h->next = live.next; h->prev = &live; live.next->prev = h; live.next = h;
    nlive++; blive += n;
    if(S) S->nalloc++;
    sim_poison(h, sizeof *h, 1);
    sim_poison(p + n, RZ, 1);
    return p;
}
static void check_block(hdr_t* h)
{
    unsigned char* p = (unsigned char*) (h + 1);
    for(int i = 0; i < RZ; i++) if(h->rz[i] != 0xA5) { rep(&S->overflow, "heap underflow", h->n); return; }
    for(int i = 0; i < RZ; i++) if(p[h->n + i] != 0x5A) { rep(&S->overflow, "heap overflow", h->n); return; }
}
EXPORT void* sim_malloc(size_t n) { return sim_alloc(n, 0); }
EXPORT void* sim_calloc(size_t a, size_t b) { return sim_alloc(a * b, 1); }
EXPORT void sim_free(void* q)
{
    if(!q) return;
    hdr_t* h = (hdr_t*) q - 1;
    if(h->magic == FREED) { rep(&S->bad_free, "double free", h->n); return; }
    if(h->magic != MAGIC) { free(q); return; }
    if(S) check_block(h);
    h->magic = FREED;
    h->prev->next = h->next; h->next->prev = h->prev;
    nlive--; blive -= h->n;
    if(S) S->nfree++;
    memset(q, 0xDB, h->n);
    sim_poison(q, h->n, 1);
    hdr_t* old = quar[qi];
    quar[qi] = h; qi = (qi + 1) % QMAX;
    if(old)
    {
        unsigned char* p = (unsigned char*) (old + 1);
        for(size_t i = 0; i < old->n; i++) if(p[i] != 0xDB) { rep(&S->uaf, "write after free", old->n); break; }
        old->magic = 0;
        sim_poison(old, sizeof *old + old->n + RZ, 0);
        free(old);
    }
}
EXPORT void* sim_realloc(void* q, size_t n)
{
    if(!q) return sim_malloc(n);
    hdr_t* h = (hdr_t*) q - 1;
    if(h->magic != MAGIC) return realloc(q, n);
    void* r = sim_malloc(n);
    memcpy(r, q, h->n < n ? h->n : n);
    sim_free(q);
    return r;
}
EXPORT int sim_posix_memalign(void** out, size_t al, size_t n) { (void) al; *out = sim_malloc(n); return *out ? 0 : ENOMEM; }
EXPORT void* sim_aligned_alloc(size_t al, size_t n) { (void) al; return sim_malloc(n); }
EXPORT char* sim_strdup(const char* s) { char* p = sim_malloc(strlen(s) + 1); strcpy(p, s); return p; }
EXPORT uint64_t sim_live_blocks(void) { return nlive; }
EXPORT uint64_t sim_live_bytes(void) { return blive; }
EXPORT void sim_check_heap(void)
{
    for(hdr_t* h = live.next; h != &live; h = h->next) check_block(h);
    for(int i = 0; i < QMAX; i++)
        if(quar[i])
        {
            unsigned char* p = (unsigned char*) (quar[i] + 1);
            for(size_t k = 0; k < quar[i]->n; k++) if(p[k] != 0xDB) { rep(&S->uaf, "write after free", quar[i]->n); break; }
        }
}
static uint64_t crng = 12345;
EXPORT void sim_crand_seed(uint64_t s) { crng = s; }
EXPORT int sim_crand(void)
{
    if(S && S->active && tl_id >= 0) { S->ev++; if(S->ev >= S->next_mem) point(P_MEM); }
    return (int) (splitmix(&crng) >> 33);
}
EXPORT void sim_csrand(unsigned s) { crng = s; }

/* ------------------------------------------------------------------ memory-access hooks (compiler: -fsanitize=thread, our runtime) */
static inline __attribute__((always_inline)) void mem(void)
{
    if(__builtin_expect(tl_id < 0, 0)) return;
    if(__builtin_expect(++S->ev < S->next_mem, 1)) return;
    if(tl_noyield || !S->active) return;
    point(P_MEM);
}
static inline __attribute__((always_inline)) void acc(void* p, unsigned n, const char* what)
{
    if(__builtin_expect(poison_on, 0)) poison_check((uint64_t) p, n, what);
    mem();
}
#define RD(name, n) EXPORT void name(void* p) { acc(p, n, "read outside the block"); }
#define WR(name, n) EXPORT void name(void* p) { acc(p, n, "write outside the block"); }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void* p) { (void) p; }
EXPORT void __tsan_func_exit(void) {}
RD(__tsan_read1, 1) RD(__tsan_read2, 2) RD(__tsan_read4, 4) RD(__tsan_read8, 8) RD(__tsan_read16, 16)
WR(__tsan_write1, 1) WR(__tsan_write2, 2) WR(__tsan_write4, 4) WR(__tsan_write8, 8) WR(__tsan_write16, 16)
RD(__tsan_unaligned_read2, 2) RD(__tsan_unaligned_read4, 4) RD(__tsan_unaligned_read8, 8) RD(__tsan_unaligned_read16, 16)
WR(__tsan_unaligned_write2, 2) WR(__tsan_unaligned_write4, 4) WR(__tsan_unaligned_write8, 8) WR(__tsan_unaligned_write16, 16)
RD(__tsan_volatile_read1, 1) RD(__tsan_volatile_read2, 2) RD(__tsan_volatile_read4, 4) RD(__tsan_volatile_read8, 8) RD(__tsan_volatile_read16, 16)
WR(__tsan_volatile_write1, 1) WR(__tsan_volatile_write2, 2) WR(__tsan_volatile_write4, 4) WR(__tsan_volatile_write8, 8) WR(__tsan_volatile_write16, 16)
RD(__tsan_vptr_read, 8)
EXPORT void __tsan_vptr_update(void** a, void* b) { (void) a; (void) b; mem(); }
EXPORT void __tsan_read_range(void* p, size_t n) { if(poison_on) poison_check((uint64_t) p, n, "read outside the block"); mem(); }
EXPORT void __tsan_write_range(void* p, size_t n) { if(poison_on) poison_check((uint64_t) p, n, "write outside the block"); mem(); }
#define ATOMICS(B, T) \
EXPORT T __tsan_atomic##B##_load(const volatile T* a, int m) { (void) m; mem(); return *a; } \
EXPORT void __tsan_atomic##B##_store(volatile T* a, T v, int m) { (void) m; mem(); *a = v; } \
EXPORT T __tsan_atomic##B##_exchange(volatile T* a, T v, int m) { (void) m; mem(); T o = *a; *a = v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int m) { (void) m; mem(); T o = *a; *a = o + v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int m) { (void) m; mem(); T o = *a; *a = o - v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int m) { (void) m; mem(); T o = *a; *a = o & v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int m) { (void) m; mem(); T o = *a; *a = o | v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int m) { (void) m; mem(); T o = *a; *a = o ^ v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int m) { (void) m; mem(); T o = *a; *a = ~(o & v); return o; } \
EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int m, int f) \
{ (void) m; (void) f; mem(); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) \
{ (void) m; (void) f; mem(); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int m, int f) \
{ (void) m; (void) f; mem(); T o = *a; if(o == c) *a = v; return o; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned) ATOMICS(64, unsigned long)
EXPORT void __tsan_atomic_thread_fence(int m) { (void) m; mem(); }
EXPORT void __tsan_atomic_signal_fence(int m) { (void) m; }

/* ------------------------------------------------------------------ OpenMP runtime */
typedef struct team {
    int n, alive, in_barrier; unsigned gen;
    void (*fn)(void*); void* data;
    struct team* up;
    long loop_next, loop_end, loop_incr, loop_chunk; int loop_started; unsigned loop_gen, single_gen; int loop_done;
    uint64_t res;
} team_t;
/* what a thread asked for (0: default); every thread has its own, as in libgomp */
static __thread int omp_n __attribute__((tls_model("initial-exec"))), omp_dyn __attribute__((tls_model("initial-exec")));
static int      omp_def = 4;
static __thread team_t* tl_team __attribute__((tls_model("initial-exec")));
static __thread int     tl_num __attribute__((tls_model("initial-exec")));
static __thread unsigned tl_loopgen __attribute__((tls_model("initial-exec"))), tl_singlegen __attribute__((tls_model("initial-exec")));
static uint64_t team_ids;
static int crit_held; /* one global critical: conservative */
static int omp_maxteam = 8;
static int omp_reqmax;

EXPORT void sim_omp_default(int n) { omp_def = n; omp_n = 0; omp_dyn = 0; }
EXPORT int sim_omp_reqmax(int reset) { int r = omp_reqmax; if(reset) omp_reqmax = 0; return r; }
EXPORT int sim_omp_nthreads(void) { return omp_n ? omp_n : omp_def; }

typedef struct { team_t* t; int num, id; } targ_t;
static void* team_thread(void* q)
{
    targ_t a = *(targ_t*) q;
    sim_attach(a.id);
    tl_team = a.t; tl_num = a.num; tl_loopgen = tl_singlegen = 0;
    sim_par(K_OMP, 1);
    a.t->fn(a.t->data);
    sim_par(K_OMP, -1);
    a.t->alive--;
    wake_res(a.t->res, 0);
    sim_exit(0);
    return NULL;
}
EXPORT void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned flags)
{
    (void) flags;
    int n = nt ? (int) nt : (omp_n ? omp_n : omp_def);
    if(n > omp_reqmax) omp_reqmax = n;
    int simd = sim_active() && !tl_noyield;
    if(!simd || tl_team) n = 1;
    if(n > omp_maxteam) n = omp_maxteam;
    team_t t; memset(&t, 0, sizeof t);
    t.n = n; t.fn = fn; t.data = data; t.up = tl_team; t.alive = n - 1;
    int sn = tl_num; unsigned slg = tl_loopgen, ssg = tl_singlegen;
    if(simd) t.res = 0xA000000000ULL + ((uint64_t) S->cur << 20) + team_ids++;
    pthread_t th[64]; targ_t ta[64];
    for(int i = 1; i < n; i++)
    {
        ta[i].t = &t; ta[i].num = i; ta[i].id = sim_spawn(K_OMP);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
        if(pthread_create(&th[i], &at, team_thread, &ta[i])) die_group(V_ABORT, "pthread_create");
        pthread_attr_destroy(&at);
    }
    tl_team = &t; tl_num = 0; tl_loopgen = tl_singlegen = 0;
    if(simd) sim_par(K_OMP, 1);
    fn(data);
    if(simd) sim_par(K_OMP, -1);
    while(t.alive > 0) sim_block(t.res, -1, 0);
    for(int i = 1; i < n; i++) { pthread_join(th[i], NULL); S->a[ta[i].id].state = A_FREE; }
    tl_team = t.up; tl_num = sn; tl_loopgen = slg; tl_singlegen = ssg;
}
EXPORT void GOMP_barrier(void)
{
    team_t* t = tl_team;
    if(!t || t->n == 1) return;
    unsigned g = t->gen;
    if(++t->in_barrier == t->n) { t->in_barrier = 0; t->gen++; t->loop_started = 0; wake_res(t->res + 0x80000, 0); sim_yield(P_SYNC); return; }
    while(t->gen == g) sim_block(t->res + 0x80000, -1, 0);
}
EXPORT int omp_get_thread_num(void) { return tl_team ? tl_num : 0; }
EXPORT int omp_get_num_threads(void) { return tl_team ? tl_team->n : 1; }
EXPORT int omp_get_max_threads(void) { return omp_n ? omp_n : omp_def; }
EXPORT int omp_get_num_procs(void) { return omp_def; }
EXPORT int omp_in_parallel(void) { return tl_team && tl_team->n > 1; }
EXPORT void omp_set_num_threads(int n) { if(n > 0) omp_n = n; }
EXPORT void omp_set_dynamic(int n) { omp_dyn = n != 0; }
EXPORT int omp_get_dynamic(void) { return omp_dyn; }
EXPORT void omp_set_nested(int n) { (void) n; }
EXPORT double omp_get_wtime(void) { return S ? S->now * 1e-9 : 0; }
static void crit_enter(void)
{
    if(!sim_active()) return;
    sim_yield(P_SYNC);
    while(crit_held) sim_block(0xC000000000ULL, -1, 0);
    crit_held = 1;
}
static void crit_leave(void) { if(!sim_active()) return; crit_held = 0; wake_res(0xC000000000ULL, 0); sim_yield(P_SYNC); }
EXPORT void GOMP_critical_start(void) { crit_enter(); }
EXPORT void GOMP_critical_end(void) { crit_leave(); }
EXPORT void GOMP_critical_name_start(void** p) { (void) p; crit_enter(); }
EXPORT void GOMP_critical_name_end(void** p) { (void) p; crit_leave(); }
EXPORT void GOMP_atomic_start(void) { crit_enter(); }
EXPORT void GOMP_atomic_end(void) { crit_leave(); }
EXPORT int GOMP_single_start(void)
{
    team_t* t = tl_team;
    if(!t || t->n == 1) return 1;
    sim_yield(P_SYNC);
    tl_singlegen++;
    if(t->single_gen < tl_singlegen) { t->single_gen = tl_singlegen; return 1; }
    return 0;
}
/* work-sharing loops: dynamic distribution decided by who gets there first, i.e. by the scheduler */
static int loop_next(long* a, long* b)
{
    team_t* t = tl_team;
    sim_yield(P_SYNC);
    if(t->loop_incr > 0 ? t->loop_next >= t->loop_end : t->loop_next <= t->loop_end) return 0;
    long c = t->loop_chunk > 0 ? t->loop_chunk : 1;
    *a = t->loop_next;
    *b = *a + c * t->loop_incr;
    if(t->loop_incr > 0 ? *b > t->loop_end : *b < t->loop_end) *b = t->loop_end;
    t->loop_next = *b;
    return 1;
}
static team_t solo;
static int loop_start(long s, long e, long i, long c, long* a, long* b)
{
    if(!tl_team) { solo.n = 1; tl_team = &solo; }
    team_t* t = tl_team;
    tl_loopgen++;
    if(t->loop_gen < tl_loopgen)
    {
        t->loop_gen = tl_loopgen;
        t->loop_next = s; t->loop_end = e; t->loop_incr = i; t->loop_chunk = c;
    }
    return loop_next(a, b);
}
#define LOOPS(k) \
EXPORT int GOMP_loop_##k##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); } \
EXPORT int GOMP_loop_##k##_next(long* a, long* b) { return loop_next(a, b); } \
EXPORT void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned fl);
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(static)
LOOPS(maybe_nonmonotonic_runtime) LOOPS(runtime)
typedef struct { void (*fn)(void*); void* d; long s, e, i, c; } pl_t;
static void pl_run(void* q)
{
    pl_t* p = q;
    team_t* t = tl_team;
    tl_loopgen = 1;
    if(t->loop_gen < 1) { t->loop_gen = 1; t->loop_next = p->s; t->loop_end = p->e; t->loop_incr = p->i; t->loop_chunk = p->c; }
    p->fn(p->d);
}
static void par_loop(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c)
{
    pl_t p = { fn, d, s, e, i, c };
    GOMP_parallel(pl_run, &p, nt, 0);
}
#define PLOOP(k) EXPORT void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned fl) { (void) fl; par_loop(fn, d, nt, s, e, i, c); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided) PLOOP(static)
PLOOP(maybe_nonmonotonic_runtime) PLOOP(runtime)
EXPORT void GOMP_loop_end(void) { GOMP_barrier(); }
EXPORT void GOMP_loop_end_nowait(void) {}

/* ------------------------------------------------------------------ FFTW planner seam */
static int planner_safe, planner_busy;
static void* fft(const char* name)
{
    static void *h, *ht;
    if(!h) { h = dlopen("libfftw3f.so.3", RTLD_NOW | RTLD_GLOBAL); ht = dlopen("libfftw3f_threads.so.3", RTLD_NOW | RTLD_GLOBAL); }
    void* p = h ? dlsym(h, name) : NULL;
    if(!p && ht) p = dlsym(ht, name);
    if(!p) { fprintf(stderr, "libsim: no %s\n", name); abort(); }
    return p;
}
EXPORT void sim_fft_reset(void) { planner_safe = 0; planner_busy = 0; }
static void plan_in(void)
{
    if(!sim_active()) { return; }
    sim_yield(P_SYNC);
    if(planner_safe) while(planner_busy) sim_block(0xF000000000ULL, -1, 0);
    else if(planner_busy) rep(&S->planner_conc, "FFT planner entered by two threads at once", 0);
    planner_busy++;
    sim_yield(P_SYNC); sim_yield(P_MEM);
}
static void plan_out(void)
{
    if(!sim_active()) return;
    sim_yield(P_MEM);
    planner_busy--;
    wake_res(0xF000000000ULL, 0);
}
EXPORT void fftwf_make_planner_thread_safe(void) { planner_safe = 1; }
EXPORT int fftwf_init_threads(void) { return 1; }
EXPORT void fftwf_plan_with_nthreads(int n) { (void) n; }
EXPORT void fftwf_cleanup(void) {}
EXPORT void fftwf_cleanup_threads(void) {}
EXPORT void* fftwf_plan_dft_1d(int n, void* a, void* b, int s, unsigned f)
{ plan_in(); void* p = ((void* (*) (int, void*, void*, int, unsigned)) fft("fftwf_plan_dft_1d"))(n, a, b, s, f); plan_out(); if(S) S->counter[50]++; return p; }
EXPORT void* fftwf_plan_dft_2d(int n, int m, void* a, void* b, int s, unsigned f)
{ plan_in(); void* p = ((void* (*) (int, int, void*, void*, int, unsigned)) fft("fftwf_plan_dft_2d"))(n, m, a, b, s, f); plan_out(); if(S) S->counter[50]++; return p; }
EXPORT void* fftwf_plan_many_dft(int r, const int* n, int h, void* a, const int* ie, int is, int id, void* b, const int* oe, int os, int od, int s, unsigned f)
{ plan_in(); void* p = ((void* (*) (int, const int*, int, void*, const int*, int, int, void*, const int*, int, int, int, unsigned)) fft("fftwf_plan_many_dft"))(r, n, h, a, ie, is, id, b, oe, os, od, s, f); plan_out(); if(S) S->counter[50]++; return p; }
EXPORT void* fftwf_plan_dft(int r, const int* n, void* a, void* b, int s, unsigned f)
{ plan_in(); void* p = ((void* (*) (int, const int*, void*, void*, int, unsigned)) fft("fftwf_plan_dft"))(r, n, a, b, s, f); plan_out(); if(S) S->counter[50]++; return p; }
EXPORT void fftwf_destroy_plan(void* p) { plan_in(); ((void (*)(void*)) fft("fftwf_destroy_plan"))(p); plan_out(); if(S && p) S->counter[51]++; }
EXPORT void fftwf_execute(void* p) { sim_yield(P_MEM); ((void (*)(void*)) fft("fftwf_execute"))(p); sim_yield(P_MEM); }
EXPORT void fftwf_execute_dft(void* p, void* a, void* b) { sim_yield(P_MEM); ((void (*)(void*, void*, void*)) fft("fftwf_execute_dft"))(p, a, b); sim_yield(P_MEM); }
EXPORT void* fftwf_malloc(size_t n) { return sim_malloc((n + 15) & ~15UL); }
EXPORT void* fftwf_alloc_complex(size_t n) { return sim_malloc(8 * n); }
EXPORT void* fftwf_alloc_real(size_t n) { return sim_malloc(4 * n); }
EXPORT void fftwf_free(void* p) { sim_free(p); }
