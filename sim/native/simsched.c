/* Deterministic scheduler for real threads: exactly one registered task runs at a
 * time (it "holds the baton"); every other one is parked on its own semaphore.
 * Yield points come from two places: Python bytecode/line events (sim_tick /
 * sim_yield, called by the runtime) and compiler-inserted coverage callbacks in
 * the instrumented C backend (edges, loads, stores).  All choices come from one
 * PRNG, or from an explicit list of decisions when a run is replayed. */
#define _GNU_SOURCE
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>

#define MAXT 2048
#define MAXD 400000
enum { FREE = 0, RUNNABLE, BLOCKED, DONE };

typedef struct { sem_t sem; int state; uint64_t on; uint32_t prio; uint64_t wake_at; } task_t;
typedef struct { uint64_t ev; int32_t to; int32_t kind; } dec_t;   /* kind 0 preempt, 1 forced, 2 raise */

static task_t T[MAXT];
static int ntasks, cur;
static volatile int active;
static __thread int self = -1;
static uint64_t events, next_switch, max_events;
static uint64_t c_events, py_events;
static uint64_t rng_s[2];
static int mode;             /* 0 prng uniform, 1 prng priority (PCT), 2 list, 3 never preempt */
static double mean_gap;
static uint64_t preempt_budget;
static dec_t *D; static uint64_t nD, nD_total; static uint64_t hash_;
static dec_t *L; static uint64_t nL, posL;
static uint64_t n_preempt, n_forced, n_c_preempt;
static int c_yield_enabled = 1;
static int (*gil_check)(void);
/* code places ("sites"): a census of how often each task passes each place of the C backend, and
 * targets: the n-th passage of a place by a task is a change point (mode 4) */
typedef struct { uint64_t site; uint32_t task; uint32_t flags; uint64_t n; } cen_t;   /* flags: 1 stores to static memory, 2 loads from it */
typedef struct { uint64_t site; int32_t task; int32_t done; uint64_t n, seen; } tgt_t;
#define NCEN (1u << 16)
static cen_t *CEN; static int census_on;
static tgt_t TG[64]; static int nTG;
static uintptr_t mod_base, mod_w0, mod_w1;      /* image of the instrumented backend, its writable part */
static uint32_t low_prio;

#define IDLE_KEY 0xD000000000000000ULL      /* waiting until no other task can run */

static uint64_t rnd(void){
    uint64_t s1 = rng_s[0]; const uint64_t s0 = rng_s[1];
    rng_s[0] = s0; s1 ^= s1 << 23;
    rng_s[1] = s1 ^ s0 ^ (s1 >> 17) ^ (s0 >> 26);
    return rng_s[1] + s0;
}
static uint64_t smix(uint64_t *x){ uint64_t z = (*x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z>>30))*0xbf58476d1ce4e5b9ULL; z = (z ^ (z>>27))*0x94d049bb133111ebULL; return z ^ (z>>31); }

static uint64_t gap(void){
    /* geometric-ish with the given mean, integer arithmetic only */
    if(mean_gap <= 1.0) return 1;
    uint64_t m = (uint64_t) mean_gap;
    uint64_t r = rnd() & 0xffff, g;
    /* heavy-tailed mixture: most gaps near the mean, some very short */
    if(r < 0x3000) g = 1 + rnd() % (1 + m/64);
    else if(r < 0xd000) g = 1 + rnd() % (2*m);
    else g = 1 + rnd() % (8*m);
    return g;
}
static void die(int code, const char *msg){
    if(write(2, msg, strlen(msg)) < 0) {}
    _exit(code);
}
static void note(uint64_t ev, int to, int kind){
    uint64_t h = hash_ ^ (ev*0x9e3779b97f4a7c15ULL) ^ ((uint64_t)(to+1) << 32) ^ (uint64_t)kind;
    hash_ = smix(&h);
    if(nD < MAXD) { D[nD].ev = ev; D[nD].to = to; D[nD].kind = kind; nD++; }
    nD_total++;
}
static void set_next(void){
    if(mode == 2){
        while(posL < nL && L[posL].kind == 0 && L[posL].ev <= events) posL++;
        uint64_t p = posL; while(p < nL && L[p].kind != 0) p++;
        next_switch = p < nL ? L[p].ev : UINT64_MAX;
        if(next_switch <= events) next_switch = events + 1;
    } else if(mode == 3 || mode == 4 || preempt_budget == 0) next_switch = UINT64_MAX;
    else next_switch = events + gap();
    if(next_switch > max_events) next_switch = max_events;
}
static int pick(int exclude_self){
    int n = 0, best = -1; 
    if(mode == 1 || mode == 4){
        for(int i = 0; i < ntasks; i++) if(T[i].state == RUNNABLE && !(exclude_self && i == self))
            if(best < 0 || T[i].prio > T[best].prio) best = i;
        return best;
    }
    for(int i = 0; i < ntasks; i++) if(T[i].state == RUNNABLE && !(exclude_self && i == self)) n++;
    if(!n) return -1;
    if(mode == 2 || mode == 3){
        for(int d = 1; d <= ntasks; d++){ int i = ((self < 0 ? 0 : self) + d) % ntasks;
            if(T[i].state == RUNNABLE && !(exclude_self && i == self)) return i; }
        return -1;
    }
    int k = rnd() % n;
    for(int i = 0; i < ntasks; i++) if(T[i].state == RUNNABLE && !(exclude_self && i == self)) if(k-- == 0) return i;
    return -1;
}
static void go(int t){
    if(t == self) { cur = t; return; }
    int me = self;
    cur = t; sem_post(&T[t].sem);
    if(me >= 0) while(sem_wait(&T[me].sem) != 0) {}
}
static int forced_pick(void){
    /* no runnable: advance the virtual clock to the earliest sleeper */
    int t = -1;
    if(mode == 2){
        for(uint64_t p = posL; p < nL && L[p].ev <= events; p++)
            if(L[p].kind == 1 && L[p].ev == events && T[L[p].to].state == RUNNABLE) { t = L[p].to; L[p].kind = 9; break; }
    }
    if(t < 0) t = pick(1);
    if(t < 0){
        uint64_t best = UINT64_MAX;
        for(int i = 0; i < ntasks; i++) if(T[i].state == BLOCKED && T[i].wake_at && T[i].wake_at < best) { best = T[i].wake_at; t = i; }
        if(t < 0) for(int i = 0; i < ntasks; i++) if(T[i].state == BLOCKED && T[i].on == IDLE_KEY) { t = i; break; }
        if(t >= 0) { T[t].state = RUNNABLE; T[t].on = 0; T[t].wake_at = 0; }
    }
    return t;
}
static void preempt(int from_c){
    if(events >= max_events) die(78, "SIM: event cap reached (no progress)\n");
    int t = -1;
    if(mode == 2){
        while(posL < nL && !(L[posL].kind == 0 && L[posL].ev >= events)) posL++;
        if(posL < nL && L[posL].ev == events) { t = L[posL].to; posL++; if(t < 0 || t >= ntasks || T[t].state != RUNNABLE) t = -1; }
    } else if(mode == 4){
        /* a target: the running task goes behind all others */
        T[self].prio = low_prio ? --low_prio : 0;
        t = pick(0);
    } else if(mode == 1){
        /* PCT: a change point lowers the running task's priority */
        T[self].prio = (uint32_t)(rnd() & 0xff);
        t = pick(0);
    } else t = pick(0);
    if(preempt_budget) preempt_budget--;
    set_next();
    if(t >= 0 && t != self){ n_preempt++; if(from_c) n_c_preempt++; note(events, t, 0); go(t); }
}
static void take_census(uint64_t site, uintptr_t addr, int store){
    uint32_t fl = (addr >= mod_w0 && addr < mod_w1) ? (store ? 1 : 2) : 0;
    uint64_t h = (site*0x9e3779b97f4a7c15ULL) ^ ((uint64_t) self*0xbf58476d1ce4e5b9ULL);
    uint32_t i = (uint32_t)(h >> 40) & (NCEN-1);
    for(uint32_t k = 0; k < 64; k++, i = (i+1) & (NCEN-1)){
        if(CEN[i].n == 0){ CEN[i].site = site; CEN[i].task = self; CEN[i].n = 1; CEN[i].flags = fl; return; }
        if(CEN[i].site == site && CEN[i].task == (uint32_t) self){ CEN[i].n++; CEN[i].flags |= fl; return; }
    }
}
static int at_target(uint64_t site){
    int hit = 0;
    for(int i = 0; i < nTG; i++) if(TG[i].site == site && !TG[i].done && (TG[i].task < 0 || TG[i].task == self))
        if(TG[i].seen++ == TG[i].n) { TG[i].done = 1; hit = 1; }
    return hit;
}
static inline void cpoint(uintptr_t pc, uintptr_t addr, int store){
    if(!active || self < 0 || !c_yield_enabled) return;
    events++; c_events++;
    if(census_on) take_census(pc - mod_base, addr, store);
    if(nTG && at_target(pc - mod_base)) next_switch = events;
    if(events >= next_switch){
        if(gil_check && gil_check()){ if(events >= max_events) die(78, "SIM: event cap reached (no progress)\n"); if(mode != 2) next_switch = events + 1; return; }
        preempt(1);
    }
}
/* ---- compiler callbacks ---- */
#define PC ((uintptr_t) __builtin_return_address(0))
void __sanitizer_cov_trace_pc_guard(uint32_t *g){ (void)g; cpoint(PC, 0, 0); }
static int find_image(struct dl_phdr_info *info, size_t sz, void *arg){
    uintptr_t a = *(uintptr_t*) arg; (void) sz;
    for(int i = 0; i < info->dlpi_phnum; i++) if(info->dlpi_phdr[i].p_type == PT_LOAD){
        uintptr_t s = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr, e = s + info->dlpi_phdr[i].p_memsz;
        if(a >= s && a < e){
            mod_base = info->dlpi_addr; mod_w0 = mod_w1 = 0;
            for(int j = 0; j < info->dlpi_phnum; j++) if(info->dlpi_phdr[j].p_type == PT_LOAD && (info->dlpi_phdr[j].p_flags & PF_W)){
                uintptr_t w = info->dlpi_addr + info->dlpi_phdr[j].p_vaddr, x = w + info->dlpi_phdr[j].p_memsz;
                if(!mod_w0 || w < mod_w0) mod_w0 = w;
                if(x > mod_w1) mod_w1 = x;
            }
            return 1;
        }
    }
    return 0;
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b){ (void)b; uintptr_t x = (uintptr_t) a; dl_iterate_phdr(find_image, &x); }
#define LS(n) void __sanitizer_cov_load##n(void*p){cpoint(PC, (uintptr_t)p, 0);} void __sanitizer_cov_store##n(void*p){cpoint(PC, (uintptr_t)p, 1);}
LS(1) LS(2) LS(4) LS(8) LS(16)

/* ---- control ---- */
void sim_begin(uint64_t seed, int mode_, double gap_, uint64_t budget, uint64_t cap, dec_t *list, uint64_t nlist){
    if(!D) D = malloc(sizeof(dec_t)*MAXD);
    gil_check = (int(*)(void)) dlsym(RTLD_DEFAULT, "PyGILState_Check");
    for(int i = 0; i < ntasks; i++) sem_destroy(&T[i].sem);
    memset(T, 0, sizeof T);
    uint64_t x = seed; rng_s[0] = smix(&x); rng_s[1] = smix(&x) | 1;
    mode = mode_; mean_gap = gap_; preempt_budget = budget; max_events = cap;
    nD = nD_total = 0; hash_ = seed; n_preempt = n_forced = n_c_preempt = 0; events = c_events = py_events = 0;
    if(L) { free(L); L = NULL; }
    census_on = 0; nTG = 0; low_prio = 0xff00;
    nL = nlist; posL = 0; if(nlist) { L = malloc(sizeof(dec_t)*nlist); memcpy(L, list, sizeof(dec_t)*nlist); }
    ntasks = 1; cur = 0; self = 0; T[0].state = RUNNABLE; sem_init(&T[0].sem, 0, 0);
    T[0].prio = 0x10000 + (uint32_t)(rnd() & 0xffff);
    set_next();
    active = 1;
}
void sim_end(void){ active = 0; }
int sim_active(void){ return active && self >= 0; }
int sim_self(void){ return self; }
int sim_task_new(void){
    if(ntasks >= MAXT) return -1;
    int t = ntasks++;
    sem_init(&T[t].sem, 0, 0); T[t].state = RUNNABLE; T[t].on = 0; T[t].wake_at = 0;
    T[t].prio = 0x10000 + (uint32_t)(rnd() & 0xffff);
    return t;
}
void sim_task_cancel(int t){ if(t == ntasks-1) ntasks--; else T[t].state = DONE; }
void sim_attach(int t){ self = t; while(sem_wait(&T[t].sem) != 0) {} }
static void wake(uint64_t on){ for(int i = 0; i < ntasks; i++) if(T[i].state == BLOCKED && T[i].on == on) { T[i].state = RUNNABLE; T[i].on = 0; T[i].wake_at = 0; } }
void sim_wake(uint64_t on){ if(active) wake(on); }
/* Block the running task on an object; returns when it was woken (or its deadline passed). */
int sim_block(uint64_t on, uint64_t deadline){
    if(!active || self < 0) return -1;
    T[self].state = BLOCKED; T[self].on = on; T[self].wake_at = deadline; events++;
    int t = forced_pick();
    if(t < 0) die(77, "SIM: deadlock, every task is blocked\n");
    n_forced++; note(events, t, 1);
    go(t);
    return 0;
}
uint64_t sim_join_key(int t){ return 0xF000000000000000ULL + (uint64_t) t; }
void sim_exit_task(void){
    if(self < 0) return;
    int me = self;
    T[me].state = DONE; events++; wake(sim_join_key(me));
    int t = forced_pick();
    if(t < 0) die(77, "SIM: deadlock, every remaining task is blocked\n");
    n_forced++; note(events, t, 1);
    cur = t; self = -1; sem_post(&T[t].sem);
}
int sim_task_done(int t){ return t >= 0 && t < ntasks && T[t].state == DONE; }
int sim_live_tasks(void){ int n = 0; for(int i = 1; i < ntasks; i++) if(T[i].state == RUNNABLE || T[i].state == BLOCKED) n++; return n; }
int sim_ntasks(void){ return ntasks; }
/* called with the GIL held (PyDLL): count a Python yield point, tell whether to switch */
int sim_tick(void){
    if(!active || self < 0) return 0;
    events++; py_events++;
    return events >= next_switch;
}
void sim_yield(void){ if(active && self >= 0 && events >= next_switch) preempt(0); }
void sim_yield_now(void){ if(active && self >= 0) { events++; next_switch = events; preempt(0);} }
void sim_census(void){ if(!CEN) CEN = malloc(NCEN*sizeof(cen_t)); memset(CEN, 0, NCEN*sizeof(cen_t)); census_on = 1; }
int sim_census_get(cen_t *out, int n){ int k = 0; if(CEN) for(uint32_t i = 0; i < NCEN && k < n; i++) if(CEN[i].n) out[k++] = CEN[i]; return k; }
void sim_target(uint64_t site, int task, uint64_t n){ if(nTG < 64){ TG[nTG].site = site; TG[nTG].task = task; TG[nTG].n = n; TG[nTG].seen = 0; TG[nTG].done = 0; nTG++; } }
void sim_target_now(void){ if(active && self >= 0) next_switch = events; }
void sim_enable_c(int on){ c_yield_enabled = on; }
uint64_t sim_stat(int i){ switch(i){ case 0: return events; case 1: return c_events; case 2: return py_events; case 3: return n_preempt;
    case 4: return n_forced; case 5: return hash_; case 6: return nD; case 7: return n_c_preempt; case 8: return nD_total; } return 0; }
dec_t *sim_decisions(void){ return D; }
