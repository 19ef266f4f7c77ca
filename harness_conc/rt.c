/* The functions the compiler's thread instrumentation calls: every plain and
 * atomic access to a recorded heap block becomes an entry of the log, and every
 * atomic access, fence and release of a block is a point where another thread
 * may be scheduled.  Exactly one thread runs at a time; which one is decided by
 * the list of choices the driver supplies.  No judgement is made here. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

typedef struct { uintptr_t a; uintptr_t base; size_t n, al; int live; } blk;
typedef struct { char k; int t, b, ord; long o, n; long v; } ev;
#define MAXB 512
#define MAXE 20000
#define MAXT 8
static blk B[MAXB]; static int nb;
static ev E[MAXE]; static int ne;
static __thread int wid = -1;      /* 0: main, 1..: workers */
static __thread int busy = 0;      /* inside a library call */
static int active = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv[MAXT];
static int nthr, cur, done[MAXT], blocked[MAXT], started, patience = 2000;
static unsigned long steps;                     /* progress, to notice a thread that waits for another */
static uintptr_t other[256]; static int nother; /* atomics outside the recorded blocks */
static int choices[4096], nch, pos;             /* scripted choices */
static int rec_n[4096], rec_c[4096], rec_cur[4096], nrec; /* what was possible and taken */

static blk *find(uintptr_t a) {
    for (int i = nb - 1; i >= 0; i--) if (a >= B[i].a && a < B[i].a + (B[i].n ? B[i].n : 1)) return &B[i];
    return 0;
}
static void put(char k, int b, long o, long n, int ord, long v) {
    if (ne > 0 && (k == 'r' || k == 'w')) { /* neighbouring accesses of one thread are one entry */
        ev *l = &E[ne - 1];
        if (l->k == k && l->t == wid && l->b == b && o <= l->o + l->n && o + n >= l->o) {
            long hi = l->o + l->n > o + n ? l->o + l->n : o + n; if (o < l->o) l->o = o; l->n = hi - l->o; return;
        }
    }
    if (ne < MAXE) E[ne++] = (ev){k, wid, b, ord, o, n, v};
}
static void put_locked(char k, int b, long o, long n, int ord, long v) { pthread_mutex_lock(&mu); steps++; put(k, b, o, n, ord, v); pthread_mutex_unlock(&mu); }
/* the next thread to run among those that are neither done nor waiting inside the system (-1: all wait) */
static int choose(int me_runnable) {
    int opt[MAXT], n = 0, left = 0;
    if (me_runnable) opt[n++] = wid;
    for (int i = 1; i <= nthr; i++) if (!done[i]) { left++; if (!blocked[i] && !(me_runnable && i == wid)) opt[n++] = i; }
    if (n == 0) return left ? -1 : 0;
    int c = 0;
    if (n > 1) {
        if (pos < nch && choices[pos] < n) c = choices[pos];
        if (nrec < 4096) { rec_n[nrec] = n; rec_c[nrec] = c; rec_cur[nrec] = me_runnable; nrec++; }
        pos++;
    }
    return opt[c];
}
static void switch_to(int t) { cur = t; steps++; if (t > 0) pthread_cond_signal(&cv[t]); else if (t == 0) pthread_cond_broadcast(&cv[0]); }
/* with mu held: wait until it is this thread's turn */
static void turn(void) {
    blocked[wid] = 0;
    while (cur != wid) { if (cur == -1) { switch_to(wid); break; } pthread_cond_wait(&cv[wid], &mu); }
}
/* a point where another thread may be scheduled; returns with mu held and the turn of this thread */
static void enter(void) {
    pthread_mutex_lock(&mu); steps++;
    if (wid <= 0 || !active) return;
    turn();
    int t = choose(1);
    if (t != wid) { switch_to(t); turn(); }
}
static void leave(void) { pthread_mutex_unlock(&mu); }
static void point(void) { if (wid > 0 && active) { enter(); leave(); } }
/* ---- interface to the driver ---- */
void rt_reset(const int *c, int n) {
    for (int i = 0; i < nb; i++) free((void *)B[i].base);
    nb = ne = nrec = pos = 0; nch = n > 4096 ? 4096 : n; memcpy(choices, c, nch * sizeof(int));
    memset(done, 0, sizeof done); memset(blocked, 0, sizeof blocked); nother = 0; nthr = 0; cur = 0; wid = 0; active = 1; busy = 0;
    static int init; if (!init) { init = 1; for (int i = 0; i < MAXT; i++) pthread_cond_init(&cv[i], 0); }
}
void rt_patience(int ms) { patience = ms; }
void rt_begin(int n) { pthread_mutex_lock(&mu); nthr = n; started = 0; pthread_mutex_unlock(&mu); put_locked('S', 0, n, 0, 0, 0); }
void rt_start(int t) { wid = t; pthread_mutex_lock(&mu); started++; pthread_cond_broadcast(&cv[0]); turn(); pthread_mutex_unlock(&mu); }
void rt_go(void) { /* main: let the workers run, and wait until all are done */
    pthread_mutex_lock(&mu);
    while (started < nthr) pthread_cond_wait(&cv[0], &mu);
    switch_to(choose(0));
    unsigned long last = steps;
    while (cur != 0) {
        struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_nsec += (patience % 1000) * 1000000L; ts.tv_sec += patience / 1000 + ts.tv_nsec / 1000000000L; ts.tv_nsec %= 1000000000L;
        pthread_cond_timedwait(&cv[0], &mu, &ts);
        /* no progress: the running thread waits for a lock another one holds */
        if (cur > 0 && steps == last && !done[cur]) { blocked[cur] = 1; switch_to(choose(0)); }
        last = steps;
    }
    pthread_mutex_unlock(&mu); put_locked('J', 0, 0, 0, 0, 0);
}
void rt_done(void) {
    pthread_mutex_lock(&mu); done[wid] = 1; blocked[wid] = 0; steps++;
    int mine = cur == wid || cur == -1; wid = -1;
    if (mine) switch_to(choose(0));
    pthread_mutex_unlock(&mu);
}
void rt_point(void) { point(); }
void rt_call(int code, int s, int d) { put_locked('c', s, d, 0, code, 0); }
void rt_ret(long v) { put_locked('e', 0, 0, 0, 0, v); }
void rt_panic(void) { put_locked('P', 0, 0, 0, 0, 0); }
int rt_busy(int b) { int o = busy; busy = b; return o; }
int rt_log(void) { return ne; }
void rt_entry(int i, long *o) { ev *e = &E[i]; o[0] = e->k; o[1] = e->t; o[2] = e->b; o[3] = e->o; o[4] = e->n; o[5] = e->ord; o[6] = e->v; }
int rt_nrec(void) { return nrec; }
void rt_rec(int i, int *o) { o[0] = rec_n[i]; o[1] = rec_c[i]; o[2] = rec_cur[i]; }
void rt_end(void) { active = 0; wid = -1; }
void *rt_alloc(size_t n, size_t al) {
    if (!(active && busy && wid >= 0) || nb >= MAXB || n > (1u << 24)) return 0;
    pthread_mutex_lock(&mu);
    size_t f = al < 64 ? 64 : al; char *p = aligned_alloc(f, ((n + f + f - 1) / f) * f + f); if (!p) { pthread_mutex_unlock(&mu); return 0; }
    B[nb++] = (blk){(uintptr_t)p, (uintptr_t)p, n, al, 1};
    memset(p, 0xA5, n); steps++; put('a', nb, (long)n, (long)al, 0, 0); pthread_mutex_unlock(&mu); return p;
}
int rt_free(void *p, size_t n, size_t al) {
    if (!nb) return 0;
    int k = -1;
    pthread_mutex_lock(&mu);
    for (int i = nb - 1; i >= 0; i--) if (B[i].a == (uintptr_t)p) { k = i; break; }
    pthread_mutex_unlock(&mu);
    if (k < 0) return 0;
    int o = busy; busy = 0;
    if (o && active && wid > 0) enter(); else pthread_mutex_lock(&mu);
    busy = o;
    if (active && wid >= 0) put('f', k + 1, (long)n, (long)al, 0, 0);
    B[k].live = 0;
    pthread_mutex_unlock(&mu);
    return 1;
}
/* ---- plain accesses ---- */
static void plain(char k, void *p, size_t n) {
    if (!active || wid < 0) return;
    pthread_mutex_lock(&mu);
    blk *b = find((uintptr_t)p); if (!b) { pthread_mutex_unlock(&mu); return; }
    if (wid > 0 && blocked[wid]) turn();
    steps++; put(k, (int)(b - B) + 1, (long)((uintptr_t)p - b->a), (long)n, 0, 0);
    pthread_mutex_unlock(&mu);
}
#define RW(n) void __tsan_read##n(void *p) { plain('r', p, n); } void __tsan_write##n(void *p) { plain('w', p, n); } \
  void __tsan_unaligned_read##n(void *p) { plain('r', p, n); } void __tsan_unaligned_write##n(void *p) { plain('w', p, n); } \
  void __tsan_read_write##n(void *p) { plain('r', p, n); plain('w', p, n); } void __tsan_unaligned_read_write##n(void *p) { plain('r', p, n); plain('w', p, n); } \
  void __tsan_volatile_read##n(void *p) { plain('r', p, n); } void __tsan_volatile_write##n(void *p) { plain('w', p, n); } \
  void __tsan_unaligned_volatile_read##n(void *p) { plain('r', p, n); } void __tsan_unaligned_volatile_write##n(void *p) { plain('w', p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { plain('r', p, n); }
void __tsan_write_range(void *p, size_t n) { plain('w', p, n); }
void __tsan_vptr_update(void **p, void *v) { plain('w', p, 8); }
void __tsan_vptr_read(void **p) { plain('r', p, 8); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { plain('r', (void *)s, n); plain('w', d, n); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { plain('r', (void *)s, n); plain('w', d, n); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) plain('w', d, n); return memset(d, c, n); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {} void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {} void __tsan_ignore_thread_end(void) {}
/* ---- atomic accesses ---- */
/* Returns with mu held when the access is recorded (1: of a block, 2: of other memory, inside a library call). */
static int atom(void *p, int *b, long *o) {
    if (!active || wid < 0) return 0;
    pthread_mutex_lock(&mu);
    blk *x = find((uintptr_t)p);
    if (x) { pthread_mutex_unlock(&mu); enter(); *b = (int)(x - B) + 1; *o = (long)((uintptr_t)p - x->a); return 1; }
    if (!busy) { pthread_mutex_unlock(&mu); return 0; }
    if (wid > 0 && blocked[wid]) turn();
    int i = 0; while (i < nother && other[i] != (uintptr_t)p) i++;
    if (i == nother) { if (nother == 256) { pthread_mutex_unlock(&mu); return 0; } other[nother++] = (uintptr_t)p; }
    *b = 0; *o = i; return 2;
}
#define LOG(k, ord, v) if (m) { steps++; put(k, b, o_, sizeof(*p), ord, (long)(v)); leave(); }
#define AT(N, T) \
 T __tsan_atomic##N##_load(const volatile T *p, int o) { int b = 0; long o_ = 0; int m = atom((void *)p, &b, &o_); T v = *p; LOG('l', o, v); return v; } \
 void __tsan_atomic##N##_store(volatile T *p, T v, int o) { int b = 0; long o_ = 0; int m = atom((void *)p, &b, &o_); *p = v; LOG('s', o, v); } \
 T __tsan_atomic##N##_exchange(volatile T *p, T v, int o) { int b = 0; long o_ = 0; int m = atom((void *)p, &b, &o_); T r = __atomic_exchange_n(p, v, 5); LOG('m', o, v); return r; } \
 T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int o) { int b = 0; long o_ = 0; int m = atom((void *)p, &b, &o_); T r = __atomic_fetch_add(p, v, 5); LOG('m', o, *p); return r; } \
 T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int o) { int b = 0; long o_ = 0; int m = atom((void *)p, &b, &o_); T r = __atomic_fetch_sub(p, v, 5); LOG('m', o, *p); return r; } \
 T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int o) { int b = 0; long o_ = 0; int m = atom((void *)p, &b, &o_); T r = __atomic_fetch_and(p, v, 5); LOG('m', o, *p); return r; } \
 T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int o) { int b = 0; long o_ = 0; int m = atom((void *)p, &b, &o_); T r = __atomic_fetch_or(p, v, 5); LOG('m', o, *p); return r; } \
 T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int o) { int b = 0; long o_ = 0; int m = atom((void *)p, &b, &o_); T r = __atomic_fetch_xor(p, v, 5); LOG('m', o, *p); return r; } \
 T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int o) { int b = 0; long o_ = 0; int m = atom((void *)p, &b, &o_); T r = __atomic_fetch_nand(p, v, 5); LOG('m', o, *p); return r; } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int o, int f) { int b = 0; long o_ = 0; int m = atom((void *)p, &b, &o_); T x = *c; int ok = __atomic_compare_exchange_n(p, &x, v, 0, 5, 5); if (ok) { LOG('m', o, v); } else { LOG('l', f, x); *c = x; } return ok; } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int o, int f) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, o, f); } \
 T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int o, int f) { __tsan_atomic##N##_compare_exchange_strong(p, &c, v, o, f); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { if (active && wid >= 0 && busy) { enter(); put('x', 0, 0, 0, o, 0); leave(); } __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int o) {}
