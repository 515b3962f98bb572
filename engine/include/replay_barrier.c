// Replays one interleaving on the compiled barrier: built together with barrier.c under -fsanitize=thread, whose access
// hooks are implemented here so that every shared access waits for its turn in the given schedule.
#include "plasma_barrier.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include SCHEDULE
// SCHEDULE defines N, G, LEN and sched[]

static plasma_barrier_t bar;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int pos, busy = -1, freerun, entered[N], left_[N], bad, arrived[N];
static __thread int me = -1, fresh, inhook;

static void release(void)
{
    if (busy == me) { busy = -1; pthread_cond_broadcast(&cv); }
}
static void turn(void *p)
{
    if (me < 0 || (char *)p < (char *)&bar || (char *)p >= (char *)(&bar+1)) return;
    pthread_mutex_lock(&mu);
    release();
    while (!freerun && !(busy < 0 && pos < LEN && sched[pos] == me)) {
        if (pos >= LEN && busy < 0) pthread_cond_broadcast(&cv);
        pthread_cond_wait(&cv, &mu);
    }
    if (!freerun) { pos++; busy = me; }
    if (fresh) { fresh = 0; entered[me]++; }
    pthread_mutex_unlock(&mu);
}
#define RW(n) void __tsan_read##n(void *p) { turn(p); } void __tsan_write##n(void *p) { turn(p); } \
    void __tsan_volatile_read##n(void *p) { turn(p); } void __tsan_volatile_write##n(void *p) { turn(p); } \
    void __tsan_unaligned_read##n(void *p) { turn(p); } void __tsan_unaligned_write##n(void *p) { turn(p); } \
    void __tsan_read_write##n(void *p) { turn(p); }
RW(1) RW(2) RW(4) RW(8)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *p, int o) { turn((void *)p); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int o) { turn((void *)p); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { turn((void *)p); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { turn((void *)p); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { turn((void *)p); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { turn((void *)p); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { turn((void *)p); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { turn((void *)p); return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { turn((void *)p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { turn((void *)p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { turn((void *)p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { turn(&bar); __atomic_thread_fence(5); }

static void *body(void *a)
{
    me = (int)(long)a;
    for (int g = 1; g <= G; g++) {
        fresh = 1;
        plasma_barrier_wait(&bar, N);
        pthread_mutex_lock(&mu);
        release();
        left_[me]++;
        for (int j = 0; j < N; j++)
            if (entered[j] < g) { printf("thread %d left use %d before thread %d entered it\n", me, g, j); bad = 1; }
        pthread_mutex_unlock(&mu);
    }
    pthread_mutex_lock(&mu);
    arrived[me] = 1;
    pthread_mutex_unlock(&mu);
    return NULL;
}
int main(void)
{
    plasma_barrier_init(&bar);
    pthread_t t[N];
    for (long i = 0; i < N; i++) pthread_create(&t[i], NULL, body, (void *)i);
    usleep(300000);
    for (int w = 0; w < 100; w++) {
        pthread_mutex_lock(&mu);
        int end = pos >= LEN;
        pthread_mutex_unlock(&mu);
        if (end) break;
        usleep(20000);
    }
    usleep(100000);
    pthread_mutex_lock(&mu);
    if (bad) { printf("violation\n"); fflush(stdout); _exit(1); }
    freerun = 1;
    pthread_cond_broadcast(&cv);
    pthread_mutex_unlock(&mu);
    usleep(1500000);
    int n = 0;
    for (int i = 0; i < N; i++) n += arrived[i];
    if (bad || n < N) { printf("%d of %d threads never finish\n", N-n, N); fflush(stdout); _exit(1); }
    printf("not reproduced\n");
    fflush(stdout);
    _exit(0);
}
