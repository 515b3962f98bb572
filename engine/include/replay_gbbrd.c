// Runs plasma_xgesdd while the bulge-chasing kernels start in the order given (ORDER: triples type, st, sweep), and compares
// the result with the run of one thread.  Exit: 0 same result, 1 different, 2 the order could not be enforced, 3 no end.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <math.h>
#include <omp.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "plasma.h"
#include "order.h"
static int on, pos, missed;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int turn(int ty, int st, int sw)
{
    if (!on) return 0;
    for (int w = 0; w < 3000; w++) {
        pthread_mutex_lock(&mu);
        if (pos >= LEN || missed) { pthread_mutex_unlock(&mu); return 0; }
        if (order[pos][0] == ty && order[pos][1] == st && order[pos][2] == sw) { pthread_mutex_unlock(&mu); return 1; }
        int later = 0;
        for (int k = pos; k < LEN; k++) if (order[k][0] == ty && order[k][1] == st && order[k][2] == sw) later = 1;
        if (!later && HANG) { pthread_mutex_unlock(&mu); return 0; }
        pthread_mutex_unlock(&mu);
        usleep(1000);
    }
    missed = 1;
    return 0;
}
static void done(int mine) { if (mine) { usleep(5000); pthread_mutex_lock(&mu); pos++; pthread_mutex_unlock(&mu); } }
#define KERNEL(k) \
void CORE(k)(plasma_enum_t u, int n, int nb, NUM *A, int lda, NUM *VQ, NUM *TQ, NUM *VP, NUM *TP, int st, int ed, int sw, int vb, int w, NUM *W) \
{ \
    static void (*f)(plasma_enum_t, int, int, NUM *, int, NUM *, NUM *, NUM *, NUM *, int, int, int, int, int, NUM *); \
    if (!f) f = dlsym(RTLD_NEXT, STR(CORE(k))); \
    int t = turn(k, st, sw); \
    if (t) { pthread_mutex_lock(&mu); pos++; pthread_mutex_unlock(&mu); } \
    (void)done; f(u, n, nb, A, lda, VQ, TQ, VP, TP, st, ed, sw, vb, w, W); \
    if (t) usleep(20000); \
}
#define STR_(x) #x
#define STR(x) STR_(x)
KERNEL(1)
KERNEL(2)
KERNEL(3)
static void hang(int s) { (void)s; write(1, "no end\n", 7); _exit(3); }
int main(void)
{
    static NUM A[NN], U[NN], V[NN], U0[NN], V0[NN], B[NN];
    static REAL s[64], s0[64];
    srand(7);
    for (int i = 0; i < NN; i++) B[i] = rand() / (double)RAND_MAX - .5;
    signal(SIGALRM, hang);
    for (int k = 0; k < 2; k++) {
        int T = k ? NT : 1;
        omp_set_num_threads(T);
        plasma_init();
        plasma_set(PlasmaTuning, PlasmaDisabled);
        plasma_set(PlasmaNb, NB);
        plasma_set(PlasmaIb, NB > 1 ? NB / 2 : 1);
        memcpy(A, B, sizeof A);
        memset(k ? U : U0, 0, sizeof U);
        memset(k ? V : V0, 0, sizeof V);
        on = k;
        alarm(60);
        plasma_desc_t D;
        int r = GESDD(JOB, JOB, M, N, A, M, &D, k ? s : s0, k ? U : U0, M, k ? V : V0, N);
        if (r) { printf("returned %d\n", r); return 2; }
        plasma_finalize();
    }
    double d = 0;
    int mn = M < N ? M : N;
    for (int i = 0; i < mn; i++) if (!(fabs(s[i] - s0[i]) <= d)) d = fabs(s[i] - s0[i]);
    if (JOB != PlasmaNoVec)
        for (int i = 0; i < NN; i++) {
            double x = cabs((double _Complex)(U[i] - U0[i])) + cabs((double _Complex)(V[i] - V0[i]));
            if (!(x <= d)) d = x;
        }
    if (missed) { printf("the order is not reached\n"); return 2; }
    printf("largest difference %g\n", d);
    return !(d <= TOL);
}
