/* Replay harness: runs the real C routines with every buffer against inaccessible pages.
   One command per input line, one result line each.  Placement 0: buffers end at a guard page, 1: they start at one. */
#define _GNU_SOURCE
#include <stdio.h>
#include <signal.h>
#include <setjmp.h>
#include <stdint.h>
#include <sys/mman.h>
#include <unistd.h>
#include "csphi.h"
#pragma weak FindQ
#pragma weak ynunm
#pragma weak kiss_fft_alloc
#pragma weak kiss_fft

#define GUARD (1u << 20)
#define MAXB 4096
static struct { unsigned char *map, *p; size_t len, n; int live; } tab[MAXB];
static int ntab, place, nlive, nbad;
static char why[200];
static sigjmp_buf env;

static void bad(const char *s) { if (!nbad++) snprintf(why, sizeof why, "%s", s); }

static void *get(size_t n, int poison)
{
    size_t body = (n + 4095) / 4096 * 4096;
    if (body == 0) body = 4096;
    if (ntab == MAXB) { bad("too many allocations"); siglongjmp(env, 2); }
    unsigned char *m = mmap(0, body + 2 * GUARD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { bad("mmap failed"); siglongjmp(env, 2); }
    mprotect(m + GUARD, body, PROT_READ | PROT_WRITE);
    memset(m + GUARD, 0xFF, body);
    if (!poison) memset(m + GUARD, 0, body);
    unsigned char *p = place ? m + GUARD : m + GUARD + body - (n + 7) / 8 * 8;
    tab[ntab].map = m; tab[ntab].p = p; tab[ntab].len = body + 2 * GUARD; tab[ntab].n = n; tab[ntab].live = 1; ntab++;
    return p;
}
void *dv_malloc(size_t n) { nlive++; return get(n, 1); }
void *dv_calloc(size_t n, size_t k) { nlive++; return get(n * k, 0); }
static int find(void *p) { for (int i = ntab - 1; i >= 0; i--) if (tab[i].p == p) return i; return -1; }
void dv_free(void *p)
{
    if (!p) return;
    int i = find(p);
    if (i < 0) { bad("free of an address that was not allocated"); return; }
    if (!tab[i].live) { bad("buffer released twice"); return; }
    tab[i].live = 0; nlive--;
    mprotect(tab[i].map, tab[i].len, PROT_NONE);      /* use after free faults */
}
void *dv_realloc(void *p, size_t n)
{
    void *q = dv_malloc(n);
    if (p) { int i = find(p); if (i >= 0) memcpy(q, p, tab[i].n < n ? tab[i].n : n); dv_free(p); }
    return q;
}
static void reset(void) { for (int i = 0; i < ntab; i++) munmap(tab[i].map, tab[i].len); ntab = nlive = nbad = 0; why[0] = 0; }

static void segv(int s, siginfo_t *si, void *u)
{
    uintptr_t a = (uintptr_t)si->si_addr;
    snprintf(why, sizeof why, "access outside every buffer");
    for (int i = 0; i < ntab; i++)
        if (a >= (uintptr_t)tab[i].map && a < (uintptr_t)tab[i].map + tab[i].len)
            snprintf(why, sizeof why, "access at offset %ld of a %s buffer of %lu bytes", (long)(a - (uintptr_t)tab[i].p),
                     tab[i].live ? "live" : "released", (unsigned long)tab[i].n);
    nbad = 1;
    siglongjmp(env, 1);
}
static uint64_t st;
static double rnd(void) { st = st * 6364136223846793005ull + 1442695040888963407ull; return (double)(st >> 11) / 9007199254740992.0 * 2 - 1; }
static SCOMPLEX *cbuf(long n) { SCOMPLEX *p = get(n * sizeof *p, 0); for (long i = 0; i < n; i++) { p[i].r = rnd(); p[i].i = rnd(); } return p; }
static int fin(SCOMPLEX *p, long n) { for (long i = 0; i < n; i++) if (!isfinite(p[i].r) || !isfinite(p[i].i)) return 0; return 1; }

static void transform(char w, int Nrow, int Ncol, int N, int M)
{
    long L = N + 1 + (long)M * (2 * (N + 1) - M - 1), D = (long)Nrow * Ncol;
    SCOMPLEX *f = cbuf(D), *c = cbuf(L), *g = malloc(D * sizeof *g), *d = malloc(L * sizeof *d);
    memcpy(g, f, D * sizeof *g); memcpy(d, c, L * sizeof *d);
    if (w == 'f') {
        memset(c, 0xFF, L * sizeof *c);
        fc_to_sc(f, Nrow, Ncol, c, L, N, M);
        if (memcmp(f, g, D * sizeof *g)) bad("the Fourier data was modified");
        if (!fin(c, L)) bad("a result depends on memory that was never written (not a number)");
    } else {
        memset(f, 0, D * sizeof *f);
        sc_to_fc(f, Nrow, Ncol, c, L, N, M);
        if (memcmp(c, d, L * sizeof *d)) bad("the coefficients were modified");
        if (!fin(f, D)) bad("a result depends on memory that was never written (not a number)");
    }
    if (nlive) bad("a work buffer was not released");
    free(g); free(d);
}
static void legendre(int n, int m, int len)
{
    SFLOAT *y = get(len * sizeof *y, 1);
    ynunm(n, m, y, len);
    for (int i = 0; i < len; i++) if (!isfinite(y[i])) bad("an entry was not written");
    if (nlive) bad("a work buffer was not released");
}
static void fft(int n, int inv, int inplace)
{
    kiss_fft_cpx *x = (kiss_fft_cpx *)cbuf(n), *o = inplace ? x : get(n * sizeof *x, 1);
    double *xr = malloc(2 * n * sizeof(double));
    for (int i = 0; i < n; i++) { xr[2 * i] = x[i].r; xr[2 * i + 1] = x[i].i; }
    kiss_fft_cfg c = kiss_fft_alloc(n, inv, 0, 0);
    kiss_fft(c, x, o);
    dv_free(c);
    if (nlive) bad("a work buffer was not released");
    double tol = 1e-11 * n, w = 2 * PI / n;
    double *co = malloc(n * sizeof(double)), *si = malloc(n * sizeof(double));
    for (int i = 0; i < n; i++) { co[i] = cos(w * i); si[i] = (inv ? 1 : -1) * sin(w * i); }
    for (int k = 0; k < n && !nbad; k++) {
        double a = 0, b = 0;
        for (int j = 0; j < n; j++) { long t = (long)j * k % n; a += xr[2 * j] * co[t] - xr[2 * j + 1] * si[t]; b += xr[2 * j] * si[t] + xr[2 * j + 1] * co[t]; }
        if (!(fabs(a - o[k].r) < tol && fabs(b - o[k].i) < tol)) {
            char s[180]; snprintf(s, sizeof s, "X[%d] = %.12g%+.12gi, expected %.12g%+.12gi", k, o[k].r, o[k].i, a, b); bad(s);
        }
        if (!inplace && (x[k].r != xr[2 * k] || x[k].i != xr[2 * k + 1])) bad("the input was modified");
    }
    free(co); free(si); free(xr);
}
int main(void)
{
    static char alt[1 << 16];
    stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
    sigaltstack(&ss, 0);
    struct sigaction sa = { .sa_sigaction = segv, .sa_flags = SA_SIGINFO | SA_ONSTACK };
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
    char line[200], w; int a, b, c, d; unsigned seed;
    while (fgets(line, sizeof line, stdin)) {
        a = b = c = d = 0;
        if (sscanf(line, "%c %u %d %d %d %d %d", &w, &seed, &place, &a, &b, &c, &d) < 4) break;
        reset();
        st = seed * 2654435761ull + 12345; rnd(); rnd();
        if (!sigsetjmp(env, 1)) {
            alarm(20);
            if (w == 'f' || w == 's') transform(w, a, b, c, d);
            else if (w == 'y' && ynunm) legendre(a, b, c);
            else if (w == 'k' && kiss_fft && kiss_fft_alloc) fft(a, b, c);
            else if (w == 'q' && FindQ) { int q = FindQ(a); if (q < a) bad("the length is smaller than requested"); }
        }
        alarm(0);
        puts(nbad ? why : "ok");
        fflush(stdout);
    }
    return 0;
}
