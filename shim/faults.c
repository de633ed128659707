/* Loaded before everything else: stands under libcrypto's allocator.  It can make the n-th allocation asked for on
 * behalf of the engine fail, counts what is outstanding, and looks for secrets in memory that is given back. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <malloc.h>
#include <execinfo.h>
#include <openssl/crypto.h>

char *fl_lo, *fl_hi;            /* where the engine is mapped */
int fl_on;                      /* count and fail? */
long fl_at, fl_count, fl_failed;
long fl_live, fl_bytes;         /* outstanding allocations */
int fl_track;                   /* remember where each was made? */
int fl_nsec; struct { char *p; long n; } fl_sec[256];   /* secrets to look for */
long fl_found; int fl_which; long fl_size; void *fl_stack[24]; int fl_depth;
void **fl_mirror;               /* where the place of a fault is written too, for those who see us crash */

#define N 65536
static struct ent { void *p; int n; void *st[20]; } tab[N];
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static __thread int busy;

static int ours(void)
{
    void *b[48];
    int i, n = backtrace(b, 48);
    for (i = 0; i < n; i++)
        if ((char *)b[i] >= fl_lo && (char *)b[i] < fl_hi)
            return 1;
    return 0;
}

static int fail(void)
{
    int r = 0;
    if (!fl_on || busy)
        return 0;
    busy = 1;
    if (ours()) {
        r = ++fl_count == fl_at;
        if (r) {
            fl_failed++;
            fl_depth = backtrace(fl_stack, 24);
            if (fl_mirror) {
                memcpy(fl_mirror + 1, fl_stack, sizeof(fl_stack));
                fl_mirror[0] = (void *)(long)fl_depth;
            }
        }
    }
    busy = 0;
    return r;
}

static void born(void *p)
{
    unsigned long h, i;
    if (!p)
        return;
    __sync_fetch_and_add(&fl_live, 1);
    __sync_fetch_and_add(&fl_bytes, malloc_usable_size(p));
    if (!fl_track || busy)
        return;
    busy = 1;
    pthread_mutex_lock(&mx);
    for (h = ((unsigned long)p >> 4) * 2654435761u % N, i = 0; i < N && tab[h].p && tab[h].p != (void *)1; i++)
        h = (h + 1) % N;
    if (i < N) {
        tab[h].n = backtrace(tab[h].st, 20);
        tab[h].p = p;
    }
    pthread_mutex_unlock(&mx);
    busy = 0;
}

static void gone(void *p)
{
    unsigned long h, i;
    long n = malloc_usable_size(p);
    int k;
    __sync_fetch_and_sub(&fl_live, 1);
    __sync_fetch_and_sub(&fl_bytes, n);
    for (k = 0; k < fl_nsec; k++)
        if (memmem(p, n, fl_sec[k].p, fl_sec[k].n)) {
            if (!fl_found++) {
                busy = 1;
                fl_which = k;
                fl_size = n;
                fl_depth = backtrace(fl_stack, 24);
                busy = 0;
            }
            break;
        }
    if (!fl_track)
        return;
    pthread_mutex_lock(&mx);
    for (h = ((unsigned long)p >> 4) * 2654435761u % N, i = 0; i < N && tab[h].p; i++, h = (h + 1) % N)
        if (tab[h].p == p) {
            tab[h].p = (void *)1;
            break;
        }
    pthread_mutex_unlock(&mx);
}

static void *m(size_t n, const char *f, int l)
{
    void *p;
    if (n == 0 || fail())
        return NULL;
    p = malloc(n);
    born(p);
    return p;
}

static void *r(void *p, size_t n, const char *f, int l)
{
    void *q;
    if (p && n == 0) {
        gone(p);
        free(p);
        return NULL;
    }
    if (fail())
        return NULL;
    /* always moves, so that what stays behind is looked at */
    q = malloc(n);
    if (!q)
        return NULL;
    born(q);
    if (p) {
        size_t o = malloc_usable_size(p);
        memcpy(q, p, o < n ? o : n);
        gone(p);
        free(p);
    }
    return q;
}

static void fr(void *p, const char *f, int l)
{
    if (!p)
        return;
    gone(p);
    free(p);
}

int fl_ok;
__attribute__((constructor)) static void init(void)
{
    void *b[4];
    backtrace(b, 4);            /* loads what it needs now */
    fl_ok = CRYPTO_set_mem_functions(m, r, fr);
}

void fl_forget(void)
{
    memset(tab, 0, sizeof(tab));
}

/* the places whose allocations are still outstanding; one per call, NULL at the end */
int fl_next(int *at, void **st)
{
    for (; *at < N; ++*at)
        if (tab[*at].p && tab[*at].p != (void *)1) {
            memcpy(st, tab[*at].st, sizeof(void *) * 20);
            return tab[(*at)++].n;
        }
    return 0;
}
