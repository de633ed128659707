/* Deterministic schedules for threads inside the engine.

   The engine is compiled with -fsanitize=thread, whose calls land here instead of in the
   sanitizer: every access to a "hot" word of the engine's own static data is a scheduling
   point, and so is every call of the wrapped functions.  One registered thread runs at a
   time; the list of <<thread, points>> segments says who goes on where.  Locks are known, so
   a thread that would block is passed over. */
#define _GNU_SOURCE
#include <link.h>
#include <pthread.h>
#include <stdint.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

#define API __attribute__((visibility("default")))
#define NT 8
enum { MAXHOT = 4096, MAXSEG = 256, MAXLOCK = 64 };

static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int level = 1;
static volatile int on, rec, freerun, token = -1;
static int nth, seg[MAXSEG][2], nseg, cur, left;
static int done[NT], entered[NT], count[NT], switches, blocked_n;
static void *blocked[NT];
static struct { void *l; int owner; } locks[MAXLOCK];
static volatile uint64_t tick;
static __thread int me = -1;
static uintptr_t lo, hi, rlo, rhi, base;
static uint32_t hot[MAXHOT]; static int nhot;
static uint32_t wr[MAXHOT]; static volatile int nwr;

int __real_CRYPTO_THREAD_write_lock(void *), __real_CRYPTO_THREAD_read_lock(void *), __real_CRYPTO_THREAD_unlock(void *);
int __real_CRYPTO_THREAD_run_once(void *, void (*)(void));
int __real_pthread_mutex_lock(void *), __real_pthread_mutex_unlock(void *), __real_pthread_once(void *, void (*)(void));
int __real_pthread_rwlock_wrlock(void *), __real_pthread_rwlock_rdlock(void *), __real_pthread_rwlock_unlock(void *);
/* the scheduler itself must not go through the wrappers */
#define LOCK() __real_pthread_mutex_lock(&m)
#define UNLOCK() __real_pthread_mutex_unlock(&m)

static int phdr(struct dl_phdr_info *i, size_t z, void *x)
{
    uintptr_t self = (uintptr_t)&nth;
    int k;
    for (k = 0; k < i->dlpi_phnum; k++) {
        uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W) && a <= self && self < b)
            lo = a, hi = b, base = i->dlpi_addr;
    }
    if (hi && base == i->dlpi_addr)
        for (k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO)
                rlo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, rhi = rlo + i->dlpi_phdr[k].p_memsz;
    return hi != 0;
}

/* next runnable thread by the segments; called with the mutex held */
static void pick(void)
{
    int i;
    while (cur < nseg) {
        i = seg[cur][0];
        if (i < nth && !done[i] && !blocked[i] && seg[cur][1] > 0) {
            left = seg[cur][1];
            token = i;
            cur++;
            goto out;
        }
        cur++;
    }
    left = 0x7fffffff;
    for (i = 0; i < nth; i++)
        if (!done[i] && !blocked[i]) {
            token = i;
            goto out;
        }
    token = -1;
 out:
    switches++;
    tick++;
    pthread_cond_broadcast(&cv);
}

static void wait_turn(void)
{
    while (token != me && !freerun) {
        struct timespec t;
        uint64_t was = tick;
        clock_gettime(CLOCK_REALTIME, &t);
        t.tv_nsec += 800000000;
        if (t.tv_nsec >= 1000000000)
            t.tv_sec++, t.tv_nsec -= 1000000000;
        if (pthread_cond_timedwait(&cv, &m, &t) && was == tick) {
            freerun = 1;           /* blocked on something we do not know */
            pthread_cond_broadcast(&cv);
        }
    }
}

API void sched_point(void)
{
    if (!on || me < 0 || freerun)
        return;
    LOCK();
    tick++;
    count[me]++;
    if (--left <= 0) {
        pick();
        wait_turn();
    }
    UNLOCK();
}

static int owner_slot(void *l, int make)
{
    int i;
    for (i = 0; i < MAXLOCK; i++)
        if (locks[i].l == l)
            return i;
    if (make)
        for (i = 0; i < MAXLOCK; i++)
            if (!locks[i].l)
                return i;
    return -1;
}

static void before_lock(void *l)
{
    int s;
    if (!on || me < 0 || freerun)
        return;
    sched_point();
    LOCK();
    while ((s = owner_slot(l, 0)) >= 0 && locks[s].owner != me && !freerun) {
        blocked[me] = l;
        blocked_n++;
        pick();
        wait_turn();
        blocked[me] = NULL;
    }
    if ((s = owner_slot(l, 1)) >= 0)
        locks[s].l = l, locks[s].owner = me;
    UNLOCK();
}

static void after_unlock(void *l)
{
    int s, i;
    if (!on || me < 0)
        return;
    LOCK();
    if ((s = owner_slot(l, 0)) >= 0)
        locks[s].l = NULL;
    for (i = 0; i < nth; i++)
        if (blocked[i] == l)
            blocked[i] = NULL;
    UNLOCK();
    sched_point();
}

#define TAKE(f) int __wrap_##f(void *l) { int r; before_lock(l); r = __real_##f(l); return r; }
#define DROP(f) int __wrap_##f(void *l) { int r = __real_##f(l); after_unlock(l); return r; }
#define ONCE(f) int __wrap_##f(void *o, void (*g)(void)) { int r; before_lock(o); r = __real_##f(o, g); after_unlock(o); return r; }
TAKE(CRYPTO_THREAD_write_lock) TAKE(CRYPTO_THREAD_read_lock) DROP(CRYPTO_THREAD_unlock) ONCE(CRYPTO_THREAD_run_once)
TAKE(pthread_mutex_lock) DROP(pthread_mutex_unlock) ONCE(pthread_once)
TAKE(pthread_rwlock_wrlock) TAKE(pthread_rwlock_rdlock) DROP(pthread_rwlock_unlock)

/* what a thread frees is overwritten and stays: a use of it shows */
void __real_CRYPTO_free(void *, const char *, int);
void __wrap_CRYPTO_free(void *p, const char *f, int n)
{
    if (!on || me < 0 || !p)
        __real_CRYPTO_free(p, f, n);
    else
        memset(p, 0xDB, malloc_usable_size(p));
}
void __real_CRYPTO_clear_free(void *, size_t, const char *, int);
void __wrap_CRYPTO_clear_free(void *p, size_t z, const char *f, int n)
{
    if (!on || me < 0 || !p)
        __real_CRYPTO_clear_free(p, z, f, n);
    else
        memset(p, 0xDB, malloc_usable_size(p));
}

#define TRAMP_(f, g) \
    ".globl __wrap_" #f "\n.type __wrap_" #f ",@function\n__wrap_" #f ":\n" \
    "push %rdi\npush %rsi\npush %rdx\npush %rcx\npush %r8\npush %r9\npush %rax\n" \
    "call " #g "@PLT\n" \
    "pop %rax\npop %r9\npop %r8\npop %rcx\npop %rdx\npop %rsi\npop %rdi\njmp __real_" #f "@PLT\n"
#define TRAMP(f) TRAMP_(f, sched_point)
#define TRAMP2(f) TRAMP_(f, sched_point2)
/* calls that only matter for data in memory of the caller's: points at level 2 */
API void sched_point2(void)
{
    if (level > 1)
        sched_point();
}
__asm__(".text\n"
    TRAMP(EC_GROUP_set_curve_name) TRAMP(EC_GROUP_set_generator) TRAMP(EC_GROUP_new_curve_GFp) TRAMP(EC_GROUP_dup)
    TRAMP(EC_GROUP_copy) TRAMP(EC_GROUP_free) TRAMP(EC_KEY_set_group) TRAMP(EC_KEY_new) TRAMP(EC_POINT_new) TRAMP(EC_POINT_free)
    TRAMP(EC_POINT_set_affine_coordinates) TRAMP(BN_CTX_new) TRAMP(BN_CTX_secure_new) TRAMP(getenv) TRAMP(secure_getenv)
    TRAMP(strcmp) TRAMP(CRYPTO_strdup) TRAMP(OBJ_txt2nid) TRAMP(OBJ_sn2nid) TRAMP(EVP_PKEY_assign)
    TRAMP2(BN_bn2lebinpad) TRAMP2(BN_bn2binpad) TRAMP2(BN_bin2bn) TRAMP2(BN_lebin2bn) TRAMP2(BN_mod_mul)
    TRAMP2(BN_copy) TRAMP2(BN_mod_inverse) TRAMP2(EC_POINT_mul) TRAMP2(EC_POINT_copy) TRAMP2(EC_POINT_get_affine_coordinates)
    TRAMP2(EC_POINT_add) TRAMP2(EC_KEY_set_private_key) TRAMP2(EC_KEY_set_public_key) TRAMP2(RAND_bytes) TRAMP2(RAND_priv_bytes)
    TRAMP2(EVP_MD_CTX_new) TRAMP2(EVP_MD_CTX_free) TRAMP2(EVP_DigestInit_ex) TRAMP2(EVP_DigestUpdate) TRAMP2(EVP_DigestFinal_ex)
    TRAMP2(EVP_MD_CTX_copy_ex) TRAMP2(EVP_CIPHER_CTX_new) TRAMP2(EVP_CIPHER_CTX_free) TRAMP2(EVP_CipherInit_ex) TRAMP2(EVP_CipherUpdate)
    TRAMP2(EVP_EncryptInit_ex) TRAMP2(EVP_EncryptUpdate) TRAMP2(EVP_CIPHER_CTX_get_cipher_data) TRAMP2(EVP_MD_CTX_get0_md_data) TRAMP2(ASN1_STRING_set)
    TRAMP2(ASN1_OCTET_STRING_set) TRAMP2(ASN1_item_d2i) TRAMP2(ASN1_item_i2d) TRAMP2(HMAC_Init_ex) TRAMP2(HMAC_Update)
    TRAMP2(HMAC_Final) TRAMP2(OPENSSL_cleanse) TRAMP2(CRYPTO_memcmp) TRAMP2(memcpy) TRAMP2(memset)
    TRAMP2(memcmp) TRAMP2(memmove));

/* ------------------------------------------------------------ memory accesses */
static void access_(uintptr_t a, size_t z, int write)
{
    uint32_t w, e;
    int i;
    if (a < lo || a >= hi || (a >= rlo && a < rhi) || me < 0 || !on)
        return;
    w = (a - base) >> 3;
    if (rec) {
        if (write)
            for (e = (a + z - 1 - base) >> 3; w <= e; w++) {
                for (i = 0; i < nwr; i++)
                    if (wr[i] == w)
                        break;
                if (i == nwr && nwr < MAXHOT)
                    wr[nwr++] = w;
            }
        return;
    }
    for (i = 0; i < nhot; i++)
        if (hot[i] == w) {
            sched_point();
            return;
        }
}

#define RW(n) void __tsan_read##n(void *a) { access_((uintptr_t)a, n, 0); } void __tsan_write##n(void *a) { access_((uintptr_t)a, n, 1); } \
    void __tsan_unaligned_read##n(void *a) { access_((uintptr_t)a, n, 0); } void __tsan_unaligned_write##n(void *a) { access_((uintptr_t)a, n, 1); } \
    void __tsan_volatile_read##n(void *a) { access_((uintptr_t)a, n, 0); } void __tsan_volatile_write##n(void *a) { access_((uintptr_t)a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, long z) { access_((uintptr_t)a, z, 0); }
void __tsan_write_range(void *a, long z) { access_((uintptr_t)a, z, 1); }
void __tsan_func_entry(void *p) { }
void __tsan_func_exit(void *p) { }
void __tsan_init(void) { }
void __tsan_vptr_update(void *a, void *b) { }
void __tsan_atomic_thread_fence(int o) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int o) { }
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T *a, int o) { sched_point(); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int o) { if (rec) access_((uintptr_t)a, n / 8, 1); sched_point(); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int o) { sched_point(); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int o) { sched_point(); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int o) { sched_point(); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int o) { sched_point(); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int o) { sched_point(); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int o) { sched_point(); return __atomic_fetch_xor(a, v, 5); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { sched_point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { sched_point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

/* ------------------------------------------------------------ control */
API void sched_setup(int n, int ns, const int *s, int nh, const uint32_t *h, int record, int lv)
{
    int i;
    if (!hi)
        dl_iterate_phdr(phdr, NULL);
    nth = n;
    nseg = ns < MAXSEG ? ns : MAXSEG;
    for (i = 0; i < nseg; i++)
        seg[i][0] = s[2 * i], seg[i][1] = s[2 * i + 1];
    nhot = nh < MAXHOT ? nh : MAXHOT;
    memcpy(hot, h, nhot * 4);
    rec = record;
    level = lv;
    cur = freerun = 0;
    token = -1;
    on = 1;
}

/* wait until all are there, then take turns */
API void sched_enter(int i)
{
    int k, all = 1;
    LOCK();
    me = i;
    entered[i] = 1;
    for (k = 0; k < nth; k++)
        all &= entered[k];
    if (all)
        pick();
    while (token < 0 && !freerun)
        pthread_cond_wait(&cv, &m);
    wait_turn();
    UNLOCK();
}

API void sched_leave(void)
{
    LOCK();
    done[me] = 1;
    me = -1;
    pick();
    UNLOCK();
}

API int sched_info(int what, int i)
{
    return what == 0 ? count[i] : what == 1 ? switches : what == 2 ? freerun : what == 3 ? blocked_n : what == 4 ? nwr : what == 5 ? (int)wr[i] : 0;
}
