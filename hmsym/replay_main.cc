// Native driver: executes a script (one line per event) against the real allocator code and checks, event by event, that the
// real code does exactly what the symbolic machine predicted for one concrete assignment.
#include <malloc.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <new>
#include <exception>
typedef uint64_t u64;
#define MMAP_START 0x100000000000ull

struct fnent { const char *name; u64 (*fn)(u64, u64, u64, u64, u64); };
#include "table.h"

static char **lines; static size_t nlines, cur;
static __thread int self_tid;
static sem_t sems[1024]; static int started[1024];
static int maintid;

static void done(int rc) { fflush(stdout); _exit(rc); }
static void mismatch(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    printf("MISMATCH at script line %zu [%s]: ", cur + 1, cur < nlines ? lines[cur] : "<end>");
    vprintf(fmt, ap); printf("\n"); va_end(ap); done(3);
}
static void *thread_main(void *);
static int run(int);
extern "C" { static void key_apply(); }
static void handover(int k) {
    int me = self_tid;
    if (k == me) return;
    if (!started[k]) {
        started[k] = 1; pthread_t t; sem_init(&sems[k], 0, 0);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
        pthread_create(&t, &at, thread_main, (void *)(intptr_t)k);
    } else sem_post(&sems[k]);
    sem_wait(&sems[me]);
    key_apply();
}
// handle thread switches that precede the next event
static void sync_threads() {
    while (cur < nlines && lines[cur][0] == 'T') {
        int k = atoi(lines[cur] + 2); cur++; handover(k);
    }
}
static void *thread_main(void *a) { self_tid = (int)(intptr_t)a; key_apply(); run(0); return NULL; }

static int tok(char *l, char **v, int max) { int n = 0; char *s = NULL; for (char *p = strtok_r(l, " ", &s); p && n < max; p = strtok_r(NULL, " ", &s)) v[n++] = p; return n; }
static char *dupl(const char *l) { return strdup(l); }
static u64 num(const char *s) { return strtoull(s, NULL, 16); }
static int isdata(u64 x) { return x >= 0x1000 && x < MMAP_START; }
static int hexb(const char *h, unsigned char *o) { int n = 0; if (h[0] == '-') return 0; for (; h[0] && h[1]; h += 2) { unsigned b; sscanf(h, "%2x", &b); o[n++] = b; } return n; }

// expected system call line:  Y name nargs args... ret err
static u64 sys_event(const char *name, int n, const u64 *args, int *err) {
    sync_threads();
    if (cur >= nlines || lines[cur][0] != 'Y') mismatch("real code calls %s(%llx, %llx, %llx)", name, (long long)(n > 0 ? args[0] : 0), (long long)(n > 1 ? args[1] : 0), (long long)(n > 2 ? args[2] : 0));
    char *l = dupl(lines[cur]); char *v[16]; int k = tok(l, v, 16);
    if (strcmp(v[1], name)) mismatch("real code calls %s(%llx, %llx)", name, (long long)args[0], (long long)args[1]);
    int na = atoi(v[2]);
    for (int i = 0; i < na && i < n; i++) {
        if (v[3 + i][0] == '*') continue;
        u64 e = num(v[3 + i]);
        if (e != args[i]) mismatch("real code calls %s with argument %d = %llx", name, i, (long long)args[i]);
    }
    u64 r = num(v[3 + na]); *err = (int)num(v[4 + na]); (void)k;
    cur++;
    return r;
}
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_mprotect(void *, size_t, int);
int __real_madvise(void *, size_t, int); void *__real_mremap(void *, size_t, size_t, int, ...);
// protection keys: pages with the key lose access while the running thread's rights deny it
struct Keyed { u64 a, b; int p; };
static Keyed keyed[4096]; static int nkeyed; static unsigned rights[16]; static int has_key; static int cur_rights = -1;
static void key_apply() {
    if (!has_key || cur_rights == (int)rights[self_tid & 15]) return;
    cur_rights = rights[self_tid & 15];
    int se = errno;
    for (int i = 0; i < nkeyed; i++)
        if (__real_mprotect((void *)keyed[i].a, keyed[i].b - keyed[i].a, cur_rights & 1 ? 0 : cur_rights & 2 ? keyed[i].p & 1 : keyed[i].p)) { printf("ENVIRONMENT mprotect failed\n"); done(4); }
    errno = se;
}
static void key_drop(u64 a, u64 l) {
    u64 b = a + (l + 4095 & ~4095ull);
    for (int i = 0; i < nkeyed; i++) {
        Keyed k = keyed[i];
        if (k.b <= a || b <= k.a) continue;
        keyed[i--] = keyed[--nkeyed];
        if (k.a < a) keyed[nkeyed++] = {k.a, a, k.p};
        if (b < k.b) keyed[nkeyed++] = {b, k.b, k.p};
        i = -1;
    }
}
void *__wrap_mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
    u64 args[4] = {(u64)a, l, (u64)p, (u64)f}; int e; u64 r = sys_event("mmap", 4, args, &e);
    if (e) { errno = e; return MAP_FAILED; }
    if (!(f & MAP_FIXED)) f |= MAP_FIXED_NOREPLACE;
    int se = errno;
    void *q = __real_mmap((void *)r, l, p, f | MAP_NORESERVE, fd, o);
    if (has_key) key_drop(r, l);
    if ((u64)q != r) { printf("ENVIRONMENT mmap %llx %zx failed: %s\n", (long long)r, l, strerror(errno)); done(4); }
    errno = se;
    return q;
}
int __wrap_munmap(void *a, size_t l) {
    u64 args[2] = {(u64)a, l}; int e; sys_event("munmap", 2, args, &e);
    if (e) { errno = e; return -1; }
    int se = errno;
    if (has_key) key_drop((u64)a, l);
    if (__real_munmap(a, l)) { printf("ENVIRONMENT munmap failed\n"); done(4); }
    errno = se; return 0;
}
int __wrap_mprotect(void *a, size_t l, int p) {
    u64 args[3] = {(u64)a, l, (u64)p}; int e; sys_event("mprotect", 3, args, &e);
    if (e) { errno = e; return -1; }
    if (has_key) {
        // pages with the key keep it
        int hit = 0; u64 x = (u64)a, y = x + (l + 4095 & ~4095ull);
        for (int i = 0; i < nkeyed; i++) if (keyed[i].a < y && x < keyed[i].b) {
            if (keyed[i].a < x || keyed[i].b > y) { printf("ENVIRONMENT protection of a part of a keyed range\n"); done(4); }
            keyed[i].p = p; hit = 1;
        }
        if (hit) { cur_rights = -1; key_apply(); return 0; }
    }
    if (isdata((u64)a) || (u64)a < MMAP_START || (u64)a >= 0x500000000000ull) return 0;   // the read-only page of the data segment
    int se = errno;
    if (__real_mprotect(a, l, p)) { printf("ENVIRONMENT mprotect %p %zx failed: %s\n", a, l, strerror(errno)); done(4); }
    errno = se; return 0;
}
int __wrap_madvise(void *a, size_t l, int adv) {
    u64 args[3] = {(u64)a, l, (u64)adv}; int e; sys_event("madvise", 3, args, &e);
    if (e) { errno = e; return -1; }
    int se = errno; __real_madvise(a, l, adv); errno = se; return 0;
}
void *__wrap_mremap(void *o, size_t os, size_t ns, int fl, void *n) {
    u64 args[5] = {(u64)o, os, ns, (u64)fl, (u64)n}; int e; sys_event("mremap", 5, args, &e);
    if (e) { errno = e; return MAP_FAILED; }
    int se = errno; void *q = __real_mremap(o, os, ns, fl, n);
    if (q == MAP_FAILED) { printf("ENVIRONMENT mremap failed: %s\n", strerror(errno)); done(4); }
    errno = se; return q;
}
int __wrap_pkey_alloc(unsigned f, unsigned r) {
    u64 a[1] = {0}; int e; u64 x = sys_event("pkey_alloc", 0, a, &e); if (e) { errno = e; return -1; }
    for (int i = 0; i < 16; i++) rights[i] = 1;
    rights[self_tid & 15] = r; has_key = 1; return (int)x;
}
int __wrap_pkey_set(int k, unsigned r) { u64 a[2] = {(u64)k, r}; int e; sys_event("pkey_set", 2, a, &e); rights[self_tid & 15] = r; key_apply(); return 0; }
int __wrap_pkey_mprotect(void *a, size_t l, int p, int k) {
    u64 args[4] = {(u64)a, l, (u64)p, (u64)(uint32_t)k}; int e; sys_event("pkey_mprotect", 4, args, &e);
    if (e) { errno = e; return -1; }
    if ((u64)a < MMAP_START || (u64)a >= 0x500000000000ull) return 0;
    if (k > 0) { key_drop((u64)a, l); keyed[nkeyed++] = {(u64)a, (u64)a + (l + 4095 & ~4095ull), p}; int se = errno; cur_rights = -1; key_apply(); errno = se; return 0; }
    int se = errno; if (__real_mprotect(a, l, p)) { printf("ENVIRONMENT mprotect failed\n"); done(4); } errno = se; return 0;
}
long __wrap_sysconf(int) { return 4096; }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned) {
    sync_threads();
    if (cur >= nlines || lines[cur][0] != 'N') mismatch("real code calls getrandom(%zu)", n);
    char *l = dupl(lines[cur]); char *v[8]; tok(l, v, 8);
    long r = (long)num(v[2]); int e = (int)num(v[3]);
    if (num(v[1]) != n) mismatch("getrandom length %zu", n);
    static unsigned char t[65536]; int k = hexb(v[4], t);
    memcpy(b, t, k);
    cur++;
    if (e) { errno = e; return -1; }
    return r;
}
#ifndef REAL_CHACHA
void __wrap_chacha_keystream_bytes(void *, void *out, unsigned n) {
    sync_threads();
    if (cur >= nlines || lines[cur][0] != 'K') mismatch("real code draws %u keystream bytes", n);
    char *l = dupl(lines[cur]); char *v[8]; tok(l, v, 8);
    if (num(v[1]) != n) mismatch("keystream length %u", n);
    static unsigned char t[65536]; int k = hexb(v[2], t);
    memcpy(out, t, k);
    cur++;
}
#endif
static char errtext[4096]; static size_t errlen; static int closed;
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    sync_threads();
    if (cur < nlines && lines[cur][0] == 'w') {    // scripted short or failed write
        char *l = dupl(lines[cur]); char *v[8]; tok(l, v, 8); long r = (long)num(v[1]); int e = (int)num(v[2]); cur++;
        if (num(v[3])) closed = e;                 // every later write fails as well
        if (e) { errno = e; return -1; }
        if (fd == 2 && errlen + r < sizeof errtext) { memcpy(errtext + errlen, b, r); errlen += r; }
        return r;
    }
    if (closed) { errno = closed; return -1; }
    if (fd == 2 && errlen + n < sizeof errtext) { memcpy(errtext + errlen, b, n); errlen += n; }
    return n;
}
int __wrap_prctl(int, ...) {
    sync_threads();
    if (cur < nlines && lines[cur][0] == 'q') { int e = (int)num(lines[cur] + 2); cur++; errno = e; return -1; }
    return 0;
}
void __wrap_abort(void) {
    sync_threads();
    if (cur >= nlines || lines[cur][0] != 'A') mismatch("real code aborts: %s", errtext);
    unsigned char t[4096]; int k = hexb(lines[cur] + 2, t); t[k] = 0;
    if ((size_t)k != errlen || memcmp(t, errtext, k)) mismatch("real code aborts with a different text: %s", errtext);
    printf("observed: abort \"%.*s\"\n", (int)(errlen && errtext[errlen - 1] == '\n' ? errlen - 1 : errlen), errtext);
    cur++;
    printf("REPRODUCED\n"); done(0);
    __builtin_unreachable();
}
static struct { void *m; int owner; } held[256]; static int nheld;
static int lockidx(void *m) { for (int i = 0; i < nheld; i++) if (held[i].m == m) return i; return -1; }
static void lock_event(char c, void *m) {
    sync_threads();
    if (c == 'L' && lockidx(m) >= 0) {
        if (cur < nlines && lines[cur][0] == 'H') { printf("observed: deadlock on mutex %p\n", m); printf("REPRODUCED\n"); done(0); }
        mismatch("real code deadlocks on mutex %p", m);
    }
    if (cur >= nlines || lines[cur][0] != c) mismatch("real code: %s of mutex %p", c == 'L' ? "lock" : c == 'U' ? "unlock" : "init", m);
    u64 e = num(lines[cur] + 2);
    if (e >= MMAP_START && e != (u64)m) mismatch("real code: %c of mutex %p", c, m);
    cur++;
    if (c == 'L') { held[nheld].m = m; held[nheld].owner = self_tid; nheld++; }
    else { int i = lockidx(m); if (i >= 0) held[i] = held[--nheld]; }
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { volatile char c = *(volatile char *)m; (void)c; lock_event('L', m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { volatile char c = *(volatile char *)m; (void)c; lock_event('U', m); return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) {
    sync_threads();
    if (cur < nlines && lines[cur][0] == 'i') { cur++; return 12; }
    { volatile char *t = (volatile char *)m; *t = *t; }
    lock_event('I', m); memset(m, 0, sizeof *m); return 0; }
static void (*af[3])(void);
int __wrap_pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) {
    sync_threads();
    if (cur >= nlines || lines[cur][0] != 'F') mismatch("real code calls pthread_atfork");
    int r = (int)num(lines[cur] + 2); cur++;
    af[0] = a; af[1] = b; af[2] = c; return r;
}
u64 at_prepare(u64, u64, u64, u64, u64) { if (af[0]) af[0](); return 0; }
u64 at_parent(u64, u64, u64, u64, u64) { if (af[1]) af[1](); return 0; }
u64 at_child(u64, u64, u64, u64, u64) { if (af[2]) af[2](); return 0; }
struct mallinfo2 h_mallinfo2(void) __attribute__((weak));
struct mallinfo h_mallinfo(void) __attribute__((weak));
int h_malloc_info(int, FILE *) __attribute__((weak));
// Android only
struct mallinfo2 h_mallinfo_arena_info(size_t) __attribute__((weak));
struct mallinfo2 h_mallinfo_bin_info(size_t, size_t) __attribute__((weak));
u64 at_mallinfo_arena_info(u64 o, u64 a, u64, u64, u64) { *(struct mallinfo2 *)o = h_mallinfo_arena_info(a); return 0; }
u64 at_mallinfo_bin_info(u64 o, u64 a, u64 b, u64, u64) { *(struct mallinfo2 *)o = h_mallinfo_bin_info(a, b); return 0; }
void async_safe_fatal(const char *fmt, ...) {
    char t[2048]; va_list ap; va_start(ap, fmt); vsnprintf(t, sizeof t - 1, fmt, ap); va_end(ap);
    const char *s = strncmp(t, "hardened_malloc: ", 17) ? t : t + 17;
    errlen = snprintf(errtext, sizeof errtext, "%s\n", s);
    __wrap_abort();
}
u64 at_mallinfo2(u64 a, u64, u64, u64, u64) { *(struct mallinfo2 *)a = h_mallinfo2(); return 0; }
u64 at_mallinfo(u64 a, u64, u64, u64, u64) {
#ifdef HM_ANDROID
    *(struct mallinfo2 *)a = ((struct mallinfo2 (*)(void))h_mallinfo)();
#else
    *(struct mallinfo *)a = h_mallinfo();
#endif
    return 0;
}
static char infobuf[65536]; static size_t infolen;
static ssize_t info_write(void *, const char *b, size_t n) {
    sync_threads();
    if (cur < nlines && lines[cur][0] == 'B') { cur++; printf("observed: the stream calls back\n"); run(1); }
    if (infolen + n < sizeof infobuf) { memcpy(infobuf + infolen, b, n); infolen += n; }
    return n;
}
u64 at_malloc_info_cb(u64 o, u64, u64, u64, u64) {
    cookie_io_functions_t io = {}; io.write = info_write;
    FILE *f = fopencookie(NULL, "w", io); setvbuf(f, NULL, _IONBF, 0);
    int r = h_malloc_info((int)o, f);
    printf("observed: malloc_info: %.*s\n", (int)(infolen < 600 ? infolen : 600), infobuf); return (unsigned)r;
}
u64 at_malloc_info(u64 o, u64, u64, u64, u64) {
    char *b = 0; size_t n = 0; FILE *f = open_memstream(&b, &n);
    int r = h_malloc_info((int)o, f); fclose(f); printf("observed: malloc_info: %.600s\n", b ? b : ""); free(b); return (unsigned)r;
}
}
static int prot_of(u64 a) {
    FILE *f = fopen("/proc/self/maps", "r"); char b[512]; int r = 0;
    while (fgets(b, sizeof b, f)) { u64 x, y; char p[8]; if (sscanf(b, "%lx-%lx %7s", &x, &y, p) == 3 && a >= x && a < y) { r = (p[0] == 'r' ? 1 : 0) | (p[1] == 'w' ? 2 : 0); break; } }
    fclose(f); return r;
}
static void segv(int, siginfo_t *si, void *) {
    u64 a = (u64)si->si_addr;
    if (cur < nlines && lines[cur][0] == 'S') {
        char *l = lines[cur], *sp = strchr(l + 2, ' '); u64 e = num(l + 2), end = sp ? num(sp + 1) : 0;
        if (e == a || (e <= a && a < end) || si->si_code == 128 || l[2] == '*') { printf("observed: fault at %llx\n", (long long)a); printf("REPRODUCED\n"); done(0); }
    }
    mismatch("real code faults at %llx", (long long)a);
}
static void term() {
    if (cur < nlines && lines[cur][0] == 'Z') { printf("observed: std::terminate\nREPRODUCED\n"); done(0); }
    mismatch("std::terminate");
}
static u64 (*find(const char *n))(u64, u64, u64, u64, u64) {
    for (unsigned i = 0; i < sizeof table / sizeof *table; i++) if (!strcmp(table[i].name, n)) return table[i].fn;
    mismatch("no function %s", n); return 0;
}
static u64 hh_calls;
struct Derived : std::bad_alloc {};
static int run(int depth);
static void handler(int id) {
    hh_calls++;
    if (cur >= nlines || lines[cur][0] != 'B' || (int)num(lines[cur] + 2) != id) mismatch("real code calls new handler %d", id);
    printf("observed: new handler %d called\n", id); cur++;
    int how = run(1);
    if (how == 1) throw std::bad_alloc();
    if (how == 2) throw Derived();
}
static void handler1() { handler(1); }
static void handler2() { handler(2); }
static int run(int depth) {
    for (;;) {
        if (depth && cur < nlines && lines[cur][0] == 'b') { int h = (int)num(lines[cur] + 2); cur++; return h; }
        if (depth && cur < nlines && lines[cur][0] == 'H') { printf("observed: the new handler is called again and again\nREPRODUCED\n"); done(0); }
        if (cur >= nlines) { printf("REPRODUCED\n"); done(0); }
        char *l = dupl(lines[cur]); char *v[16]; int k = tok(l, v, 16);
        switch (v[0][0]) {
        case 'T': { int t = atoi(v[1]); cur++; handover(t); break; }
        case 'C': {
            auto f = find(v[1]); u64 a[5] = {0};
            for (int i = 2; i < k && i < 7; i++) a[i - 2] = v[i][0] == '@' ? (u64)&hh_calls : num(v[i]);
            cur++;
            u64 r = 0; int thrown = 0;
            try { r = f(a[0], a[1], a[2], a[3], a[4]); } catch (std::bad_alloc &) { thrown = 1; } catch (...) { thrown = 2; }
            sync_threads();
            if (thrown) { if (cur >= nlines || lines[cur][0] != 'X') mismatch("exception thrown"); cur++; printf("observed: %s throws\n", v[1]); break; }
            if (cur >= nlines || lines[cur][0] != 'R') mismatch("%s returned %llx", v[1], (long long)r);
            char *w[4]; char *l2 = dupl(lines[cur]); tok(l2, w, 4);
            int bits = atoi(w[1]); u64 e = num(w[2]);
            if (bits && ((e ^ r) & (bits == 64 ? ~0ull : (1ull << bits) - 1)) && !(isdata(e))) mismatch("%s returned %llx, expected %llx", v[1], (long long)r, (long long)e);
            printf("observed: %s -> %llx\n", v[1], (long long)(bits == 0 ? 0 : bits == 64 ? r : r & ((1ull << bits) - 1)));
            cur++;
            break; }
        case 'P': { u64 a = num(v[1]), x = num(v[3]); cur++; memcpy((void *)a, &x, num(v[2])); break; }
        case 'G': { u64 a = num(v[1]), x = 0, e = num(v[3]); int n = (int)num(v[2]); memcpy(&x, (void *)a, n);
            if (x != e) mismatch("memory at %llx is %llx", (long long)a, (long long)x);
            printf("observed: %d bytes at %llx = %llx\n", n, (long long)a, (long long)x); cur++; break; }
        case 'V': { u64 a = num(v[1]); int p = prot_of(a), e = (int)num(v[2]); if (p != e) mismatch("protection at %llx is %d", (long long)a, p);
            printf("observed: protection at %llx = %s\n", (long long)a, p == 3 ? "rw" : p == 1 ? "r" : p ? "w" : "none"); cur++; break; }
        case 'E': errno = (int)num(v[1]); cur++; break;
        case 'e': { int x = errno; if (x != (int)num(v[1])) mismatch("errno is %d", x); printf("observed: errno = %d\n", x); cur++; break; }
        case 'h': { int i = (int)num(v[1]); std::set_new_handler(i == 0 ? nullptr : i == 1 ? handler1 : handler2); cur++; break; }
        default: mismatch("real code went on without the expected event");
        }
    }
}
static void late(int) {
    if (cur < nlines && lines[cur][0] == 'H') { printf("observed: the call does not return within 20 seconds\n"); printf("REPRODUCED\n"); done(0); }
    mismatch("real code does not get on");
}
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r"); char *b = NULL; size_t c = 0; ssize_t n; size_t cap = 0;
    while ((n = getline(&b, &c, f)) > 0) {
        while (n && (b[n - 1] == '\n' || b[n - 1] == ' ')) b[--n] = 0;
        if (!n || b[0] == '#') continue;
        if (nlines == cap) lines = (char **)realloc(lines, (cap = cap * 2 + 64) * sizeof *lines);
        lines[nlines++] = strdup(b);
    }
    static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
    struct sigaction sa = {}; sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGILL, &sa, NULL); sigaction(SIGTRAP, &sa, NULL);
    signal(SIGALRM, late);
    std::set_terminate(term); alarm(20);
    __real_mmap((void *)0x600000000000ull, 0x100000, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    sem_init(&sems[0], 0, 0); started[0] = 1; self_tid = 0;
    run(0);
}
