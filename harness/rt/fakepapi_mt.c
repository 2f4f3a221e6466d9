/* A PAPI look-alike for several threads. Clock and counters belong to the calling thread, so that what a thread measures does not
   depend on the others. It is not instrumented and synchronises with a spin lock of its own, which the race detector cannot see:
   locking here must not hide missing locking in the code under test. */
#include <stdio.h>
#include <string.h>
#include <stdatomic.h>
#define MAXSET 65536
#define MAXEV 4
static __thread long long now_ns, ctr[MAXEV];
static atomic_flag lk = ATOMIC_FLAG_INIT;
static void lock(void) { while (atomic_flag_test_and_set(&lk)) {} }
static void unlock(void) { atomic_flag_clear(&lk); }
static struct { int live, running, n; int ev[MAXEV]; long long base[MAXEV]; } sets[MAXSET];
static int nsets, live, errors;
static char first_error[256];
static int err(const char* m, int s) { if (!errors++) snprintf(first_error, sizeof first_error, "%s (event set %d)", m, s); return -1; }
void fake_set(long long t, const long long* c) { now_ns = t; memcpy(ctr, c, sizeof ctr); }
int fake_errors(void) { return errors; }
const char* fake_first_error(void) { return first_error; }
int fake_live(void) { return live; }
int PAPI_library_init(int v) { return v; }
const char* PAPI_strerror(int e) { return "fake"; }
long long PAPI_get_real_nsec(void) { return now_ns; }
int PAPI_create_eventset(int* s) {
    lock();
    if (nsets >= MAXSET) { unlock(); return -1; }
    *s = nsets++;
    memset(&sets[*s], 0, sizeof sets[0]);
    sets[*s].live = 1;
    ++live;
    unlock();
    return 0;
}
static int bad(int s) { return s < 0 || s >= nsets || !sets[s].live; }
int PAPI_add_named_event(int s, const char* n) {
    lock();
    int r = 0;
    if (bad(s)) r = err("add_named_event on a dead event set", s);
    else if (sets[s].n >= MAXEV) r = -1;
    else sets[s].ev[sets[s].n++] = n[strlen(n) - 1] - '0';
    unlock();
    return r;
}
int PAPI_start(int s) {
    lock();
    int r = 0;
    if (bad(s)) r = err("start of a dead event set", s);
    else if (!sets[s].n) r = -1;
    else if (sets[s].running) r = err("start of a running event set", s);
    else {
        sets[s].running = 1;
        for (int i = 0; i < sets[s].n; ++i) sets[s].base[i] = ctr[sets[s].ev[i]];
    }
    unlock();
    return r;
}
static int rd(int s, long long* v, const char* w) {
    if (bad(s) || !sets[s].running) return err(w, s);
    for (int i = 0; i < sets[s].n; ++i) v[i] = ctr[sets[s].ev[i]] - sets[s].base[i];
    return 0;
}
int PAPI_read(int s, long long* v) {
    lock();
    int r = rd(s, v, "read of an event set that is not running");
    unlock();
    return r;
}
int PAPI_stop(int s, long long* v) {
    lock();
    int r = rd(s, v, "stop of an event set that is not running");
    if (!r) sets[s].running = 0;
    unlock();
    return r;
}
int PAPI_reset(int s) { return 0; }
int PAPI_cleanup_eventset(int s) {
    lock();
    int r = 0;
    if (bad(s)) r = err("cleanup of a dead event set", s);
    else if (sets[s].running) r = err("cleanup of a running event set", s);
    else sets[s].n = 0;
    unlock();
    return r;
}
int PAPI_destroy_eventset(int* s) {
    lock();
    int r = 0;
    if (bad(*s)) r = err("destroy of a dead event set", *s);
    else if (sets[*s].n) r = err("destroy of an event set that was not cleaned up", *s);
    else {
        sets[*s].live = 0;
        *s = -1;
        --live;
    }
    unlock();
    return r;
}
