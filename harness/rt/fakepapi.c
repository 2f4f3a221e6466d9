/* A PAPI look-alike whose clock and counters are scripted by the harness; it also checks the call protocol. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MAXSET 4096
#define MAXEV 16
static long long now_ns;
static int n_known;
static char names[64][64];
static long long values[64];
static struct { int live, running, n; int ev[MAXEV]; long long base[MAXEV]; } sets[MAXSET];
static int nsets, live, max_live, errors;
static char first_error[256];
static void err(const char* m, int set) { if (!errors++) snprintf(first_error, sizeof first_error, "%s (event set %d)", m, set); }
void fake_set_time(long long t) { now_ns = t; }
static int ev_id(const char* n) {
    for (int i = 0; i < n_known; ++i) if (!strcmp(names[i], n)) return i;
    snprintf(names[n_known], 64, "%s", n);
    return n_known++;
}
void fake_set_counter(const char* n, long long v) { values[ev_id(n)] = v; }
int fake_errors(void) { return errors; }
const char* fake_first_error(void) { return first_error; }
int fake_live(void) { return live; }
int fake_max_live(void) { return max_live; }
int PAPI_library_init(int v) { return v; }
const char* PAPI_strerror(int e) { return "fake"; }
long long PAPI_get_real_nsec(void) { return now_ns; }
int PAPI_create_eventset(int* s) {
    if (nsets >= MAXSET) return -1;
    *s = nsets;
    memset(&sets[nsets], 0, sizeof sets[0]);
    sets[nsets].live = 1;
    ++nsets;
    if (++live > max_live) max_live = live;
    return 0;
}
static int ok(int s, const char* what) {
    if (s < 0 || s >= nsets || !sets[s].live) { err(what, s); return 0; }
    return 1;
}
int PAPI_add_named_event(int s, const char* n) {
    if (!ok(s, "add_named_event on a dead event set")) return -1;
    if (sets[s].n >= MAXEV) return -1;
    sets[s].ev[sets[s].n++] = ev_id(n);
    return 0;
}
int PAPI_start(int s) {
    if (!ok(s, "start of a dead event set")) return -1;
    if (sets[s].n == 0) return -1; /* like PAPI: nothing to start */
    if (sets[s].running) { err("start of a running event set", s); return -1; }
    sets[s].running = 1;
    for (int i = 0; i < sets[s].n; ++i) sets[s].base[i] = values[sets[s].ev[i]];
    return 0;
}
static int rd(int s, long long* v, const char* what) {
    if (!ok(s, what)) return -1;
    if (!sets[s].running) { err(what, s); return -1; }
    for (int i = 0; i < sets[s].n; ++i) v[i] = values[sets[s].ev[i]] - sets[s].base[i];
    return 0;
}
int PAPI_read(int s, long long* v) { return rd(s, v, "read of an event set that is not running"); }
int PAPI_stop(int s, long long* v) {
    if (rd(s, v, "stop of an event set that is not running")) return -1;
    sets[s].running = 0;
    return 0;
}
int PAPI_reset(int s) {
    for (int i = 0; i < sets[s].n; ++i) sets[s].base[i] = values[sets[s].ev[i]];
    return 0;
}
int PAPI_cleanup_eventset(int s) {
    if (!ok(s, "cleanup of a dead event set")) return -1;
    if (sets[s].running) { err("cleanup of a running event set", s); return -1; }
    sets[s].n = 0;
    return 0;
}
int PAPI_destroy_eventset(int* s) {
    if (!ok(*s, "destroy of a dead event set")) return -1;
    if (sets[*s].n) { err("destroy of an event set that was not cleaned up", *s); return -1; }
    sets[*s].live = 0;
    *s = -1;
    --live;
    return 0;
}
