/* Simulated clocks for one process: interposed with LD_PRELOAD, off until switched on. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <sys/time.h>
#include <time.h>

static int on, n_real, n_mono;
static int64_t real_ns, mono_ns, tick_ns;
static int64_t jump_at[16], jump_by[16];
static int n_jumps;
static int (*orig)(clockid_t, struct timespec *);

void sim_clock_on(int64_t real, int64_t mono, int64_t tick) { real_ns = real; mono_ns = mono; tick_ns = tick; n_real = n_mono = n_jumps = 0; on = 1; }
void sim_clock_jump(int64_t at, int64_t by) { if (n_jumps < 16) { jump_at[n_jumps] = at; jump_by[n_jumps++] = by; } }
void sim_clock_off(void) { on = 0; }
int sim_clock_reads(void) { return n_real; }
int sim_clock_mono_reads(void) { return n_mono; }

static void put(int64_t ns, struct timespec *ts) { ts->tv_sec = ns / 1000000000; ts->tv_nsec = ns % 1000000000; if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; } }

int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!orig) orig = dlsym(RTLD_NEXT, "clock_gettime");
  if (!on) return orig(id, ts);
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
    n_real++;
    real_ns += tick_ns;
    for (int i = 0; i < n_jumps; i++) if (jump_at[i] == n_real) real_ns += jump_by[i];
    put(real_ns, ts);
    return 0;
  }
  if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) {
    n_mono++;
    mono_ns += tick_ns;
    for (int i = 0; i < n_jumps; i++) if (jump_at[i] == n_mono && jump_by[i] > 0) mono_ns += jump_by[i];
    put(mono_ns, ts);
    return 0;
  }
  return orig(id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
