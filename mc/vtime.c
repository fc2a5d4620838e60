/* LD_PRELOAD shim: a virtual clock for clock_gettime/gettimeofday/time, switched on by the harness. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdint.h>
static volatile int on = 0;
static volatile int64_t wall = 0, mono = 0;
void vt_set(int flag, int64_t w, int64_t m) { wall = w; mono = m; on = flag; }
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (on) {
    int64_t v;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) v = wall;
    else if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME) v = mono;
    else return syscall(SYS_clock_gettime, id, ts);
    ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec; return ts.tv_sec;
}
