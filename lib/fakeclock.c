/* LD_PRELOAD: clocks that run FAKE_RATE times as fast and are FAKE_AHEAD seconds ahead (wall clock only).
 * Sleeping and waiting stay real. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static double rate = -1, ahead;
static struct timespec zero[16];

static int real_gettime(clockid_t id, struct timespec *t) { return syscall(SYS_clock_gettime, id, t); }

__attribute__((constructor)) static void init(void) {
    const char *a = getenv("FAKE_RATE"), *b = getenv("FAKE_AHEAD");
    for (int i = 0; i < 12; i++) real_gettime(i, &zero[i]);
    ahead = b ? atof(b) : 0;
    rate = a ? atof(a) : 1;
}

int clock_gettime(clockid_t id, struct timespec *t) {
    int r = real_gettime(id, t);
    if (r || rate < 0 || id < 0 || id > 11 || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return r;
    double d = ((t->tv_sec - zero[id].tv_sec) + (t->tv_nsec - zero[id].tv_nsec) / 1e9) * rate;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) d += ahead;
    long long s = (long long)d;
    long long ns = zero[id].tv_nsec + (long long)((d - s) * 1e9);
    t->tv_sec = zero[id].tv_sec + s + ns / 1000000000;
    t->tv_nsec = ns % 1000000000;
    return 0;
}

int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec t;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *out) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
