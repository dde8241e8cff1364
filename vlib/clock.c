/* Moves the clock of a process: VERIF_CLOCK is the number of seconds to add. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static long long shift(void)
{
    const char *s = getenv("VERIF_CLOCK");
    return s ? atoll(s) : 0;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    static int (*real)(clockid_t, struct timespec *);
    if (!real)
        real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(id, ts);
    if (r == 0 && id == CLOCK_REALTIME)
        ts->tv_sec += shift();
    return r;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    int r = clock_gettime(CLOCK_REALTIME, &ts);
    (void)tz;
    if (r == 0 && tv) {
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    }
    return r;
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
