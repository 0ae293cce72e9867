/* Preloaded into the program: the clock stands at FAKE_TIME seconds. */
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static time_t fake(void)
{
    const char *s = getenv("FAKE_TIME");
    return s ? (time_t)atoll(s) : 0;
}

int clock_gettime(clockid_t id, struct timespec *t)
{
    (void)id;
    t->tv_sec = fake();
    t->tv_nsec = 0;
    return 0;
}

int gettimeofday(struct timeval *restrict t, void *restrict tz)
{
    (void)tz;
    t->tv_sec = fake();
    t->tv_usec = 0;
    return 0;
}

time_t time(time_t *t)
{
    time_t x = fake();
    if (t)
        *t = x;
    return x;
}
