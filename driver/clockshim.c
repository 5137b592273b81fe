/* Preloaded into the server: makes its real-time clock the value found in the
 * file named by VERIF_CLOCK (two native 64-bit numbers: seconds, and seconds to
 * add after every look at the clock), which the driver changes between steps. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int64_t *cell;

__attribute__((constructor)) static void start(void)
{
    const char *p = getenv("VERIF_CLOCK");
    if (!p) return;
    int fd = open(p, O_RDWR);
    if (fd < 0) return;
    void *m = mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m != MAP_FAILED) cell = m;
    close(fd);
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    static int64_t nanos;
    if (cell && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec = __atomic_fetch_add(&cell[0], cell[1], __ATOMIC_SEQ_CST);
        /* distinct readings within a second, as a real clock gives */
        /* anywhere in the second, by process, but not running back within it */
        ts->tv_nsec = (nanos++ * 1009 + getpid() * 61803399LL % 950000000) % 1000000000;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    (void)tz;
    if (clock_gettime(CLOCK_REALTIME, &ts)) return -1;
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
