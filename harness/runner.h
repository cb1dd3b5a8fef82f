/*
 * One process per program, with limits; those which fail say so in the log.
 * VP_STOP names a file which is shared by all drivers of a check: when enough
 * programs have failed, the others are not run. VP_DEADLINE is when to stop.
 */
#ifndef CPU_LIMIT
#define CPU_LIMIT 10
#endif

static int errFd, stopFd = -1, hangs_;
static long most;

/* run a program; its log, and what became of it, are written to outFd */
static void runOne(const char **from, int n)
{
    int st;
    pid_t pid;
    struct rusage ru, ru0;
    getrusage(RUSAGE_CHILDREN, &ru0);
    if (ftruncate(errFd, 0)) _exit(3);
    pid = fork();
    if (pid == 0) {
        struct itimerval tv;
        int nul = open("/dev/null", O_WRONLY);
        if (nul >= 0) dup2(nul, 1);
        if (!getenv("KEEP")) dup2(errFd, 2);
        lines = from;
        nlines = n;
        struct rlimit rl = {(rlim_t) 3 << 30, (rlim_t) 3 << 30};
        setrlimit(RLIMIT_AS, &rl);
        memset(&tv, 0, sizeof(tv));
        tv.it_value.tv_sec = CPU_LIMIT;
        setitimer(ITIMER_PROF, &tv, NULL);
        alarm(12 * CPU_LIMIT);
        runScript();
        lputs("{\"op\":[\"end\"],\"r\":0,\"fin\":[]}\n");
        lflush();
        _exit(0);
    }
    while (waitpid(pid, &st, 0) < 0);
    getrusage(RUSAGE_CHILDREN, &ru);
    {
#define MS(f) ((long) (ru.f.tv_sec - ru0.f.tv_sec) * 1000 + ((long) ru.f.tv_usec - (long) ru0.f.tv_usec) / 1000)
        long t = MS(ru_utime) + MS(ru_stime);
        /* what a failed program costs counts, too */
        if (stopFd >= 0 && st && (t >= 1000 || !(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT))) {
            static const char dots[] = "........................................";
            long w = 1 + t / 500;
            if (w > 40) w = 40;
            if (write(stopFd, dots, (size_t) w) < 0) {}
        }
        if (t > most) most = t;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) {
        /* stopped deliberately: for which reason? */
        char msg[4097];
        struct stat es;
        ssize_t rd = pread(errFd, msg, 4096, !fstat(errFd, &es) && es.st_size > 4096 ? es.st_size - 4096 : 0);
        msg[rd > 0 ? rd : 0] = 0;
        lputs("\n{\"op\":[\"abort\",");
        lnum(strstr(msg, "ut of memory") || strstr(msg, "tiny heap") || strstr(msg, strerror(ENOMEM)) ? 1 : strstr(msg, "emory corruption") ? 2 : 0);
        lputs("],\"r\":0,\"fin\":[]}\n");
        lflush();
    } else if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGPROF || s == SIGALRM) hangs_++;
        lputs(s == SIGPROF || s == SIGALRM ? "\n{\"op\":[\"hang\"],\"r\":" : "\n{\"op\":[\"crash\"],\"r\":");
        lnum(s);
        lputs(",\"fin\":[]}\n");
        lflush();
    } else if (WEXITSTATUS(st) != 0) {
        lputs("\n{\"op\":[\"exit\"],\"r\":");
        lnum(WEXITSTATUS(st));
        lputs(",\"fin\":[]}\n");
        lflush();
    }
}

#ifdef RUNNER_SWEEP
/*
 * A program which begins with "sweep K LIM SEED" is run under every schedule
 * of at most K preemptions (about LIM of those with more than one, chosen at
 * random); logs which differ from each other are all written. The child is
 * told the preemptions, and says how many points there were, and how many
 * other threads might have run at each.
 */
#include <sys/mman.h>
#include <sys/syscall.h>
#define SWEEP_POINTS 100000
struct sweep {
    int n;
    long step[4];
    int choice[4];
    long steps;
    unsigned char alt[SWEEP_POINTS];
};
static struct sweep *sw;
static int sweepOut, sweepCap;
static long sweepRuns, sweepPairs, sweepLim;
static unsigned long long *sweepSeen;
#define SWEEP_SEEN (1 << 18)
static unsigned long long sweepRs;
static double sweepRnd(void)
{
    sweepRs = sweepRs * 6364136223846793005ULL + 1442695040888963407ULL;
    return (double) (sweepRs >> 40) / (double) (1 << 24);
}
static int stopped(void);
static void sweepRec(const char *name, const char **from, int n, int k)
{
    unsigned long long hash = 14695981039346656037ULL, at;
    struct stat sb;
    char *log;
    ssize_t len = 0, r;
    long s, steps;
    unsigned char *alt;
    int c, mine = sw->n;
    if (hangs_ >= 3 || stopped()) return;
    outFd = sweepCap;
    if (ftruncate(sweepCap, 0)) _exit(3);
    sw->steps = 0;
    runOne(from, n);
    outFd = sweepOut;
    sweepRuns++;
    fstat(sweepCap, &sb);
    log = (char *) malloc((size_t) sb.st_size + 1);
    while (len < sb.st_size && (r = pread(sweepCap, log + len, (size_t) (sb.st_size - len), len)) > 0) len += r;
    log[len] = 0;
    for (s = 0; s < len; s++) hash = (hash ^ (unsigned char) log[s]) * 1099511628211ULL;
    hash |= 1;
    for (at = hash >> 20; sweepSeen[at % SWEEP_SEEN] && sweepSeen[at % SWEEP_SEEN] != hash; at++);
    if (!sweepSeen[at % SWEEP_SEEN]) {
        sweepSeen[at % SWEEP_SEEN] = hash;
        lputs(name);
        for (c = 0; c < mine; c++) { lputs(" "); lnum(sw->step[c]); lputs(" "); lnum(sw->choice[c]); }
        lputs("\n");
        lputs(log);
        lflush();
    }
    free(log);
    if (mine >= k) return;
    steps = sw->steps < SWEEP_POINTS ? sw->steps : SWEEP_POINTS;
    alt = (unsigned char *) malloc((size_t) steps + 1);
    memcpy(alt, sw->alt, (size_t) steps);
    if (mine == 0) {
        sweepPairs = 0;
        for (s = 0; s < steps; s++) sweepPairs += alt[s];
        sweepPairs = sweepPairs * sweepPairs / 2;
    }
    for (s = mine ? sw->step[mine-1] + 1 : 0; s < steps; s++) {
        for (c = 0; c < alt[s]; c++) {
            if (mine && sweepRnd() * (double) sweepPairs > (double) sweepLim) continue;
            sw->n = mine + 1;
            sw->step[mine] = s;
            sw->choice[mine] = c;
            sweepRec(name, from, n, k);
        }
    }
    sw->n = mine;
    free(alt);
}
static void sweep(const char *name, const char **from, int n)
{
    int k = 1;
    unsigned long seed = 1;
    sscanf(from[0], "sweep %d %ld %lu", &k, &sweepLim, &seed);
    sweepRs = seed * 2862933555777941757ULL + 3037000493ULL;
    if (!sw) {
        /* (not by mmap, which may be a stand-in) */
        sw = (struct sweep *) syscall(SYS_mmap, NULL, sizeof(*sw), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        sweepCap = memfd_create("log", 0);
        if (sw == MAP_FAILED || sweepCap < 0) _exit(3);
        fcntl(sweepCap, F_SETFL, O_APPEND);
        sweepSeen = (unsigned long long *) malloc(SWEEP_SEEN * sizeof(*sweepSeen));
    }
    memset(sweepSeen, 0, SWEEP_SEEN * sizeof(*sweepSeen));
    sweepOut = outFd;
    sweepRuns = 0;
    sw->n = 0;
    sweepRec(name, from, n, k);
    lputs("R ");
    lnum(sweepRuns);
    lputs("\n");
    lflush();
}
#endif

static int stopped(void)
{
    struct stat sb;
    const char *deadline = getenv("VP_DEADLINE");
    if (stopFd >= 0 && !fstat(stopFd, &sb) && sb.st_size >= 400) return 1;
    if (deadline && time(NULL) > atol(deadline)) return 2;
    return 0;
}

int main(int argc, char **argv)
{
    FILE *f;
    char *buf;
    long n;
    char *c;
    const char **all;
    int nall = 0, i;
    const char *stopF = getenv("VP_STOP");
    if (argc < 3) return 2;
    f = fopen(argv[1], "r");
    if (!f) { perror(argv[1]); return 2; }
    fseek(f, 0, SEEK_END);
    n = ftell(f);
    rewind(f);
    buf = (char *) malloc((size_t) n + 1);
    if (fread(buf, 1, (size_t) n, f) != (size_t) n) return 2;
    buf[n] = 0;
    fclose(f);
    all = (const char **) malloc(((size_t) n + 2) * sizeof(char *));
    for (c = strtok(buf, "\n"); c; c = strtok(NULL, "\n")) all[nall++] = c;
    outFd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666);
    if (outFd < 0) { perror(argv[2]); return 2; }
    {
        char en[4096];
        snprintf(en, sizeof(en), "%s.err", argv[2]);
        errFd = open(en, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
        if (errFd < 0) { perror(en); return 2; }
        unlink(en);
    }
    if (stopF) stopFd = open(stopF, O_RDWR | O_CREAT | O_APPEND, 0600);
    /* a few hangs are enough to know, and so are many crashes */
    for (i = 0; i < nall && hangs_ < 3;) {
        int j;
        switch (stopped()) {
            case 1: return 0;
            case 2: fprintf(stderr, "deadline\n"); return 97;
        }
        for (j = i + 1; j < nall && strcmp(all[j], "E"); j++);
#ifdef RUNNER_SWEEP
        if (j > i + 1 && !strncmp(all[i+1], "sweep ", 6)) {
            sweep(all[i], all + i + 1, j - i - 1);
            i = j + 1;
            continue;
        }
#endif
        lputs(all[i]);
        lputs("\n");
        lflush();
        runOne(all + i + 1, j - i - 1);
        i = j + 1;
    }
    if (getenv("VP_TIME")) fprintf(stderr, "most CPU time: %ld ms\n", most);
    return 0;
}
