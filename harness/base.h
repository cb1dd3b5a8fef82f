/*
 * What the drivers have in common: the log, and one process per program.
 *
 *   driver SCRIPTS OUT
 *
 * SCRIPTS has one operation per line ("S n" begins a program, "E" ends it).
 * OUT gets one JSON object per operation, and the line "S n" before each
 * program. A driver defines runScript(), using nextOp().
 */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

static int outFd;
static char lbuf[1 << 20];
static size_t lpos;
static void lflush(void)
{
    size_t o = 0;
    while (o < lpos) {
        ssize_t w = write(outFd, lbuf + o, lpos - o);
        if (w <= 0) _exit(98);
        o += (size_t) w;
    }
    lpos = 0;
}
static void lputs(const char *s)
{
    size_t n = strlen(s);
    if (lpos + n + 1 > sizeof(lbuf)) lflush();
    memcpy(lbuf + lpos, s, n);
    lpos += n;
}
static void lnum(long v)
{
    char b[32];
    sprintf(b, "%ld", v);
    lputs(b);
}

/* the program */
static const char **lines; static int nlines, pc;
static char opName[16];
static int a[600], na;
#define IS(n) (!strcmp(opName, n))

/* parse the next operation, and begin its event */
static int nextOp(void)
{
    const char *l, *c;
    int i;
    if (pc >= nlines) return 0;
    l = lines[pc++];
    for (i = 0; l[i] && l[i] != ' ' && i < 15; i++) opName[i] = l[i];
    opName[i] = 0;
    na = 0;
    for (c = l + i; *c && na < 600;) {
        char *e;
        a[na] = (int) strtol(c, &e, 10);
        if (e == c) break;
        na++;
        c = e;
    }
    lputs("{\"op\":[\"");
    lputs(opName);
    lputs("\"");
    for (i = 0; i < na; i++) { lputs(","); lnum(a[i]); }
    lputs("]");
    lflush();
    return 1;
}
static void runScript(void);

#include "runner.h"
