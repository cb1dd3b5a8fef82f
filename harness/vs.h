/* A scheduler for deterministic interleavings: see vs.c */
#ifndef VS_H
#define VS_H 1
#ifdef __cplusplus
extern "C" {
#endif
/* begin; the calling thread is thread 0.
 * strategy 0: random walk, switching with probability 1/p1 at each point
 *          1: priorities, with p1 points at which the running thread becomes the least (PCT)
 *          2: switch only if there's no choice, but for p1 preemptions within the first p2 points
 *          3: like 2, but preempting always goes round robin
 *          4: switch only if there's no choice, but for the given preemptions
 */
extern int vs_npre, vs_preChoice[4], vs_maxAlt;
extern long vs_preStep[4];
extern unsigned char *vs_alt;     /* how many others might have run at each point */
extern long *vs_shared;           /* where to keep the number of points, too */
void vs_init(int strategy, unsigned long seed, int p1, int p2);
void vs_point(void);              /* a point at which another thread may run */
extern int vs_off;                /* no points at all while this is nonzero */
extern long vs_steps;
extern long vs_switches;
/* let the next call of a kind fail */
enum { VS_CREATE = 1, VS_LOCK, VS_SEM, VS_BAR, VS_JOIN };
void vs_fail(int kind, const void *o, int err);
/* nobody can go on, or everybody seems to go on forever */
extern void (*vs_stuck)(int livelock);
int vs_self(void);
#ifdef __cplusplus
}
#endif
#endif
