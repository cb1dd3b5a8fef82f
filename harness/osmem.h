/* Stand-ins for the system's sources of memory, linked with -Wl,--wrap. Pools
 * are surrounded by inaccessible pages and filled with junk, so that touching
 * memory outside of a pool, or relying on fresh memory being zero, shows. */
#ifndef OSMEM_H
#define OSMEM_H 1
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
extern long os_pools;        /* pools obtained and not returned */
extern long os_poolsPeak;
extern long os_poolsEver;
/* is this range within memory obtained from the system? */
int os_inside(const void *p, size_t bytes);
/* refuse all requests for pools after this many more (-1: never) */
extern long os_failAfter, os_failAbove;
extern long os_refused;
/* what happened: places are in units of 16 bytes */
#define OS_EVENTS 100000
enum { OS_OBTAIN = 1, OS_RETURN, OS_REFUSE };
struct os_event { int kind; long lo, hi; };
extern struct os_event os_events[OS_EVENTS];
extern int os_nevents;
long os_coord(const void *p);
/* called before the program break is looked at or moved */
extern void (*os_point)(void);

#ifdef __cplusplus
}
#endif
#endif
