/* vh.h -- common part of all monitor drivers */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "maa.h"

/* ---- random choices: one independent stream per (seed, property, case) ---- */
uint64_t vh_u64(void);
uint64_t vh_below(uint64_t n);                 /* 0 .. n-1 */
int64_t  vh_range(int64_t lo, int64_t hi);     /* inclusive */
int      vh_chance(int percent);
uint64_t vh_mix(uint64_t a, uint64_t b);
uint64_t vh_hash_bytes(const void *p, size_t n);

/* ---- what a driver provides ---- */
extern const char *vh_property;                /* set from the command line */
extern const char *vh_tier;                    /* "quick" or "thorough" */
extern int         vh_thorough;
extern uint64_t    vh_seed;
extern const char *vh_scratch;                 /* a private directory, removed by the runner */
extern uint64_t    vh_case_index;
void vh_setup(int argc, char **argv);          /* once per process */
void vh_case(uint64_t index);                  /* one execution */

/* ---- observation ---- */
void vh_count(const char *event, uint64_t n);  /* event must be a string literal */
void vh_max(const char *event, uint64_t n);    /* maximum seen */
void vh_op(const char *fmt, ...) __attribute__((format(printf,1,2)));  /* trace of the case */
void vh_digest(uint64_t v);                    /* mixed into the digest of the case */
void vh_nontrivial(void);                      /* the case met its non-triviality rule */
void vh_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
void vh_fail(const char *key, const char *fmt, ...)
	__attribute__((noreturn, format(printf,2,3)));
void vh_inconclusive(const char *fmt, ...) __attribute__((noreturn, format(printf,1,2)));
#define VH_CHECK(cond, key, ...) do { vh_count("oracle checks",1); if (!(cond)) vh_fail(key, __VA_ARGS__); } while (0)

/* ---- children ---- */
typedef struct {
	int    status;       /* wait status */
	int    timed_out;
	char  *out; size_t outlen;
	char  *err; size_t errlen;
} vh_result;
/* runs fn(arg) in a forked child with stdout/stderr captured; the child ends with _exit(0)
   if fn returns */
void vh_child(vh_result *r, void (*fn)(void *), void *arg);
/* as above but exit(0) with stdio flushing when fn returns */
void vh_child_exit(vh_result *r, void (*fn)(void *), void *arg);
void vh_result_free(vh_result *r);
#define VH_SAN_EXIT 77
int  vh_is_sanitizer(const vh_result *r);
extern int vh_child_wall;                      /* seconds, default 60 */

/* ---- helpers ---- */
char  *vh_read_file(const char *path, size_t *len);  /* malloc'ed, NUL terminated; NULL if absent */
char  *vh_path(const char *fmt, ...) __attribute__((format(printf,1,2))); /* static ring of paths under scratch */
int    vh_count_fds(void);
char  *vh_quote(const char *s, size_t n);      /* printable form, static ring */
/* an exact-size heap copy without terminator, so that red zones guard both ends */
char  *vh_exact(const void *p, size_t n);
/* the same bytes in one buffer used for all such calls (NULL if too long); vh_arg: that or an
   exact copy, given back with vh_unarg */
char  *vh_same(const void *p, size_t n);
char  *vh_same_aligned(const void *p, size_t n);
char  *vh_arg(const void *p, size_t n);
void   vh_unarg(char *b);
#endif
