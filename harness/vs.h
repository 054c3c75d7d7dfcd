/* vs.h - property-testing runtime: choice tape, deterministic scheduler with
 * virtual clock, live-object accounting, case isolation, shrinking. */
#pragma once
#include <glib.h>
#include <gio/gio.h>
#include <stdbool.h>
#include <stdint.h>

/* ---- choice tape: every random decision of a case comes from here ---- */
uint32_t vs_draw (uint32_t n);             /* uniform in [0,n); 0 is "simplest" */
bool     vs_chance (uint32_t num, uint32_t den);
int64_t  vs_range (int64_t lo, int64_t hi);
uint64_t vs_draw64 (void);
uint32_t vs_tape_pos (void);               /* rewind: replay the case's own choices */
void     vs_tape_rewind (uint32_t pos);
size_t   vs_heap_bytes (void);             /* bytes currently allocated */
/* leak detection: run a program in rounds; growth must not go on (caches fill, GLib's threads start at their leisure) */
#define VS_ROUNDS(h, r) ((r) < 3 || ((r) < 6 && (h)[(r) - 1] > (h)[(r) - 2]))
/* the same single-threaded case several times: no run may leave more allocated than the one before */
#define VS_RUN_ROUNDS(once) do { vs_begin (VS_PREEMPT_NONE); uint32_t pos_ = vs_tape_pos (); size_t h_[6] = { 0 }; \
  for (int r_ = 0; VS_ROUNDS (h_, r_); r_++) { vs_log ("round %d", r_); if (r_) vs_tape_rewind (pos_); once; h_[r_] = vs_heap_bytes (); } \
  VS_ROUNDS_CHECK (h_); vs_end (); } while (0)
#define VS_ROUNDS_CHECK(h) vs_check (!(h)[5] || (h)[5] <= (h)[4], "heap-leak", "%ld more bytes stay allocated after each run of the same program", (long)((h)[5] - (h)[4]))

/* ---- reporting ---- */
void vs_log (const char *fmt, ...) G_GNUC_PRINTF (1, 2);
void vs_fail (const char *kind, const char *fmt, ...) G_GNUC_PRINTF (2, 3) G_GNUC_NORETURN;
#define vs_check(cond, kind, ...) do { if (!(cond)) vs_fail (kind, __VA_ARGS__); } while (0)
void vs_label (const char *label);         /* counts cases with this feature */
void vs_nontrivial (void);                 /* this case meets the harness' rule */

/* ---- controlled execution ---- */
typedef enum {
  VS_PREEMPT_NONE  = 0,      /* switch only when blocked            */
  VS_PREEMPT_AUTO  = 1,      /* draw a strategy and preemptions      */
} VsPreempt;
void     vs_begin (VsPreempt p);           /* calling thread becomes controlled thread 0 */
void     vs_end (void);
void     vs_point (void);                  /* explicit schedule point */
void     vs_run_idle (void);               /* run everything until nothing can happen (no time passes) */
void     vs_advance (gint64 usec);         /* same, letting virtual time pass */
gint64   vs_now (void);
int      vs_self_id (void);
int      vs_thread_count (void);           /* threads started so far (ids are 0..n-1) */
void     vs_nopre_push (void);
void     vs_nopre_pop (void);
void     vs_wait_until (bool (*cond) (gpointer), gpointer arg, const char *why);
void     vs_set_spurious (bool on);
long     vs_steps (void);
void     vs_set_nproc (int n);

/* ---- live objects ---- */
void     vs_objects_mark (void);                       /* baseline */
int      vs_objects_alive (void);                      /* created since mark and alive */
void     vs_objects_check (const char *when);          /* fail "leak" when any */
long     vs_object_seq (gpointer object);              /* creation number, 0 when not alive */
char    *vs_objects_dump (void);
int      vs_count_fds (void);
size_t   vs_mapped_bytes (void);                       /* mmap()ed by libdex and not unmapped */

/* ---- harness registry ---- */
typedef struct {
  const char *name;
  const char *rule;           /* what makes a case non-trivial */
  void      (*run) (void);
  int         batch;          /* cases per child process */
  bool        exec;           /* re-exec children (needed when state cannot be forked) */
  bool        real_time;      /* no virtual clock */
  int         timeout_s;      /* wall limit per child (0 = default) */
} VsHarness;
#define VS_HARNESS(id) \
  __attribute__((used, retain, section ("vs_harness"))) static const VsHarness id
