/* vs.c - see vs.h. Compiled with ASan but without coverage instrumentation. */
#define _GNU_SOURCE
#include "vs.h"
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXTAPE   60000
#define LOGMAX    16384
#define MAXLABEL  64
#define MAXTHREAD 192
#define STEP_LIMIT 40000000L
#define QUANTUM   20000L

/* ------------------------------------------------------------------ */
/* shared state between driver and child                               */
typedef struct { char name[40]; long n; int stamp; } Label;
typedef struct { uint64_t hash; uint8_t nontrivial; long steps; uint32_t draws; } CaseRes;
#define MAXBATCH 4096
typedef struct {
  volatile int cur;               /* index within batch being run, -1 none */
  volatile int done;              /* cases completed in batch */
  volatile int status;            /* 0 running/ok, 1 failed */
  char kind[64];
  char msg[4096];
  Label labels[MAXLABEL];
  int nlabels;
  CaseRes res[MAXBATCH];
  uint32_t ntape;                 /* tape of current case */
  uint32_t tape[MAXTAPE];
  uint32_t loglen;
  char log[LOGMAX];
  long edges;
  uint8_t edgemap[65536];
} Shared;
static Shared *S;

static const VsHarness *H;

/* tape mode of the child */
static int replaying;
static uint32_t *rtape; static uint32_t rn, rpos;
static uint64_t prng;
static bool verbose;
static int cur_nontrivial; static uint64_t cur_hash;
const char *__asan_default_options (void);
__attribute__((used, no_sanitize ("address"))) const char *
__asan_default_options (void)
{ return "detect_leaks=0:max_free_fill_size=4096:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:handle_abort=1:handle_segv=1:use_sigaltstack=1:allocator_may_return_null=1:quarantine_size_mb=16:detect_odr_violation=0"; }

static uint64_t splitmix (uint64_t *s)
{
  uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static uint64_t mix (uint64_t a, uint64_t b) { uint64_t s = a ^ (b * 0xff51afd7ed558ccdULL + 0x1234567); splitmix (&s); return splitmix (&s); }
static uint64_t hstr (const char *s) { uint64_t h = 1469598103934665603ULL; for (; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ULL; return h; }

static uint32_t rewind_pos = UINT32_MAX;
uint32_t vs_tape_pos (void) { return S->ntape; }
void vs_tape_rewind (uint32_t pos) { rewind_pos = pos; }
extern size_t __sanitizer_get_current_allocated_bytes (void);
size_t vs_heap_bytes (void) { return __sanitizer_get_current_allocated_bytes (); }
uint32_t
vs_draw (uint32_t n)
{
  uint32_t v;
  if (n <= 1) return 0;
  if (rewind_pos < S->ntape) return S->tape[rewind_pos++] % n;
  if (replaying)
    {
      v = rpos < rn ? rtape[rpos] : 0;
      rpos++;
      v %= n;
    }
  else
    v = (uint32_t)((splitmix (&prng) >> 32) * (uint64_t)n >> 32);
  cur_hash = (cur_hash ^ v) * 1099511628211ULL;
  if (S->ntape < MAXTAPE)
    { S->tape[S->ntape++] = v; if (rewind_pos != UINT32_MAX) rewind_pos = S->ntape; }
  else if (!replaying)
    v = 0;
  return v;
}
bool vs_chance (uint32_t num, uint32_t den) { return vs_draw (den) >= den - num; }
int64_t vs_range (int64_t lo, int64_t hi) { return lo + (int64_t) vs_draw ((uint32_t)(hi - lo + 1)); }
uint64_t vs_draw64 (void)
{
  uint64_t a = vs_draw (0xffffffffu), b = vs_draw (0xffffffffu);
  return a << 32 | b;
}

/* ------------------------------------------------------------------ */
static pthread_mutex_t log_mutex = PTHREAD_MUTEX_INITIALIZER;
static int label_stamp;

static int tid_for_log (void);
void
vs_log (const char *fmt, ...)
{
  char buf[512]; int n; va_list ap;
  int id = tid_for_log ();
  n = snprintf (buf, sizeof buf, id > 0 ? "[T%d] " : "", id);
  va_start (ap, fmt); n += vsnprintf (buf + n, sizeof buf - n - 2, fmt, ap); va_end (ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n'; buf[n] = 0;
  pthread_mutex_lock (&log_mutex);
  for (int i = 0; i < n; i++) cur_hash = (cur_hash ^ (uint8_t)buf[i]) * 1099511628211ULL;
  if (S->loglen + n < LOGMAX) { memcpy (S->log + S->loglen, buf, n + 1); S->loglen += n; }
  if (verbose) { fwrite (buf, 1, n, stdout); fflush (stdout); }
  pthread_mutex_unlock (&log_mutex);
}

void
vs_fail (const char *kind, const char *fmt, ...)
{
  va_list ap;
  static volatile int once;
  if (__atomic_exchange_n (&once, 1, __ATOMIC_SEQ_CST)) for (;;) pause ();
  snprintf (S->kind, sizeof S->kind, "%s", kind);
  va_start (ap, fmt); vsnprintf (S->msg, sizeof S->msg, fmt, ap); va_end (ap);
  S->status = 1;
  if (verbose) { printf ("FAIL %s: %s\n", S->kind, S->msg); fflush (stdout); }
  _exit (77);
}

void
vs_label (const char *label)
{
  pthread_mutex_lock (&log_mutex);
  for (int i = 0; i < S->nlabels; i++)
    if (strcmp (S->labels[i].name, label) == 0)
      {
        if (S->labels[i].stamp != label_stamp) { S->labels[i].n++; S->labels[i].stamp = label_stamp; }
        goto out;
      }
  if (S->nlabels < MAXLABEL)
    {
      Label *l = &S->labels[S->nlabels];
      snprintf (l->name, sizeof l->name, "%s", label); l->n = 1; l->stamp = label_stamp;
      S->nlabels++;
    }
out:
  pthread_mutex_unlock (&log_mutex);
}
void vs_nontrivial (void) { cur_nontrivial = 1; }

/* ------------------------------------------------------------------ */
/* controlled scheduler                                                */
typedef enum { TH_FREE, TH_RUN, TH_BLOCKED, TH_DONE } ThState;
typedef struct {
  int id; ThState state;
  int go;                                   /* futex word */
  bool (*cond) (gpointer); gpointer arg;
  gint64 deadline;                          /* -1 none */
  bool quiesce;                             /* wake when nothing else can run */
  bool woke_quiesce, woke_deadline;
  const char *why; const void *where;
  GThreadFunc func; gpointer data; gpointer ret;
  GThread *gt;
  int nopre;
  const void *cond_waiting; bool cond_signaled;
  bool pool_thread;
} Th;

static Th th[MAXTHREAD]; static int nth;
static __thread Th *self;
static volatile bool ctl;
static bool vclock; static gint64 vtime, tlimit;
static long steps, last_switch;
static long gap; static int budget; static uint32_t gap_scale; static bool fine_points;
static bool spurious;
static int nproc = 2;
static bool in_sched;

static int tid_for_log (void) { return self && ctl ? self->id : 0; }
int vs_self_id (void) { return self ? self->id : -1; }
long vs_steps (void) { return steps; }
void vs_set_spurious (bool on) { spurious = on; }
void vs_set_nproc (int n) { nproc = n; }
gint64 vs_now (void) { return vclock ? vtime : g_get_monotonic_time (); }

static void fwait (int *w) { while (__atomic_load_n (w, __ATOMIC_ACQUIRE) == 0) syscall (SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); __atomic_store_n (w, 0, __ATOMIC_RELEASE); }
static void fwake (int *w) { __atomic_store_n (w, 1, __ATOMIC_RELEASE); syscall (SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

static void
draw_gap (void)
{
  if (budget <= 0) { gap = -1; return; }
  uint32_t g = vs_draw (gap_scale + 1);
  if (g == 0) { budget = 0; gap = -1; }
  else { gap = g; budget--; }
}

static void
deadlock (void)
{
  GString *s = g_string_new (NULL);
  for (int i = 0; i < nth; i++)
    if (th[i].state == TH_BLOCKED)
      g_string_append_printf (s, "T%d waits for %s; ", i, th[i].why);
  vs_fail ("deadlock", "no thread can run: %s", s->str);
}

static int
runnable_set (int *out, bool include_self)
{
  int n = 0;
  for (int i = 0; i < nth; i++)
    {
      Th *t = &th[i];
      if (t == self && !include_self) continue;
      if (t->state == TH_RUN) out[n++] = i;
      else if (t->state == TH_BLOCKED)
        {
          if (t->cond && t->cond (t->arg)) out[n++] = i;
          else if (t->deadline >= 0 && t->deadline <= vtime) out[n++] = i;
        }
    }
  return n;
}

static void
switch_to (Th *t)
{
  Th *me = self;
  last_switch = steps;
  if (t->state == TH_BLOCKED)
    {
      t->woke_deadline = !(t->cond && t->cond (t->arg)) && t->deadline >= 0 && t->deadline <= vtime;
      t->state = TH_RUN;
    }
  if (t == me) return;
  bool leave = me->state == TH_DONE;
  fwake (&t->go);
  if (!leave) fwait (&me->go);
}

/* current thread cannot continue (blocked or done): hand the token on */
static void
reschedule (void)
{
  int set[MAXTHREAD], n;
  for (;;)
    {
      n = runnable_set (set, true);
      if (n > 0) { switch_to (&th[set[n > 1 ? vs_draw (n) : 0]]); return; }
      /* nobody can run: let time pass or report quiescence */
      gint64 best = -1; int bi = -1;
      for (int i = 0; i < nth; i++)
        if (th[i].state == TH_BLOCKED && th[i].deadline >= 0 && (bi < 0 || th[i].deadline < best))
          { best = th[i].deadline; bi = i; }
      int q = -1;
      for (int i = 0; i < nth; i++)
        if (th[i].state == TH_BLOCKED && th[i].quiesce) { q = i; break; }
      if (bi >= 0 && (q < 0 || best <= tlimit)) { if (vtime < best) vtime = best; continue; }
      if (q >= 0)
        {
          if (vtime < tlimit) vtime = tlimit;
          th[q].woke_quiesce = true;
          switch_to (&th[q]);
          return;
        }
      deadlock ();
    }
}

static void
block_on (bool (*cond) (gpointer), gpointer arg, gint64 deadline, bool quiesce, const char *why)
{
  Th *me = self;
  if (me->nopre > 50) abort ();
  me->cond = cond; me->arg = arg; me->deadline = deadline; me->quiesce = quiesce;
  me->why = why; me->woke_quiesce = me->woke_deadline = false;
  me->state = TH_BLOCKED;
  reschedule ();
  me->state = TH_RUN;
  me->quiesce = false; me->deadline = -1; me->cond = NULL;
}

void
vs_wait_until (bool (*cond) (gpointer), gpointer arg, const char *why)
{
  if (ctl && self) { vs_point (); if (!cond (arg)) block_on (cond, arg, -1, false, why); }
  else while (!cond (arg)) usleep (50);
}

static void
preempt (void)
{
  int set[MAXTHREAD];
  int n = runnable_set (set, false);
  last_switch = steps;
  if (n > 0) switch_to (&th[set[n > 1 ? vs_draw (n) : 0]]);
}

static inline void
point (bool sync)
{
  if (!ctl || !self) return;
  steps++;
  if (self->nopre) return;
  if (steps - last_switch > QUANTUM)
    {
      if (steps > STEP_LIMIT) vs_fail ("livelock", "no progress after %ld steps", steps);
      preempt ();
      return;
    }
  if (gap < 0 || !(sync || fine_points)) return;
  if (--gap > 0) return;
  draw_gap ();
  preempt ();
}
void vs_sync_point (void) { point (true); }
void vs_point (void) { point (true); }
void vs_nopre_push (void) { if (self) self->nopre++; }
void vs_nopre_pop (void) { if (self) self->nopre--; }

/* coverage callbacks from libdex code */
static uint32_t edge_total;
void __sanitizer_cov_trace_pc_guard_init (uint32_t *a, uint32_t *b)
{ if (a == b || *a) return; for (uint32_t *x = a; x < b; x++) *x = ++edge_total; }
void __sanitizer_cov_trace_pc_guard (uint32_t *g)
{
  if (S && *g < sizeof S->edgemap && !S->edgemap[*g]) { S->edgemap[*g] = 1; S->edges++; }
  point (false);
}
#define LS(n) void __sanitizer_cov_load##n (void *p) { point (false); } void __sanitizer_cov_store##n (void *p) { point (false); }
LS (1) LS (2) LS (4) LS (8) LS (16)

void
vs_begin (VsPreempt p)
{
  static const uint32_t scales[] = { 3, 12, 48, 160, 600, 2500 };
  memset (th, 0, sizeof th);
  nth = 1; self = &th[0]; self->id = 0; self->state = TH_RUN; self->deadline = -1;
  steps = last_switch = 0; tlimit = vtime; gap = -1; budget = 0;
  if (p == VS_PREEMPT_AUTO)
    {
      budget = vs_draw (9);                     /* 0..8 preemptions (or many) */
      if (budget)
        {
          fine_points = vs_draw (3) != 0;
          gap_scale = scales[vs_draw (fine_points ? 6 : 4)];
          if (budget == 8) budget = 100;
          draw_gap ();
        }
    }
  ctl = true;
}
static bool all_others_done (gpointer u) { for (int i = 1; i < nth; i++) if (th[i].state != TH_DONE && !th[i].pool_thread) return false; return true; }
void vs_end (void) { gap = -1; (void)all_others_done; ctl = false; }

/* ---- wrapped primitives ---- */
#define REAL(r, n, ...) extern r __real_##n (__VA_ARGS__)
REAL (void, g_mutex_lock, GMutex *); REAL (void, g_mutex_unlock, GMutex *); REAL (gboolean, g_mutex_trylock, GMutex *);
REAL (void, g_cond_wait, GCond *, GMutex *); REAL (void, g_cond_signal, GCond *); REAL (void, g_cond_broadcast, GCond *);
REAL (gboolean, g_cond_wait_until, GCond *, GMutex *, gint64);
REAL (void, g_rw_lock_reader_lock, GRWLock *); REAL (void, g_rw_lock_reader_unlock, GRWLock *);
REAL (void, g_rw_lock_writer_lock, GRWLock *); REAL (void, g_rw_lock_writer_unlock, GRWLock *);
REAL (gboolean, g_rw_lock_reader_trylock, GRWLock *); REAL (gboolean, g_rw_lock_writer_trylock, GRWLock *);
REAL (GThread *, g_thread_new, const char *, GThreadFunc, gpointer); REAL (gpointer, g_thread_join, GThread *);
REAL (GThread *, g_thread_try_new, const char *, GThreadFunc, gpointer, GError **);
REAL (GThreadPool *, g_thread_pool_new, GFunc, gpointer, gint, gboolean, GError **);
REAL (gboolean, g_thread_pool_push, GThreadPool *, gpointer, GError **);
REAL (GTypeInstance *, g_type_create_instance, GType); REAL (void, g_type_free_instance, GTypeInstance *);
REAL (guint, g_get_num_processors, void);
REAL (void, g_thread_yield, void); REAL (void, g_usleep, gulong);
REAL (gboolean, g_once_init_enter, volatile void *); REAL (void, g_once_init_leave, volatile void *, gsize);
REAL (gboolean, g_once_init_enter_pointer, void *); REAL (void, g_once_init_leave_pointer, void *, gpointer);

/* arguments handed to GLib, which is not instrumented: report freed ones here */
extern void *__asan_region_is_poisoned (void *, size_t);
static void touch (const void *p, const char *fn)
{ if (p && __asan_region_is_poisoned ((void *)p, 1)) vs_fail ("use-after-free", "%s called with memory that was freed", fn); }
#define TOUCH(p) touch (p, __func__ + 7)
#define W1(r, f, t) r __real_##f (t); r __wrap_##f (t a) { point (true); TOUCH (a); return __real_##f (a); }
#define W2(r, f, t, u) r __real_##f (t, u); r __wrap_##f (t a, u b) { point (true); TOUCH (a); return __real_##f (a, b); }
#define W3(r, f, t, u, v) r __real_##f (t, u, v); r __wrap_##f (t a, u b, v c) { point (true); TOUCH (a); return __real_##f (a, b, c); }
W1 (void, g_source_destroy, GSource *) W1 (void, g_source_unref, GSource *) W1 (GSource *, g_source_ref, GSource *)
W1 (gboolean, g_source_is_destroyed, GSource *) W2 (void, g_source_set_ready_time, GSource *, gint64)
W2 (guint, g_source_attach, GSource *, GMainContext *) W1 (GMainContext *, g_source_get_context, GSource *)
W1 (void, g_main_context_wakeup, GMainContext *) W1 (void, g_main_context_unref, GMainContext *) W1 (GMainContext *, g_main_context_ref, GMainContext *)
W1 (void, g_object_unref, gpointer) W1 (gpointer, g_object_ref, gpointer)
W1 (void, g_cancellable_cancel, GCancellable *) W2 (void, g_cancellable_disconnect, GCancellable *, gulong)
W2 (void, g_signal_handler_disconnect, gpointer, gulong)
W1 (void, g_error_free, GError *) W1 (GError *, g_error_copy, const GError *)
W1 (void, g_value_unset, GValue *) W2 (void, g_value_copy, const GValue *, GValue *)
W1 (void, g_free, gpointer) W2 (void, g_queue_unlink, GQueue *, GList *) W2 (void, g_queue_push_tail_link, GQueue *, GList *) W1 (GList *, g_queue_pop_tail_link, GQueue *)
W1 (GList *, g_queue_pop_head_link, GQueue *) W2 (void, g_queue_push_tail, GQueue *, gpointer) W1 (gpointer, g_queue_pop_head, GQueue *)
W1 (void, g_ptr_array_unref, GPtrArray *) W2 (void, g_ptr_array_add, GPtrArray *, gpointer)

static bool mutex_free (gpointer m) { return ((GMutex *)m)->i[0] == 0; }
void __wrap_g_mutex_lock (GMutex *m)
{
  if (!ctl || !self) { __real_g_mutex_lock (m); return; }
  point (true); TOUCH (m);
  while (m->i[0]) { block_on (mutex_free, m, -1, false, m->i[0] == (guint)self->id + 1 ? "a mutex it already holds" : "a mutex"); TOUCH (m); }
  m->i[0] = self->id + 1;
}
void __wrap_g_mutex_unlock (GMutex *m)
{
  if (!ctl || !self) { __real_g_mutex_unlock (m); return; }
  TOUCH (m);
  if (m->i[0] == 0) vs_fail ("bad-unlock", "unlock of a mutex that is not locked");
  m->i[0] = 0;
  point (true);
}
gboolean __wrap_g_mutex_trylock (GMutex *m)
{
  if (!ctl || !self) return __real_g_mutex_trylock (m);
  point (true);
  if (m->i[0]) return FALSE;
  m->i[0] = self->id + 1; return TRUE;
}
REAL (void, g_rec_mutex_lock, GRecMutex *); REAL (void, g_rec_mutex_unlock, GRecMutex *); REAL (gboolean, g_rec_mutex_trylock, GRecMutex *);
static bool rec_free (gpointer l) { return ((GRecMutex *)l)->i[0] == 0; }
void __wrap_g_rec_mutex_lock (GRecMutex *m)
{
  if (!ctl || !self) { __real_g_rec_mutex_lock (m); return; }
  point (true); TOUCH (m);
  while (m->i[0] && m->i[0] != (guint)self->id + 1) { block_on (rec_free, m, -1, false, "a recursive mutex"); TOUCH (m); }
  m->i[0] = self->id + 1; m->i[1]++;
}
void __wrap_g_rec_mutex_unlock (GRecMutex *m)
{
  if (!ctl || !self) { __real_g_rec_mutex_unlock (m); return; }
  TOUCH (m);
  if (m->i[0] == 0) vs_fail ("bad-unlock", "unlock of a recursive mutex that is not locked");
  if (--m->i[1] == 0) m->i[0] = 0;
  point (true);
}
gboolean __wrap_g_rec_mutex_trylock (GRecMutex *m)
{
  if (!ctl || !self) return __real_g_rec_mutex_trylock (m);
  point (true);
  if (m->i[0] && m->i[0] != (guint)self->id + 1) return FALSE;
  m->i[0] = self->id + 1; m->i[1]++; return TRUE;
}
REAL (gpointer, g_once_impl, GOnce *, GThreadFunc, gpointer);
static bool once_ready (gpointer o) { return ((GOnce *)o)->status == G_ONCE_STATUS_READY; }
gpointer __wrap_g_once_impl (GOnce *o, GThreadFunc f, gpointer u)
{
  if (!ctl || !self) return __real_g_once_impl (o, f, u);
  point (true);
  if (o->status == G_ONCE_STATUS_NOTCALLED) { o->status = G_ONCE_STATUS_PROGRESS; o->retval = f (u); o->status = G_ONCE_STATUS_READY; }
  while (!once_ready (o)) block_on (once_ready, o, -1, false, "g_once");
  return o->retval;
}
static bool cond_signaled (gpointer t) { return ((Th *)t)->cond_signaled; }
static gboolean cond_wait (GCond *c, GMutex *m, gint64 deadline)
{
  Th *me = self; gboolean r = TRUE;
  me->cond_waiting = c; me->cond_signaled = false;
  if (spurious && vs_chance (1, 4)) me->cond_signaled = true;
  m->i[0] = 0;
  point (true);
  if (!me->cond_signaled) { block_on (cond_signaled, me, deadline, false, "a condition variable"); r = me->cond_signaled; }
  me->cond_waiting = NULL;
  while (m->i[0]) block_on (mutex_free, m, -1, false, "a mutex (after condition)");
  m->i[0] = me->id + 1;
  return r;
}
void __wrap_g_cond_wait (GCond *c, GMutex *m) { if (!ctl || !self) __real_g_cond_wait (c, m); else { TOUCH (c); cond_wait (c, m, -1); } }
gboolean __wrap_g_cond_wait_until (GCond *c, GMutex *m, gint64 t) { if (!ctl || !self) return __real_g_cond_wait_until (c, m, t); return cond_wait (c, m, t); }
void __wrap_g_cond_signal (GCond *c)
{
  if (!ctl || !self) { __real_g_cond_signal (c); return; }
  TOUCH (c);
  int set[MAXTHREAD], n = 0;
  for (int i = 0; i < nth; i++) if (th[i].cond_waiting == c && !th[i].cond_signaled && th[i].state != TH_DONE) set[n++] = i;
  if (n) th[set[n > 1 ? vs_draw (n) : 0]].cond_signaled = true;
  point (true);
}
void __wrap_g_cond_broadcast (GCond *c)
{
  if (!ctl || !self) { __real_g_cond_broadcast (c); return; }
  TOUCH (c);
  for (int i = 0; i < nth; i++) if (th[i].cond_waiting == c) th[i].cond_signaled = true;
  point (true);
}
static bool rw_can_read (gpointer l) { return ((GRWLock *)l)->i[0] == 0; }
static bool rw_can_write (gpointer l) { return ((GRWLock *)l)->i[0] == 0 && ((GRWLock *)l)->i[1] == 0; }
void __wrap_g_rw_lock_reader_lock (GRWLock *l)
{ if (!ctl || !self) { __real_g_rw_lock_reader_lock (l); return; } point (true); TOUCH (l); while (!rw_can_read (l)) block_on (rw_can_read, l, -1, false, "a read lock"); l->i[1]++; }
void __wrap_g_rw_lock_reader_unlock (GRWLock *l)
{ if (!ctl || !self) { __real_g_rw_lock_reader_unlock (l); return; } if (!l->i[1]) vs_fail ("bad-unlock", "read-unlock of a lock not held"); l->i[1]--; point (true); }
void __wrap_g_rw_lock_writer_lock (GRWLock *l)
{ if (!ctl || !self) { __real_g_rw_lock_writer_lock (l); return; } point (true); TOUCH (l); while (!rw_can_write (l)) block_on (rw_can_write, l, -1, false, "a write lock"); l->i[0] = 1; }
void __wrap_g_rw_lock_writer_unlock (GRWLock *l)
{ if (!ctl || !self) { __real_g_rw_lock_writer_unlock (l); return; } if (!l->i[0]) vs_fail ("bad-unlock", "write-unlock of a lock not held"); l->i[0] = 0; point (true); }
gboolean __wrap_g_rw_lock_reader_trylock (GRWLock *l)
{ if (!ctl || !self) return __real_g_rw_lock_reader_trylock (l); point (true); if (!rw_can_read (l)) return FALSE; l->i[1]++; return TRUE; }
gboolean __wrap_g_rw_lock_writer_trylock (GRWLock *l)
{ if (!ctl || !self) return __real_g_rw_lock_writer_trylock (l); point (true); if (!rw_can_write (l)) return FALSE; l->i[0] = 1; return TRUE; }

/* A thread keeps its turn through the destructors of its thread-private data:
 * the turn is handed on in a late round of the key destructors. */
static pthread_key_t exit_key; static pthread_once_t exit_once = PTHREAD_ONCE_INIT;
static __thread int exit_round;
static void
thread_exit_cb (void *data)
{
  Th *t = data;
  if (++exit_round < 3) { pthread_setspecific (exit_key, t); return; }
  t->state = TH_DONE;
  reschedule ();
  self = NULL;
}
static void exit_key_init (void) { pthread_key_create (&exit_key, thread_exit_cb); }
static gpointer
trampoline (gpointer data)
{
  Th *t = data;
  pthread_once (&exit_once, exit_key_init);
  pthread_setspecific (exit_key, t);
  self = t;
  fwait (&t->go);
  return t->ret = t->func (t->data);
}
static Th *
new_thread (GThreadFunc f, gpointer d, const char *name)
{
  if (nth >= MAXTHREAD) vs_fail ("harness-limit", "too many threads");
  Th *t = &th[nth];
  memset (t, 0, sizeof *t);
  t->id = nth; t->func = f; t->data = d; t->deadline = -1; t->state = TH_RUN;
  nth++;
  t->gt = __real_g_thread_new (name, trampoline, t);
  return t;
}
GThread *__wrap_g_thread_new (const char *name, GThreadFunc f, gpointer d)
{
  if (!ctl || !self) return __real_g_thread_new (name, f, d);
  Th *t = new_thread (f, d, name);
  GThread *g = t->gt;
  point (true);
  return g;
}
GThread *__wrap_g_thread_try_new (const char *name, GThreadFunc f, gpointer d, GError **e)
{
  if (!ctl || !self) return __real_g_thread_try_new (name, f, d, e);
  return __wrap_g_thread_new (name, f, d);
}
static bool th_done (gpointer t) { return ((Th *)t)->state == TH_DONE; }
gpointer __wrap_g_thread_join (GThread *g)
{
  if (ctl && self)
    {
      point (true);
      for (int i = 0; i < nth; i++)
        if (th[i].gt == g)
          {
            if (th[i].state != TH_DONE) block_on (th_done, &th[i], -1, false, "a thread to finish");
            th[i].gt = NULL;
            break;
          }
    }
  return __real_g_thread_join (g);
}
void __wrap_g_thread_yield (void) { if (ctl && self) preempt (); else __real_g_thread_yield (); }
static bool never (gpointer u) { return false; }
void __wrap_g_usleep (gulong us) { if (ctl && self) block_on (never, NULL, vtime + us, false, "sleep"); else __real_g_usleep (us); }

/* jobs of a GThreadPool run on controlled threads, at most max at a time */
static struct { GThreadPool *p; GFunc f; gpointer d; int max, running; GQueue todo; } pools[16]; static int npools;
GThreadPool *__wrap_g_thread_pool_new (GFunc f, gpointer d, gint max, gboolean ex, GError **e)
{
  GThreadPool *p = __real_g_thread_pool_new (f, d, max, ex, e);
  if (npools < 16) { pools[npools].p = p; pools[npools].f = f; pools[npools].d = d; pools[npools].max = max; npools++; }
  return p;
}
static gpointer
pool_job (gpointer u)
{
  int i = GPOINTER_TO_INT (u);
  while (pools[i].todo.length)
    {
      gpointer item = __real_g_queue_pop_head (&pools[i].todo);
      point (true);
      pools[i].f (item, pools[i].d);
    }
  pools[i].running--;
  return NULL;
}
gboolean __wrap_g_thread_pool_push (GThreadPool *p, gpointer item, GError **e)
{
  if (ctl && self)
    for (int i = 0; i < npools; i++)
      if (pools[i].p == p)
        {
          __real_g_queue_push_tail (&pools[i].todo, item);
          if (pools[i].max < 0 || pools[i].running < pools[i].max)
            {
              pools[i].running++;
              Th *t = new_thread (pool_job, GINT_TO_POINTER (i), "io");
              g_thread_unref (t->gt);
              t->gt = NULL; t->pool_thread = true;
            }
          point (true);
          return TRUE;
        }
  return __real_g_thread_pool_push (p, item, e);
}
guint __wrap_g_get_num_processors (void) { return ctl && self ? nproc : __real_g_get_num_processors (); }
gboolean __wrap_g_once_init_enter (volatile void *l) { vs_nopre_push (); gboolean r = __real_g_once_init_enter (l); if (!r) vs_nopre_pop (); return r; }
void __wrap_g_once_init_leave (volatile void *l, gsize v) { __real_g_once_init_leave (l, v); vs_nopre_pop (); }
gboolean __wrap_g_once_init_enter_pointer (void *l) { vs_nopre_push (); gboolean r = __real_g_once_init_enter_pointer (l); if (!r) vs_nopre_pop (); return r; }
void __wrap_g_once_init_leave_pointer (void *l, gpointer v) { __real_g_once_init_leave_pointer (l, v); vs_nopre_pop (); }

/* ---- poll / clock interposition (also seen by libglib) ---- */
typedef struct { struct pollfd *fds; nfds_t n; } PollArg;
static bool poll_ready (gpointer u) { PollArg *a = u; return a->n && syscall (SYS_poll, a->fds, a->n, 0) > 0; }
static __thread bool run_idle_mode; static __thread bool was_quiet;

static int
do_poll (struct pollfd *fds, nfds_t n, gint64 timeout_us)
{
  PollArg a = { fds, n };
  vs_sync_point ();
  if (poll_ready (&a)) return (int) syscall (SYS_poll, fds, n, 0);
  if (timeout_us == 0) return 0;
  block_on (poll_ready, &a, timeout_us < 0 ? -1 : vtime + timeout_us, run_idle_mode, "an event (poll)");
  if (self->woke_quiesce) { was_quiet = true; return 0; }
  int r = n ? (int) syscall (SYS_poll, fds, n, 0) : 0;
  return r < 0 ? 0 : r;
}
int poll (struct pollfd *fds, nfds_t n, int timeout)
{
  if (ctl && self && !self->nopre) return do_poll (fds, n, timeout < 0 ? -1 : (gint64)timeout * 1000);
  return (int) syscall (SYS_poll, fds, n, timeout);
}
int ppoll (struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *ss)
{
  if (ctl && self && !self->nopre) return do_poll (fds, n, ts ? ts->tv_sec * 1000000LL + (ts->tv_nsec + 999) / 1000 : -1);
  return (int) syscall (SYS_ppoll, fds, n, ts, ss, 8);
}
int clock_gettime (clockid_t c, struct timespec *ts)
{
  if (vclock && c == CLOCK_MONOTONIC) { ts->tv_sec = vtime / 1000000; ts->tv_nsec = (vtime % 1000000) * 1000; return 0; }
  return (int) syscall (SYS_clock_gettime, c, ts);
}

void
vs_advance (gint64 usec)
{
  g_assert (ctl && self == &th[0]);
  tlimit = vtime + usec;
  was_quiet = false; run_idle_mode = true;
  for (;;)
    {
      gboolean dispatched = g_main_context_iteration (NULL, TRUE);
      if (was_quiet && dispatched && usec == 0)
        vs_fail ("lost-wakeup", "the main loop had something to run but nobody woke it up");
      if (was_quiet)
        {
          /* time may have moved to the limit: give due sources a chance */
          if (!g_main_context_pending (NULL)) break;
          was_quiet = false;
        }
    }
  run_idle_mode = false;
}
void vs_run_idle (void) { vs_advance (0); }
int vs_thread_count (void) { return nth; }

/* ---- live object accounting ---- */
typedef struct Obj { void *p; const char *type; long seq; struct Obj *next; } Obj;
static Obj *buckets[4096]; static pthread_mutex_t obj_mutex = PTHREAD_MUTEX_INITIALIZER; static long obj_seq, obj_mark; static int obj_alive;
#define OB(p) ((((uintptr_t)(p)) >> 4) * 2654435761u >> 7 & 4095)
GTypeInstance *__wrap_g_type_create_instance (GType t)
{
  vs_nopre_push ();
  GTypeInstance *i = __real_g_type_create_instance (t);
  vs_nopre_pop ();
  Obj *o = malloc (sizeof *o);
  pthread_mutex_lock (&obj_mutex);
  o->p = i; o->type = g_type_name (t); o->seq = ++obj_seq; o->next = buckets[OB (i)]; buckets[OB (i)] = o;
  obj_alive++;
  pthread_mutex_unlock (&obj_mutex);
  return i;
}
void __wrap_g_type_free_instance (GTypeInstance *i)
{
  bool found = false;
  pthread_mutex_lock (&obj_mutex);
  for (Obj **pp = &buckets[OB (i)]; *pp; pp = &(*pp)->next)
    if ((*pp)->p == i) { Obj *o = *pp; *pp = o->next; free (o); found = true; obj_alive--; break; }
  pthread_mutex_unlock (&obj_mutex);
  if (!found) vs_fail ("double-free", "an object instance was freed twice");
  __real_g_type_free_instance (i);
}
long vs_object_seq (gpointer p)
{
  long r = 0;
  pthread_mutex_lock (&obj_mutex);
  for (Obj *o = buckets[OB (p)]; o; o = o->next) if (o->p == p) r = o->seq;
  pthread_mutex_unlock (&obj_mutex);
  return r;
}
void vs_objects_mark (void) { obj_mark = obj_seq; }
int vs_objects_alive (void)
{
  int n = 0;
  pthread_mutex_lock (&obj_mutex);
  for (int b = 0; b < 4096; b++) for (Obj *o = buckets[b]; o; o = o->next) if (o->seq > obj_mark) n++;
  pthread_mutex_unlock (&obj_mutex);
  return n;
}
char *vs_objects_dump (void)
{
  GString *s = g_string_new (NULL);
  pthread_mutex_lock (&obj_mutex);
  for (int b = 0; b < 4096; b++) for (Obj *o = buckets[b]; o; o = o->next) if (o->seq > obj_mark) g_string_append_printf (s, "%s#%ld ", o->type, o->seq - obj_mark);
  pthread_mutex_unlock (&obj_mutex);
  return g_string_free (s, FALSE);
}
void vs_objects_check (const char *when)
{
  int n = vs_objects_alive ();
  if (n) { char *d = vs_objects_dump (); vs_fail ("leak", "%d object(s) still alive %s: %s", n, when, d); }
}
/* ---- mappings made by libdex ---- */
extern void *__real_mmap (void *, size_t, int, int, int, off_t); extern int __real_munmap (void *, size_t);
static size_t mapped;
void *__wrap_mmap (void *a, size_t n, int p, int fl, int fd, off_t o)
{ void *r = __real_mmap (a, n, p, fl, fd, o); if (ctl && self && r != MAP_FAILED) __atomic_fetch_add (&mapped, (n + 4095) & ~4095ul, __ATOMIC_SEQ_CST); return r; }
int __wrap_munmap (void *a, size_t n)
{ if (ctl && self) { vs_sync_point (); __atomic_fetch_sub (&mapped, (n + 4095) & ~4095ul, __ATOMIC_SEQ_CST); } return __real_munmap (a, n); }
size_t vs_mapped_bytes (void) { return mapped; }

int vs_count_fds (void)
{
  DIR *d = opendir ("/proc/self/fd"); int n = 0;
  if (!d) return -1;
  while (readdir (d)) n++;
  closedir (d);
  return n;
}

/* ------------------------------------------------------------------ */
/* child side                                                          */
extern const VsHarness __start_vs_harness[], __stop_vs_harness[];

static GLogWriterOutput
log_writer (GLogLevelFlags lv, const GLogField *f, gsize n, gpointer u)
{
  if (lv & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_WARNING | G_LOG_LEVEL_ERROR))
    {
      const char *msg = "?", *dom = "";
      for (gsize i = 0; i < n; i++)
        { if (!strcmp (f[i].key, "MESSAGE")) msg = f[i].value; else if (!strcmp (f[i].key, "GLIB_DOMAIN")) dom = f[i].value; }
      fprintf (stderr, "%s: %s\n", dom, msg);
      if (S && S->cur >= 0)
        vs_fail ("critical", "%s: %s", dom, msg);
    }
  return G_LOG_WRITER_HANDLED;
}

static void
run_case (int idx)
{
  cur_hash = 1469598103934665603ULL; cur_nontrivial = 0; label_stamp = 1; for (int i = 0; i < S->nlabels; i++) S->labels[i].stamp = 0;
  S->ntape = 0; S->loglen = 0; S->log[0] = 0;
  steps = 0; rewind_pos = UINT32_MAX;
  S->cur = idx;
  vclock = !H->real_time; vtime = 1000000000; tlimit = vtime;
  for (int i = 0; i < 3; i++) g_main_context_iteration (NULL, FALSE);
  H->run ();
  ctl = false;
  S->res[idx].hash = cur_hash; S->res[idx].nontrivial = cur_nontrivial; S->res[idx].steps = steps; S->res[idx].draws = S->ntape;
  S->done = idx + 1;
  S->cur = -1;
}

static int timeout_of (void) { return H->timeout_s ? H->timeout_s : 60; }
static void
child_setup (void)
{
  struct itimerval it = { {0, 0}, { timeout_of (), 0 } };
  signal (SIGALRM, SIG_DFL);
  setitimer (ITIMER_REAL, &it, NULL);
  struct rlimit rl = { 0, 0 }; setrlimit (RLIMIT_CORE, &rl);
  prctl (PR_SET_PDEATHSIG, SIGKILL);
  g_log_set_writer_func (log_writer, NULL, NULL);
}

/* spec describing what a child must run; passed directly (fork) or via file (exec) */
typedef struct {
  bool replay;
  uint64_t seed; long first; int count; long stride;
  int ntapes; uint32_t **tapes; uint32_t *lens;
} Spec;

static void
child_main (const Spec *sp)
{
  child_setup ();
  if (sp->replay)
    for (int i = 0; i < sp->ntapes; i++)
      { replaying = 1; rtape = sp->tapes[i]; rn = sp->lens[i]; rpos = 0; run_case (i % MAXBATCH); }
  else
    for (int i = 0; i < sp->count; i++)
      {
        replaying = 0;
        prng = mix (mix (hstr (H->name), sp->seed), sp->first + i * sp->stride);
        run_case (i);
      }
  _exit (0);
}

/* ------------------------------------------------------------------ */
/* driver side                                                         */
static char shm_path[256]; static char self_exe[512]; static int stderr_fd = -1;

static Shared *map_shared (const char *path, bool create)
{
  int fd = open (path, create ? O_RDWR | O_CREAT | O_TRUNC : O_RDWR, 0600);
  if (fd < 0 || (create && ftruncate (fd, sizeof (Shared)) < 0)) { perror (path); exit (3); }
  Shared *s = mmap (NULL, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close (fd);
  if (s == MAP_FAILED) { perror ("mmap"); exit (3); }
  return s;
}

typedef struct { bool failed; char kind[64]; char msg[4096]; int at; } Outcome;

static void write_spec (const Spec *sp, const char *path)
{
  FILE *f = fopen (path, "w");
  fprintf (f, "%d %" G_GUINT64_FORMAT " %ld %d %ld %d\n", sp->replay, sp->seed, sp->first, sp->count, sp->stride, sp->ntapes);
  for (int i = 0; i < sp->ntapes; i++)
    { fprintf (f, "%u", sp->lens[i]); for (uint32_t j = 0; j < sp->lens[i]; j++) fprintf (f, " %u", sp->tapes[i][j]); fputc ('\n', f); }
  fclose (f);
}
static void read_spec (Spec *sp, const char *path)
{
  FILE *f = fopen (path, "r"); int rp;
  memset (sp, 0, sizeof *sp);
  if (!f || fscanf (f, "%d %" G_GUINT64_FORMAT " %ld %d %ld %d", &rp, &sp->seed, &sp->first, &sp->count, &sp->stride, &sp->ntapes) != 6) exit (3);
  sp->replay = rp;
  sp->tapes = calloc (sp->ntapes + 1, sizeof *sp->tapes); sp->lens = calloc (sp->ntapes + 1, sizeof *sp->lens);
  for (int i = 0; i < sp->ntapes; i++)
    {
      if (fscanf (f, "%u", &sp->lens[i]) != 1) exit (3);
      sp->tapes[i] = calloc (sp->lens[i] + 1, 4);
      for (uint32_t j = 0; j < sp->lens[i]; j++) if (fscanf (f, "%u", &sp->tapes[i][j]) != 1) exit (3);
    }
  fclose (f);
}

static void
run_child (const Spec *sp, Outcome *o, bool show)
{
  char spec_path[300];
  S->cur = -1; S->done = 0; S->status = 0; S->kind[0] = S->msg[0] = 0; S->loglen = 0; S->log[0] = 0; S->ntape = 0;
  snprintf (spec_path, sizeof spec_path, "%s.spec", shm_path);
  if (H->exec) write_spec (sp, spec_path);
  if (ftruncate (stderr_fd, 0) < 0) {}
  lseek (stderr_fd, 0, SEEK_SET);
  fflush (NULL);
  pid_t pid = fork ();
  if (pid == 0)
    {
      if (!show) dup2 (stderr_fd, 2);
      if (H->exec)
        {
          execl (self_exe, self_exe, "child", H->name, shm_path, spec_path, show ? "v" : "q", NULL);
          _exit (126);
        }
      verbose = show;
      child_main (sp);
    }
  int st;
  while (waitpid (pid, &st, 0) < 0 && errno == EINTR) ;
  memset (o, 0, sizeof *o);
  o->at = S->done;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0 && S->done == (sp->replay ? sp->ntapes : sp->count)) return;
  o->failed = true;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 77 && S->status)
    { snprintf (o->kind, sizeof o->kind, "%s", S->kind); snprintf (o->msg, sizeof o->msg, "%s", S->msg); return; }
  /* crash: take the head of stderr as message */
  char buf[3500]; ssize_t n = pread (stderr_fd, buf, sizeof buf - 1, 0);
  buf[n < 0 ? 0 : n] = 0;
  const char *k = "crash";
  if (WIFSIGNALED (st) && WTERMSIG (st) == SIGALRM) k = "hang";
  else if (strstr (buf, "AddressSanitizer"))
    {
      char *e = strstr (buf, "ERROR: AddressSanitizer: "); static char kk[64];
      if (e) { snprintf (kk, sizeof kk, "asan-%.40s", e + 25); for (char *c = kk; *c; c++) if (*c == ' ' || *c == '\n' || *c == ':') { *c = 0; break; } k = kk; }
      else k = "asan";
    }
  else if (strstr (buf, "assertion failed")) k = "assertion";
  snprintf (o->kind, sizeof o->kind, "%s", k);
  if (WIFSIGNALED (st)) snprintf (o->msg, sizeof o->msg, "child died from signal %d; stderr: %s", WTERMSIG (st), buf);
  else snprintf (o->msg, sizeof o->msg, "child exited with %d; stderr: %s", WEXITSTATUS (st), buf);
}

/* ---- failing case file: text ---- */
static void
save_case (const char *path, const Spec *sp, const Outcome *o)
{
  FILE *f = fopen (path, "w");
  if (!f) { perror (path); exit (3); }
  fprintf (f, "harness %s\nkind %s\n", H->name, o->kind);
  for (int i = 0; i < sp->ntapes; i++)
    { fprintf (f, "tape %u", sp->lens[i]); for (uint32_t j = 0; j < sp->lens[i]; j++) fprintf (f, " %u", sp->tapes[i][j]); fputc ('\n', f); }
  fprintf (f, "--\nfailure: %s: %s\n-- operations of the (last) case:\n%s", o->kind, o->msg, S->log);
  fclose (f);
}
static const VsHarness *find (const char *n)
{
  for (const VsHarness *h = __start_vs_harness; h < __stop_vs_harness; h++) if (!strcmp (h->name, n)) return h;
  fprintf (stderr, "no harness %s\n", n); exit (3);
}
static void
load_case (const char *path, Spec *sp)
{
  FILE *f = fopen (path, "r"); char w[64];
  if (!f) { perror (path); exit (3); }
  memset (sp, 0, sizeof *sp); sp->replay = true;
  sp->tapes = calloc (MAXBATCH, sizeof *sp->tapes); sp->lens = calloc (MAXBATCH, sizeof *sp->lens);
  while (fscanf (f, "%63s", w) == 1)
    {
      if (!strcmp (w, "harness")) { if (fscanf (f, "%63s", w) != 1) exit (3); H = find (w); }
      else if (!strcmp (w, "kind")) { if (fscanf (f, "%63s", w) != 1) exit (3); }
      else if (!strcmp (w, "tape"))
        {
          uint32_t n; if (fscanf (f, "%u", &n) != 1 || n > MAXTAPE) exit (3);
          sp->tapes[sp->ntapes] = calloc (n + 1, 4); sp->lens[sp->ntapes] = n;
          for (uint32_t j = 0; j < n; j++) if (fscanf (f, "%u", &sp->tapes[sp->ntapes][j]) != 1) exit (3);
          sp->ntapes++;
        }
      else break;
    }
  fclose (f);
}

static char *jesc (const char *s)
{
  GString *g = g_string_new ("\"");
  for (; *s; s++)
    {
      unsigned char c = *s;
      if (c == '"' || c == '\\') g_string_append_printf (g, "\\%c", c);
      else if (c == '\n') g_string_append (g, "\\n");
      else if (c < 32 || c > 126) g_string_append_printf (g, "\\u%04x", c);
      else g_string_append_c (g, c);
    }
  g_string_append_c (g, '"');
  return g_string_free (g, FALSE);
}

static double mono (void) { struct timespec t; syscall (SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

/* make single-tape spec from child's shared tape */
static void
grab_tape (Spec *sp)
{
  memset (sp, 0, sizeof *sp); sp->replay = true; sp->ntapes = 1;
  sp->tapes = calloc (1, sizeof *sp->tapes); sp->lens = calloc (1, sizeof *sp->lens);
  sp->lens[0] = S->ntape; sp->tapes[0] = malloc (4 * (S->ntape + 1)); memcpy (sp->tapes[0], S->tape, 4 * S->ntape);
}

static bool
same_failure (const Spec *sp, const char *kind, Outcome *o)
{
  run_child (sp, o, false);
  return o->failed && (!kind || !strcmp (kind, o->kind));
}

static int
cmd_explore (int argc, char **argv)
{
  /* explore H seed worker nworkers cases tlimit out */
  H = find (argv[2]);
  uint64_t seed = strtoull (argv[3], NULL, 10); long w = atol (argv[4]), nw = atol (argv[5]), cases = atol (argv[6]); double tl = atof (argv[7]);
  const char *out = argv[8];
  int batch = H->batch > 0 ? H->batch : 1; if (batch > MAXBATCH) batch = MAXBATCH;
  double t0 = mono ();
  long evals = 0, nontriv = 0, total_steps = 0; bool timed_out = false; int flaky = 0;
  GHashTable *seen = g_hash_table_new (g_int64_hash, g_int64_equal);
  GPtrArray *samples = g_ptr_array_new ();
  Outcome o = { 0 }; bool failed = false; Spec fsp;
  long my = cases / nw + (w < cases % nw ? 1 : 0);
  for (long k = 0; k < my && !failed; )
    {
      if (mono () - t0 > tl) { timed_out = true; break; }
      int n = MIN (batch, my - k);
      /* let the batch size ramp up so early failures are found quickly */
      if (k == 0 && n > 16) n = 16;
      Spec sp = { .seed = seed, .first = w + k * nw, .count = n, .stride = nw };
      run_child (&sp, &o, false);
      int good = S->done;
      for (int i = 0; i < good; i++)
        {
          evals++; total_steps += S->res[i].steps;
          if (S->res[i].nontrivial)
            {
              gint64 *h = g_new (gint64, 1); *h = S->res[i].hash;
              if (g_hash_table_add (seen, h)) nontriv++;
            }
        }
      if (!o.failed && samples->len < 3 && S->loglen && good && S->res[good - 1].nontrivial)
        g_ptr_array_add (samples, g_strndup (S->log, 1500));
      if (o.failed)
        {
          evals++;
          grab_tape (&fsp);
          Outcome o2;
          if (same_failure (&fsp, NULL, &o2)) { o = o2; failed = true; }
          else
            {
              /* depends on the cases before it in the same process: keep them all */
              Spec multi = { .replay = true }; int cnt = good + 1;
              multi.tapes = calloc (cnt, sizeof *multi.tapes); multi.lens = calloc (cnt, sizeof *multi.lens);
              for (int i = 0; i < good; i++)
                {
                  Spec one = { .seed = seed, .first = w + (k + i) * nw, .count = 1, .stride = nw }; Outcome tmp;
                  run_child (&one, &tmp, false);
                  multi.tapes[i] = malloc (4 * (S->ntape + 1)); memcpy (multi.tapes[i], S->tape, 4 * S->ntape); multi.lens[i] = S->ntape;
                }
              multi.tapes[good] = fsp.tapes[0]; multi.lens[good] = fsp.lens[0]; multi.ntapes = cnt;
              if (same_failure (&multi, NULL, &o2)) { o = o2; fsp = multi; failed = true; }
              else { flaky++; fprintf (stderr, "unreproducible: %s %s\n", o.kind, o.msg); if (flaky > 3) break; }
            }
          k += good + 1;
        }
      else
        k += n;
    }
  char *fpath = NULL;
  if (failed) { fpath = g_strdup_printf ("%s.case", out); save_case (fpath, &fsp, &o); }
  FILE *f = fopen (out, "w");
  fprintf (f, "{\"harness\":\"%s\",\"evaluations\":%ld,\"nontrivial\":%ld,\"steps\":%ld,\"timed_out\":%s,\"flaky\":%d,\"edges\":%ld,\"edges_total\":%u,\"wall\":%.2f,\"rule\":%s,\"labels\":{",
           H->name, evals, nontriv, total_steps, timed_out ? "true" : "false", flaky, S->edges, edge_total, mono () - t0, jesc (H->rule));
  for (int i = 0; i < S->nlabels; i++) fprintf (f, "%s%s:%ld", i ? "," : "", jesc (S->labels[i].name), S->labels[i].n);
  fprintf (f, "},\"samples\":[");
  for (guint i = 0; i < samples->len; i++) fprintf (f, "%s%s", i ? "," : "", jesc (samples->pdata[i]));
  fprintf (f, "],\"hashes\":[");
  { GHashTableIter it; gpointer key; bool first = true; g_hash_table_iter_init (&it, seen);
    while (g_hash_table_iter_next (&it, &key, NULL)) { fprintf (f, "%s%" G_GUINT64_FORMAT, first ? "" : ",", *(guint64 *)key >> 11); first = false; } }
  fprintf (f, "],\"failed\":%s", failed ? "true" : "false");
  if (failed) fprintf (f, ",\"kind\":%s,\"msg\":%s,\"case\":%s,\"draws\":%u", jesc (o.kind), jesc (o.msg), jesc (fpath), fsp.lens[fsp.ntapes - 1]);
  fprintf (f, "}\n");
  fclose (f);
  return 0;
}

static int
cmd_shrink (int argc, char **argv)
{
  /* shrink in out maxruns maxsec */
  Spec sp; load_case (argv[2], &sp);
  int maxruns = atoi (argv[4]); double maxsec = atof (argv[5]), t0 = mono ();
  Outcome o, best; int runs = 0;
  if (!same_failure (&sp, NULL, &best)) { printf ("not reproducible\n"); return 2; }
  char kind[64]; snprintf (kind, sizeof kind, "%s", best.kind);
#define BUDGET (runs < maxruns && mono () - t0 < maxsec)
#define TRY(s) (runs++, same_failure (s, kind, &o) ? (best = o, true) : false)
  /* drop whole earlier cases */
  while (sp.ntapes > 1 && BUDGET)
    {
      bool any = false;
      for (int chunk = sp.ntapes / 2 ? sp.ntapes / 2 : 1; chunk >= 1 && BUDGET; chunk /= 2)
        for (int i = 0; i + chunk < sp.ntapes && BUDGET; )
          {
            Spec c = sp; c.tapes = calloc (sp.ntapes, sizeof *c.tapes); c.lens = calloc (sp.ntapes, sizeof *c.lens); c.ntapes = 0;
            for (int j = 0; j < sp.ntapes; j++) if (j < i || j >= i + chunk) { c.tapes[c.ntapes] = sp.tapes[j]; c.lens[c.ntapes++] = sp.lens[j]; }
            if (TRY (&c)) { sp = c; any = true; } else i += chunk;
          }
      if (!any) break;
    }
  for (int t = sp.ntapes - 1; t >= 0; t--)
    {
      bool progress = true;
      while (progress && BUDGET)
        {
          progress = false;
          uint32_t *T = sp.tapes[t]; uint32_t n = sp.lens[t];
          /* truncate (the rest reads as 0) */
          for (uint32_t cut = n / 2; cut > 0 && BUDGET; cut /= 2)
            while (sp.lens[t] > cut && BUDGET)
              { sp.lens[t] -= cut; if (TRY (&sp)) progress = true; else { sp.lens[t] += cut; break; } }
          n = sp.lens[t];
          /* delete blocks */
          for (uint32_t bl = 32; bl > 0 && BUDGET; bl /= 2)
            for (int64_t i = (int64_t)n - bl; i >= 0 && BUDGET; i -= bl)
              {
                uint32_t *N = malloc (4 * (n + 1)); memcpy (N, T, 4 * i); memcpy (N + i, T + i + bl, 4 * (n - i - bl));
                sp.tapes[t] = N; sp.lens[t] = n - bl;
                if (TRY (&sp)) { T = N; n -= bl; progress = true; if (i > (int64_t)n) i = n; }
                else { sp.tapes[t] = T; sp.lens[t] = n; free (N); }
              }
          /* zero / minimise values */
          for (uint32_t bl = 8; bl > 1 && BUDGET; bl /= 2)
            for (uint32_t i = 0; i + bl <= n && BUDGET; i += bl)
              {
                uint32_t sv[8]; bool nz = false; memcpy (sv, T + i, 4 * bl);
                for (uint32_t j = 0; j < bl; j++) nz |= sv[j] != 0;
                if (!nz) continue;
                memset (T + i, 0, 4 * bl);
                if (TRY (&sp)) progress = true; else memcpy (T + i, sv, 4 * bl);
              }
          for (uint32_t i = 0; i < n && BUDGET; i++)
            {
              if (!T[i]) continue;
              uint32_t orig = T[i], lo = 0, hi = orig;      /* binary search smallest failing */
              T[i] = 0; if (TRY (&sp)) { progress = true; continue; }
              while (hi - lo > 1 && BUDGET)
                { uint32_t mid = lo + (hi - lo) / 2; T[i] = mid; if (TRY (&sp)) { hi = mid; progress = true; } else lo = mid; }
              T[i] = hi;
            }
        }
    }
  /* final run to have log of the minimal case */
  if (!same_failure (&sp, kind, &o)) { printf ("final replay diverged\n"); load_case (argv[2], &sp); if (!same_failure (&sp, NULL, &o)) return 2; }
  save_case (argv[3], &sp, &o);
  printf ("%s: %s\n", o.kind, o.msg);
  return 0;
}

static int
cmd_replay (int argc, char **argv)
{
  /* replay file times [-v] : exit 1 if every replay fails, 0 if none, 2 mixed */
  Spec sp; load_case (argv[2], &sp);
  int times = argc > 3 ? atoi (argv[3]) : 1, bad = 0; bool v = argc > 4;
  for (int i = 0; i < times; i++) { Outcome o; run_child (&sp, &o, v); if (o.failed) { bad++; if (i == 0) printf ("replay: %s: %s\n", o.kind, o.msg); } }
  return bad == times ? 1 : bad ? 2 : 0;
}

int
main (int argc, char **argv)
{
  if (!(personality (0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv ("VS_ASLR"))
    {
      setenv ("VS_ASLR", "1", 1);
      if (personality (personality (0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) execv ("/proc/self/exe", argv);
    }
  ssize_t n = readlink ("/proc/self/exe", self_exe, sizeof self_exe - 1); if (n > 0) self_exe[n] = 0;
  if (argc < 2) return 3;
  if (!strcmp (argv[1], "list")) { for (const VsHarness *h = __start_vs_harness; h < __stop_vs_harness; h++) printf ("%s\n", h->name); return 0; }
  if (!strcmp (argv[1], "child"))
    {
      H = find (argv[2]); S = map_shared (argv[3], false);
      Spec sp; read_spec (&sp, argv[4]); verbose = argv[5][0] == 'v';
      child_main (&sp);
    }
  const char *dir = getenv ("VS_SHM"); if (!dir) dir = "/dev/shm";
  snprintf (shm_path, sizeof shm_path, "%s/vs-%d", dir, getpid ());
  S = map_shared (shm_path, true);
  { char p[300]; snprintf (p, sizeof p, "%s.err", shm_path); stderr_fd = open (p, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); unlink (p); }
  int r = 3;
  if (!strcmp (argv[1], "explore") && argc >= 9) r = cmd_explore (argc, argv);
  else if (!strcmp (argv[1], "shrink") && argc >= 6) r = cmd_shrink (argc, argv);
  else if (!strcmp (argv[1], "replay") && argc >= 3) r = cmd_replay (argc, argv);
  unlink (shm_path);
  { char p[300]; snprintf (p, sizeof p, "%s.spec", shm_path); unlink (p); }
  return r;
}
