/* Schedulers: functions pushed to the main scheduler and to thread pools from
 * everywhere, pools created and dropped at any moment. */
#include "vs.h"
#include <libdex.h>
#include <string.h>
extern GType dex_fiber_get_type (void);

#define NI 420
#define NP 3            /* scheduler 0 is the main one, 1..2 are pools */
typedef struct { int sched, runs, tid; int kid[3], nkids; int by, seq; bool via_default; int act; bool pushed, need; DexFuture *rd, *ob, *tm; int called, released; } Item;
static Item it[NI]; static int nit;
static DexScheduler *sc[NP]; static int npool; static int lo[NP], hi[NP]; static bool dropped[NP];
static int seq_of[64]; static int last_main[64];
static bool early;              /* pools may be dropped while items are in flight */
static DexPromise *pr[3];
static int stolen, from_pool, cross;
static int aio_fd = -1, nreads; static char aio_buf[64];       /* reads of a file, which may be in flight when the pool goes */

static bool tid_in (int s, int tid) { return s == 0 ? tid == 0 : tid >= lo[s] && tid < hi[s]; }
static void run_item (gpointer u);

static void
push (int i)
{
  Item *x = &it[i];
  x->by = vs_self_id ();
  x->seq = x->sched == 0 ? ++seq_of[x->by] : 0;
  x->pushed = true;
  DexScheduler *s = sc[x->sched];
  if (x->via_default)
    {
      g_autoptr(DexScheduler) own = dex_scheduler_ref_thread_default ();
      s = dex_scheduler_get_thread_default ();
      vs_check (s && own == s, "thread-default", "T%d gets two default schedulers or none", x->by);
    }
  if (!early)
    {
      /* a pool has no loop of its own: it gives that of the caller if it is a pool thread, else the main one */
      GMainContext *c = dex_scheduler_get_main_context (s), *own = g_main_context_get_thread_default ();
      bool on_pool = dex_scheduler_get_thread_default () && dex_scheduler_get_thread_default () != sc[0];
      GMainContext *want = x->sched && on_pool ? own : g_main_context_default ();
      vs_check (c == want, "main-context", "scheduler %d gives another main context on T%d", x->sched, x->by);
    }
  vs_log ("push %d to %d%s", i, x->sched, x->via_default ? " (thread default)" : "");
  dex_scheduler_push (s, run_item, x);
}

/* callbacks attached by pool threads, and timers made by them */
static int nobs;
static DexFuture *
obs_cb (DexFuture *f, gpointer u)
{
  Item *x = u; int i = x - it;
  vs_check (x->called++ == 0, "ran-twice", "callback of item %d ran twice", i);
  vs_check (!x->released, "destroyed-early", "callback of item %d ran with released data", i);
  vs_check (!dropped[x->sched] && vs_self_id () == x->tid, "wrong-thread", "callback of item %d attached on T%d ran on T%d%s", i, x->tid, vs_self_id (), dropped[x->sched] ? " after its pool was gone" : "");
  return NULL;
}
static void obs_gone (gpointer u) { Item *x = u; vs_check (x->released++ == 0, "destroy-twice", "callback data of item %d released twice", (int)(x - it)); }
static void
run_item (gpointer u)
{
  Item *x = u; int i = x - it, me = vs_self_id ();
  x->runs++;
  vs_check (x->runs == 1, "ran-twice", "item %d ran %d times", i, x->runs);
  vs_check (x->pushed, "spurious", "item %d ran but was never pushed", i);
  vs_check (tid_in (x->sched, me), "wrong-thread", "item %d of scheduler %d ran on T%d (its threads: T%d..T%d)", i, x->sched, me, lo[x->sched], hi[x->sched] - 1);
  vs_check (!dropped[x->sched], "after-drop", "item %d ran after its pool was gone", i);
  x->tid = me;
  if (x->sched == 0)
    {
      vs_check (x->seq > last_main[x->by], "order", "item %d (number %d pushed by T%d) ran after number %d", i, x->seq, x->by, last_main[x->by]);
      last_main[x->by] = x->seq;
    }
  if (x->sched > 0 && x->by != me && tid_in (x->sched, x->by)) stolen++;
  vs_log ("run %d", i);
  if (x->act == 1) vs_point ();
  if (x->act == 3 && aio_fd >= 0 && x->sched > 0) { nreads++; x->rd = dex_aio_read (NULL, aio_fd, aio_buf, 16, 0); if (i % 2) dex_clear (&x->rd); }
  if (x->act == 4 && early && x->sched > 0 && pr[0])
    {
      nobs++;
      if (i % 3 == 2) { x->tm = dex_timeout_new_msec (3 + i % 4); x->ob = dex_future_finally (dex_ref (x->tm), obs_cb, x, obs_gone); }
      else x->ob = dex_future_finally (dex_ref (pr[i % 3]), obs_cb, x, obs_gone);
    }
  if (x->act == 2) { g_thread_yield (); g_thread_yield (); }
  for (int k = 0; k < x->nkids; k++)
    {
      Item *y = &it[x->kid[k]];
      if (x->sched > 0) { from_pool++; if (y->sched > 0 && y->sched != x->sched) cross++; }
      push (x->kid[k]);
    }
}

static int
gen_item (int sched, int depth, int parent_sched)
{
  if (nit >= NI) return -1;
  int i = nit++; Item *x = &it[i];
  memset (x, 0, sizeof *x);
  x->sched = sched;
  /* an item may outlive the pool pointer when the pool is dropped early */
  x->via_default = parent_sched > 0 && parent_sched == sched && (early || vs_draw (4) == 3);
  x->act = vs_draw (5);
  if (depth < 3)
    {
      int n = (int)vs_draw (4) - (depth ? 1 : 0);
      for (int k = 0; k < n; k++)
        {
          int to = vs_draw (3) == 0 ? sched : early ? (vs_draw (2) ? sched : 0) : (int)vs_draw (npool + 1);
          if (sched == 0 && early) to = 0;
          int c = gen_item (to, depth + 1, sched);
          if (c >= 0) x->kid[x->nkids++] = c;
        }
    }
  return i;
}

typedef struct { int roots[12]; int n; DexScheduler *hold[NP]; bool slow; } Producer;
static gpointer
producer (gpointer u)
{
  Producer *p = u;
  for (int k = 0; k < p->n; k++) { push (p->roots[k]); if (p->slow) { g_thread_yield (); g_thread_yield (); } }
  for (int s = 1; s < NP; s++) if (p->hold[s]) { DexScheduler *x = p->hold[s]; p->hold[s] = NULL; dex_unref (x); }
  return NULL;
}
static void burst_item (gpointer u);
static struct { int sched, n, ran[300], order_bad; } burst;
static void burst_leaf (gpointer u) { int i = GPOINTER_TO_INT (u); if (i % 8 == 0) vs_point (); burst.ran[i]++; vs_check (burst.ran[i] == 1, "ran-twice", "item %d of a burst ran twice", i); vs_check (tid_in (burst.sched, vs_self_id ()), "wrong-thread", "burst item %d ran on T%d", i, vs_self_id ()); }
static void burst_item (gpointer u) { vs_log ("burst of %d", burst.n); for (int i = 0; i < burst.n; i++) dex_scheduler_push (sc[burst.sched], burst_leaf, GINT_TO_POINTER (i)); }

static void
make_pool (int s)
{
  lo[s] = vs_thread_count ();
  sc[s] = dex_thread_pool_scheduler_new ();
  hi[s] = vs_thread_count ();
  dropped[s] = false;
}

/* fibers on pools, for the shutdown harness */
#define NF 8
typedef struct { int pool, steps, at; bool started, done, destroyed; int tid; DexFuture *f; int want[3]; bool pending_at_drop; DexFuture *rd; } Fib;
static Fib fb[NF]; static int nfb;
static void fib_destroy (gpointer u) { Fib *x = u; vs_check (!x->destroyed, "destroy-twice", "data of fiber %d released twice", (int)(x - fb)); x->destroyed = true; }
static DexFuture *
fib_body (gpointer u)
{
  Fib *x = u; int me = vs_self_id ();
  vs_check (!x->started, "ran-twice", "fiber %d started twice", (int)(x - fb));
  x->started = true; x->tid = me;
  vs_check (tid_in (x->pool, me), "wrong-thread", "fiber %d started on T%d", (int)(x - fb), me);
  vs_check (!dropped[x->pool], "after-drop", "fiber %d started after its pool was gone", (int)(x - fb));
  for (; x->at < x->steps; x->at++)
    {
      if (x->want[x->at] < 3) dex_await (DEX_FUTURE (dex_ref (pr[x->want[x->at]])), NULL);
      else { nreads++; x->rd = dex_aio_read (NULL, aio_fd, aio_buf, 16, 0); gint64 n = dex_await_int64 (x->rd, NULL); x->rd = NULL; vs_check (n == 16, "outcome", "a read by a fiber of the pool gave %ld", (long) n); }
      vs_check (!dropped[x->pool], "after-drop", "fiber %d resumed after its pool was gone", (int)(x - fb));
      vs_check (vs_self_id () == me, "wrong-thread", "fiber %d moved", (int)(x - fb));
      vs_check (!x->destroyed, "destroyed-early", "fiber %d runs with released data", (int)(x - fb));
    }
  x->done = true;
  return dex_future_new_for_int (7);
}

static void
run_case (bool shutdown)
{
  memset (it, 0, sizeof it); nit = 0; memset (seq_of, 0, sizeof seq_of); memset (last_main, 0, sizeof last_main);
  memset (&burst, 0, sizeof burst); memset (fb, 0, sizeof fb); nfb = 0;
  stolen = from_pool = cross = 0;
  npool = shutdown ? 1 : 1 + (int)vs_draw (2);
  early = shutdown;
  vs_set_nproc (2 * (1 + vs_draw (3)));
  vs_begin (VS_PREEMPT_AUTO);
  if (vs_draw (8) == 7) vs_set_spurious (true);
  g_type_class_ref (dex_fiber_get_type ());
  vs_objects_mark ();
  int fds = vs_count_fds ();
  sc[0] = dex_scheduler_get_default (); lo[0] = 0; hi[0] = 1;
  for (int s = 1; s <= npool; s++) make_pool (s);
  Producer pp[3]; memset (pp, 0, sizeof pp); GThread *t[3]; int np = vs_draw (3);
  for (int k = 0; k <= np; k++)
    {
      pp[k].n = 1 + vs_draw (k ? 3 : 5); pp[k].slow = vs_draw (3) == 2;
      for (int j = 0; j < pp[k].n; j++)
        {
          int s = vs_draw (4) == 3 ? 0 : 1 + vs_draw (npool);
          int r = gen_item (s, 0, -1);
          if (r < 0) { pp[k].n = j; break; }
          pp[k].roots[j] = r;
        }
    }
  if (vs_draw (12) == 11)
    { burst.sched = 1; burst.n = vs_draw (2) ? 260 + vs_draw (40) : 33 + vs_draw (40); }
  nreads = nobs = 0; for (int i = 0; i < 3; i++) pr[i] = NULL; aio_fd = -1;
  if (shutdown && vs_draw (4) == 3)
    {
      aio_fd = memfd_create ("pool", 0); if (aio_fd < 0 || ftruncate (aio_fd, 64)) _exit (72);
      fds++;
    }
  if (shutdown)
    {
      for (int i = 0; i < 3; i++) pr[i] = dex_promise_new_cancellable ();
      int n = vs_draw (5);
      for (int i = 0; i < n && nfb < NF; i++)
        { Fib *x = &fb[nfb++]; x->pool = 1; x->steps = vs_draw (4); for (int j = 0; j < x->steps; j++) x->want[j] = vs_draw (aio_fd >= 0 ? 5 : 3); }
    }
  if (burst.n) dex_scheduler_push (sc[1], burst_item, NULL);
  for (int k = 0; k < np; k++)
    {
      if (shutdown) for (int s = 1; s <= npool; s++) pp[k].hold[s] = dex_ref (sc[s]);
      t[k] = g_thread_new ("producer", producer, &pp[k]);
    }
  for (int i = 0; i < nfb; i++) fb[i].f = dex_scheduler_spawn (sc[1], 0, fib_body, &fb[i], fib_destroy);
  producer (&pp[np]);
  if (shutdown)
    {
      if (vs_draw (3) == 2) vs_run_idle ();
      for (int i = 0; i < 3; i++) if (vs_draw (3) == 2) dex_promise_resolve_int (pr[i], i);
      for (int n = vs_draw (4) * 3; n > 0; n--) g_thread_yield ();
      bool last = vs_draw (3) == 0;
      if (last) for (int k = 0; k < np; k++) g_thread_join (t[k]);
      vs_log ("drop pool");
      dex_unref (sc[1]);
      if (!last) for (int k = 0; k < np; k++) g_thread_join (t[k]);
      vs_log ("pool gone");
      dropped[1] = true;
      for (int i = 0; i < nit; i++)
        if (it[i].sched == 1) vs_check (it[i].runs == (it[i].pushed ? 1 : 0), "lost-item", "item %d was accepted by the pool but ran %d times before the pool was gone", i, it[i].runs);
      if (burst.n) for (int i = 0; i < burst.n; i++) vs_check (burst.ran[i] == 1, "lost-item", "burst item %d ran %d times before the pool was gone", i, burst.ran[i]);
      if (!nreads && !nobs) vs_check (vs_count_fds () == fds, "fd-leak", "%d descriptors open, %d before the pool was made", vs_count_fds (), fds);
      int cut = 0;
      for (int i = 0; i < nfb; i++)
        {
          vs_check (fb[i].started, "lost-fiber", "fiber %d never started", i);
          bool pend = false; for (int j = fb[i].at; j < fb[i].steps; j++) if (fb[i].want[j] > 2 || dex_future_is_pending (DEX_FUTURE (pr[fb[i].want[j]]))) pend = true;
          vs_check (fb[i].done || pend, "lost-fiber", "fiber %d did not finish although all it waits for has completed", i);
          vs_check (!dex_future_is_pending (fb[i].f), "pending", "the future of fiber %d stays pending after its pool is gone", i);
          vs_check (dex_future_is_resolved (fb[i].f) == fb[i].done, "outcome", "fiber %d resolved without finishing", i);
          vs_check (fb[i].destroyed, "not-destroyed", "data of fiber %d not released", i);
          if (!fb[i].done && fb[i].want[fb[i].at] > 2) { cut++; dex_clear (&fb[i].rd); }
          else if (!fb[i].done) { cut++; dex_unref (pr[fb[i].want[fb[i].at]]); }   /* the reference its abandoned frame owned */
        }
      for (int i = 0; i < 3; i++)
        {
          bool want = false; for (int k = 0; k < nfb; k++) if (!fb[k].done && fb[k].want[fb[k].at] == i) want = true;
          bool other = false; for (int k = 0; k < nit; k++) if (it[k].ob && !it[k].tm && k % 3 == i) other = true;
          if (want && other) continue;          /* depends on which of the workers went first */
          bool got = g_cancellable_is_cancelled (dex_promise_get_cancellable (pr[i]));
          vs_check (got == want, got ? "cancelled-needed" : "not-cancelled", "promise %d was %scancelled although %s awaiting it when the pool went", i, got ? "" : "not ", want ? "only a fiber was" : "no fiber was");
        }
      /* What a pool thread made dies with its thread: timers do not fire, and
       * a callback it attached must not be completed any more (known finding,
       * see pool-late), so those are dropped first. */
      if (nobs)
        {
          vs_advance (20000); vs_run_idle ();
          for (int i = 0; i < nit; i++)
            {
              vs_check (!it[i].called || !it[i].ob || !dex_future_is_pending (it[i].ob), "pending", "the callback of item %d ran but its future is pending", i);
              if (it[i].ob && !it[i].tm && !dex_future_is_pending (DEX_FUTURE (pr[i % 3]))) vs_check (it[i].called == 1, "lost-callback", "the callback of item %d did not run although the promise completed before the pool went", i);
              dex_clear (&it[i].ob); dex_clear (&it[i].tm);
            }
          vs_run_idle ();
          for (int i = 0; i < nit; i++) vs_check (it[i].released == (it[i].act == 4 && it[i].runs && it[i].sched > 0), "not-destroyed", "callback data of item %d released %d times", i, it[i].released);
          vs_check (nreads || vs_count_fds () == fds, "fd-leak", "%d descriptors open, %d before the pool was made", vs_count_fds (), fds);
        }
      for (int i = 0; i < 3; i++) { if (vs_draw (2)) dex_promise_resolve_int (pr[i], i); dex_clear (&pr[i]); }
      if (cut) vs_label ("fiber suspended at the drop");
      for (int i = 0; i < nfb; i++) dex_clear (&fb[i].f);
    }
  else
    {
      for (int k = 0; k < np; k++) g_thread_join (t[k]);
      vs_run_idle ();
    }
  vs_run_idle ();
  for (int i = 0; i < nit; i++) if (it[i].rd) { if (!dex_future_is_pending (it[i].rd)) vs_check (dex_await_int64 (dex_ref (it[i].rd), NULL) == 16, "outcome", "the read of item %d went wrong", i); dex_clear (&it[i].rd); }
  if (aio_fd >= 0) { close (aio_fd); aio_fd = -1; fds--; }
  for (int i = 0; i < nit; i++)
    vs_check (it[i].runs == (it[i].pushed ? 1 : 0), "lost-item", "item %d of scheduler %d was pushed but never ran", i, it[i].sched);
  for (int i = 0; i < burst.n; i++) vs_check (burst.ran[i] == 1, "lost-item", "burst item %d ran %d times", i, burst.ran[i]);
  if (!shutdown)
    for (int s = 1; s <= npool; s++) { dex_unref (sc[s]); dropped[s] = true; }
  vs_run_idle ();
  vs_check (vs_count_fds () == fds, "fd-leak", "%d descriptors open, %d at the start", vs_count_fds (), fds);
  vs_objects_check ("after dropping the pools");
  vs_set_spurious (false);
  if (stolen) vs_label ("stolen");
  if (from_pool) vs_label ("pushed from a pool thread");
  if (cross) vs_label ("pushed from one pool to another");
  if (burst.n) vs_label ("burst");
  if (nobs) vs_label ("callbacks and timers of pool threads");
  if (nreads) vs_label ("file reads");
  if (np) vs_label ("several producers");
  if (nit > 3 && (from_pool || np)) vs_nontrivial ();
  vs_end ();
}
/* pools made, used and dropped over and over: nothing may pile up */
static int heap_ran, heap_fd = -1; static char heap_buf[64];
static void heap_item (gpointer u) { g_atomic_int_inc (&heap_ran); if (heap_fd >= 0) dex_unref (dex_aio_read (NULL, heap_fd, heap_buf, 16, 0)); int k = GPOINTER_TO_INT (u); if (k > 0) dex_scheduler_push (vs_draw (2) ? dex_scheduler_get_thread_default () : sc[1], heap_item, GINT_TO_POINTER (k - 1)); }
static DexFuture *heap_fiber (gpointer u) { if (u) dex_await (dex_ref (u), NULL); return dex_future_new_for_int (1); }
static void heap_none (gpointer u) {}
static void
run_pool_heap (void)
{
  vs_set_nproc (2 * (1 + vs_draw (3)));
  vs_begin (VS_PREEMPT_NONE);
  g_type_class_ref (dex_fiber_get_type ());
  size_t h[6] = { 0 }; int items = vs_draw (6), depth = vs_draw (3), fibers = vs_draw (4), waits = vs_draw (2), cut = waits && fibers && vs_draw (3) == 2, delay = vs_draw (2), fds = 0;
  bool many = vs_draw (6) == 5; if (many) items = 300;
  heap_fd = vs_draw (3) == 2 && !many ? memfd_create ("heap", 0) : -1; bool aio = heap_fd >= 0;
  if (aio && ftruncate (heap_fd, 64)) _exit (72);
  vs_log ("%d items, depth %d, %d fibers%s%s", items, depth, fibers, waits ? " which wait" : "", cut ? " when the pool goes" : "");
  for (int r = 0; VS_ROUNDS (h, r); r++)
    {
      heap_ran = 0;
      sc[1] = dex_thread_pool_scheduler_new ();
      DexPromise *p = dex_promise_new (); DexFuture *f[4];
      for (int i = 0; i < items; i++) dex_scheduler_push (sc[1], heap_item, GINT_TO_POINTER (depth));
      for (int i = 0; i < fibers; i++) f[i] = dex_scheduler_spawn (sc[1], 0, heap_fiber, waits ? p : NULL, heap_none);
      if (delay) vs_run_idle ();
      if (!cut) dex_promise_resolve_int (p, 1);
      if (!cut) vs_run_idle ();
      DexScheduler *s = sc[1]; dex_unref (s);
      vs_check (heap_ran == items * (depth + 1), "lost-item", "%d of %d items ran", heap_ran, items * (depth + 1));
      for (int i = 0; i < fibers; i++) { vs_check (!dex_future_is_pending (f[i]), "pending", "the future of fiber %d stays pending after its pool is gone", i); dex_clear (&f[i]); if (cut) dex_unref (p); }
      dex_clear (&p);
      vs_run_idle ();
      if (r == 0) fds = vs_count_fds (); else vs_check (vs_count_fds () == fds, "fd-leak", "%d descriptors open, %d a round before", vs_count_fds (), fds);
      h[r] = vs_heap_bytes ();
      vs_log ("round %d: %zu", r, h[r]);
    }
  VS_ROUNDS_CHECK (h);
  if (items > 1 || fibers) vs_nontrivial ();
  if (aio) close (heap_fd);
  heap_fd = -1;
  if (cut) vs_label ("fiber suspended at the drop"); if (fibers) vs_label ("fibers"); if (aio) vs_label ("file reads");
  vs_end ();
}
VS_HARNESS (k2) = { "pool-heap", "a pool made, used and dropped several times over, heap bytes and descriptors must not grow; non-trivial: more than one function or a fiber ran", run_pool_heap, 20 };
/* known finding: the callback of a pool thread, the pool gone before the
 * future it waits for completes */
static int late_called, late_released;
static DexFuture *late_ob; static DexPromise *late_p;
static DexFuture *late_cb (DexFuture *f, gpointer u) { late_called++; return NULL; }
static void late_gone (gpointer u) { late_released++; }
static void late_item (gpointer u) { late_ob = dex_future_finally (dex_ref (late_p), late_cb, NULL, late_gone); }
static void
run_late (void)
{
  vs_set_nproc (2);
  vs_begin (VS_PREEMPT_NONE);
  late_called = late_released = 0; late_ob = NULL; late_p = dex_promise_new ();
  DexScheduler *p = dex_thread_pool_scheduler_new ();
  dex_scheduler_push (p, late_item, NULL);
  dex_unref (p);
  dex_promise_resolve_int (late_p, 1);
  vs_run_idle ();
  vs_log ("callback ran %d times, future %s", late_called, dex_future_is_pending (late_ob) ? "pending" : "complete");
  vs_check (!dex_future_is_pending (late_ob), "pending", "a future made by a pool thread stays pending although what it waits for completed after the pool was gone");
  dex_clear (&late_ob); dex_clear (&late_p);
  vs_run_idle ();
  vs_check (late_released == 1, "not-destroyed", "callback data released %d times", late_released);
  vs_end ();
}
VS_HARNESS (k4) = { "pool-late", "replay only (known finding): a future completes after the pool, whose thread attached a callback to it, was dropped", run_late, 20 };
static void run_push (void) { run_case (false); }
static void run_shutdown (void) { run_case (true); }

VS_HARNESS (k1) = { "push", "trees of functions pushed to the main scheduler and one or two pools from main, plain threads and pool threads; non-trivial: more than 3 functions, pushed by several threads or from a pool thread", run_push, 40 };
VS_HARNESS (k3) = { "pool-shutdown", "a pool dropped while functions and fibers are queued, running or suspended; non-trivial: more than 3 functions, pushed by several threads or from a pool thread", run_shutdown, 40 };
