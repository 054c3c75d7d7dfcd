/* Timers (virtual clock), cancellation objects and unix signals. */
#include "vs.h"
#include <libdex.h>
#include <glib-unix.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
extern GType dex_fiber_get_type (void);

/* ================= timers ================= */
#define NT 14
typedef struct
{
  DexFuture *f, *aw[4]; int naw, kind[4], live; gint64 deadline, eff; bool discarded, fired, maybe, setdone; gint64 fired_at; int holder; gint64 min_deadline; bool pool, one;
} Timer;
typedef struct { int k, a, b; gint64 v; } TOp;
static struct { Timer t[NT]; int n; DexPromise *p[NT]; TOp op[40]; int nop; gint64 last_dl, last_at; bool threads; DexScheduler *pool; GMutex gm; } M;
typedef struct { int t, k; } CbData;

static DexFuture *
timer_cb (DexFuture *f, gpointer u)
{
  Timer *t = u; int i = t - M.t; GError *e = NULL;
  const GValue *v = dex_future_get_value (f, &e);
  vs_check (!v && e && e->domain == DEX_ERROR && e->code == DEX_ERROR_TIMED_OUT, "outcome", "timer %d ended with %s", i, e ? e->message : "a value");
  g_error_free (e);
  gint64 now = g_get_monotonic_time ();
  vs_log ("timer %d fires at %ld (deadline %ld)", i, (long)(now - 1000000000), (long)(t->deadline - 1000000000));
  vs_check (now >= t->min_deadline, "early", "timer %d fired %ld us before its deadline", i, (long)(t->min_deadline - now));
  if (!M.threads)
    {
      vs_check (!t->discarded, "fired-discarded", "timer %d fired after it was discarded", i);
      if (!t->fired) { t->fired = true; t->fired_at = now; }
    }
  else t->fired = true;
  return NULL;
}
static bool completed (int i) { return !dex_future_is_pending (M.t[i].f); }
static void
drop_aw (int i, int k)
{
  Timer *t = &M.t[i];
  if (k >= t->naw || !t->aw[k]) return;
  vs_log ("drop awaiter %d of timer %d", k, i);
  bool live = !(t->kind[k] == 1 && t->setdone);
  if (live && --t->live == 0 && !completed (i)) t->discarded = true;
  dex_clear (&t->aw[k]);
}
static void
finish_set (int i)
{
  Timer *t = &M.t[i];
  if (t->setdone || !M.p[i]) return;
  vs_log ("promise of timer %d", i);
  t->setdone = true;
  for (int k = 0; k < t->naw; k++) if (t->aw[k] && t->kind[k] == 1) if (--t->live == 0 && !completed (i)) t->discarded = true;
  dex_promise_resolve_boolean (M.p[i], TRUE);
}
static void
new_timer (int how, gint64 v, int aws)
{
  int i = M.n++; Timer *t = &M.t[i]; memset (t, 0, sizeof *t);
  gint64 now = g_get_monotonic_time ();
  switch (how)
    {
    case 0: t->f = dex_timeout_new_usec (v); t->deadline = now + v; break;
    case 1: v %= 5000000; t->f = dex_timeout_new_msec (v); t->deadline = now + v * 1000; break;
    case 2: v %= 100000; t->f = dex_timeout_new_seconds (v); t->deadline = now + v * 1000000; break;
    default: t->deadline = now + v - 2000; if (t->deadline < 0) t->deadline = 0; t->f = dex_timeout_new_deadline (t->deadline); break;
    }
  t->min_deadline = t->deadline;
  vs_log ("timer %d with deadline %ld (now %ld)", i, (long)(t->deadline - 1000000000), (long)(now - 1000000000));
  M.p[i] = dex_promise_new ();
  t->naw = 1 + aws % 3;
  for (int k = 0; k < t->naw; k++)
    {
      t->live++;
      if (k == 0) { t->kind[k] = 0; t->aw[k] = dex_future_catch (dex_ref (t->f), timer_cb, t, NULL); }
      else if (k == 1) { t->kind[k] = 1; t->aw[k] = dex_future_first (dex_ref (t->f), dex_ref (M.p[i]), NULL); }
      else { t->kind[k] = 2; t->aw[k] = dex_future_all (dex_ref (t->f), NULL); }
    }
}
static void
check_timers (bool ran)
{
  gint64 now = g_get_monotonic_time ();
  for (int i = 0; i < M.n; i++)
    {
      Timer *t = &M.t[i]; bool c = completed (i);
      if (c) vs_check (now >= t->min_deadline, "early", "timer %d completed %ld us before its deadline", i, (long)(t->min_deadline - now));
      if (t->discarded) vs_check (!c, "fired-discarded", "timer %d completed after it was discarded", i);
      else if (ran && now >= t->deadline) vs_check (c, "late", "timer %d is pending %ld us after its deadline", i, (long)(now - t->deadline));
    }
}
static void
timers_once (void)
{
  memset (M.t, 0, sizeof M.t); memset (M.p, 0, sizeof M.p); M.n = 0;
  for (int s = 0; s < M.nop; s++)
    {
      TOp *o = &M.op[s];
      switch (o->k)
        {
        case 0: case 1: if (M.n < NT) new_timer (o->a, o->v, o->b); break;
        case 2: vs_advance (o->v); check_timers (true); break;
        case 3: if (M.n) { int i = o->a % M.n; if (!completed (i)) { Timer *t = &M.t[i]; t->deadline = g_get_monotonic_time () + o->v; t->min_deadline = t->deadline; vs_log ("postpone timer %d to %ld", i, (long)(t->deadline - 1000000000)); dex_timeout_postpone_until ((DexTimeout *)t->f, t->deadline); } } break;
        case 4: if (M.n) drop_aw (o->a % M.n, o->b % 3); break;
        case 5: if (M.n) finish_set (o->a % M.n); break;
        case 6: vs_run_idle (); check_timers (true); break;
        }
      check_timers (false);
    }
  for (int i = 0; i < M.n; i++)
    for (int j = 0; j < M.n; j++)
      if (M.t[i].fired && M.t[j].fired && M.t[i].deadline < M.t[j].deadline && M.t[i].fired_at > M.t[j].fired_at)
        vs_check (M.t[j].fired_at < M.t[j].deadline || M.t[i].fired_at - M.t[j].fired_at > 0, "order", "timers %d and %d", i, j);
  vs_advance (7200000000ll); check_timers (true);
  for (int i = 0; i < M.n; i++) if (M.t[i].live && !M.t[i].discarded && M.t[i].deadline > g_get_monotonic_time ()) vs_label ("far deadline");
  int disc = 0, fired = 0;
  for (int i = 0; i < M.n; i++)
    {
      for (int k = 0; k < M.t[i].naw; k++) drop_aw (i, k);
      disc += M.t[i].discarded; fired += completed (i);
      dex_clear (&M.p[i]);
      dex_clear (&M.t[i].f);
    }
  if (disc) vs_label ("discarded"); if (fired) vs_label ("fired"); if (disc && fired && M.n > 2) vs_nontrivial ();
  vs_advance (1000000);
  vs_objects_check ("after dropping the timers");
}
static gint64 gen_delay (void)
{
  switch (vs_draw (7))
    { case 0: return 0; case 1: return 1 + vs_draw (999); case 2: return 1000 * vs_draw (20); case 3: return vs_draw (20000); case 4: return 1000000ll * vs_draw (4); case 5: return 3600000000ll + vs_draw (1000000); default: return (gint64)vs_draw (1u << 31) * (1 + vs_draw (1000000)); }
}
static void
run_timers (void)
{
  memset (&M, 0, sizeof M);
  vs_begin (VS_PREEMPT_NONE);
  g_type_class_ref (dex_fiber_get_type ());
  vs_objects_mark ();
  M.nop = 3 + vs_draw (30);
  for (int i = 0; i < M.nop; i++) { M.op[i].k = vs_draw (7); M.op[i].a = vs_draw (64); M.op[i].b = vs_draw (3); M.op[i].v = gen_delay (); if (M.op[i].k == 2) M.op[i].v = M.op[i].v % 4000000; if (M.op[i].k < 2) M.op[i].a = vs_draw (4); }
  size_t h[6] = { 0 };
  for (int r = 0; VS_ROUNDS (h, r); r++) { vs_log ("round %d", r); timers_once (); h[r] = vs_heap_bytes (); }
  VS_ROUNDS_CHECK (h);
  vs_end ();
}

/* timers on loops of several threads, dropped and postponed by others while they fire */
typedef struct { int t, act[6], n; bool first; gint64 v; } THelp;
static gpointer
t_helper (gpointer u)
{
  THelp *h = u;
  if (h->first) g_usleep (h->v);
  for (int k = 0; k < h->n; k++)
    {
      int i = h->act[k] / 4 % M.n; Timer *t = &M.t[i];
      switch (h->act[k] & 3)
        {
        case 0: if (t->aw[0]) { vs_log ("drop callback of timer %d", i); t->maybe = true; DexFuture *f = t->aw[0]; t->aw[0] = NULL; dex_unref (f); } break;
        case 1: if (t->aw[1]) { vs_log ("drop set of timer %d", i); t->maybe = true; DexFuture *f = t->aw[1]; t->aw[1] = NULL; dex_unref (f); } break;
        case 2: vs_log ("promise of timer %d", i); t->maybe = true; dex_promise_resolve_boolean (M.p[i], TRUE); break;
        case 3: { gint64 d = g_get_monotonic_time () + h->v; if (d > t->deadline) { t->deadline = d; vs_log ("postpone timer %d", i); dex_timeout_postpone_until ((DexTimeout *)t->f, d); } break; }
        }
      if (!h->first && h->v & 1) g_usleep (h->v);
    }
  return NULL;
}
static void make_on_pool (gpointer u) { Timer *t = u; int i = t - M.t; vs_log ("timer %d on the pool", i); t->f = dex_timeout_new_usec (t->eff); t->deadline = t->min_deadline = g_get_monotonic_time () + t->eff; t->aw[0] = dex_future_catch (dex_ref (t->f), timer_cb, t, NULL); if (!t->one) t->aw[1] = dex_future_first (dex_ref (t->f), dex_ref (M.p[i]), NULL); t->naw = 2; }
static gpointer make_on_thread (gpointer u) { make_on_pool (u); return NULL; }
static bool pool_fired (gpointer u) { for (int i = 0; i < M.n; i++) if (M.t[i].pool && !M.t[i].maybe && !M.t[i].fired) return false; return true; }
static void
run_timers_threads (void)
{
  memset (&M, 0, sizeof M); M.threads = true;
  vs_set_nproc (2);
  vs_begin (VS_PREEMPT_AUTO);
  g_type_class_ref (dex_fiber_get_type ());
  vs_objects_mark ();
  bool pool = vs_draw (3) == 2;
  if (pool) M.pool = dex_thread_pool_scheduler_new ();
  int n = 1 + vs_draw (4); bool anypool = false;
  for (int i = 0; i < n; i++)
    {
      Timer *t = &M.t[i]; M.p[i] = dex_promise_new (); M.n++;
      t->eff = vs_draw (3) ? vs_draw (3000) : 0; t->one = vs_draw (2);
      if (pool && vs_draw (2)) { t->pool = anypool = true; dex_scheduler_push (M.pool, make_on_pool, t); }
      else if (vs_draw (6) == 5) { vs_label ("made by a plain thread"); g_thread_join (g_thread_new ("plain", make_on_thread, t)); }
      else make_on_pool (t);
    }
  if (anypool) vs_run_idle ();
  for (int i = 0; i < n; i++) vs_check (M.t[i].f != NULL, "lost-item", "timer %d was not made", i);
  int nh = 1 + vs_draw (2); THelp hp[3]; GThread *th[3];
  for (int k = 0; k < nh; k++) { THelp *h = &hp[k]; h->n = 1 + vs_draw (5); { uint32_t w = vs_draw (4); h->v = w == 0 ? 0 : w == 3 ? vs_draw (3000) : M.t[vs_draw (n)].eff; h->first = vs_draw (2); } for (int j = 0; j < h->n; j++) h->act[j] = vs_draw (4 * n); th[k] = g_thread_new ("helper", t_helper, h); }
  for (int k = vs_draw (4); k > 0; k--) vs_advance (vs_draw (2000));
  for (int k = 0; k < nh; k++) g_thread_join (th[k]);
  if (anypool && vs_draw (2)) { vs_label ("the main loop does not run"); vs_wait_until (pool_fired, NULL, "the timers of the pool to fire"); }
  vs_advance (10000000);
  int disc = 0, fired = 0;
  for (int i = 0; i < n; i++)
    {
      bool c = completed (i);
      vs_check (c || M.t[i].maybe, "late", "timer %d never fired although nobody lost interest in it", i);
      if (!c) vs_check (!(M.t[i].aw[0] || (M.t[i].aw[1] && dex_future_is_pending (M.t[i].aw[1]))), "late", "timer %d never fired although it is still awaited", i);
      disc += !c; fired += c;
      for (int k = 0; k < 2; k++) if (M.t[i].aw[k]) dex_clear (&M.t[i].aw[k]);
      dex_clear (&M.p[i]); dex_clear (&M.t[i].f);
    }
  if (pool) { dex_unref (M.pool); vs_label ("pool"); }
  vs_run_idle ();
  vs_objects_check ("after dropping the timers");
  if (disc) vs_label ("discarded"); if (fired) vs_label ("fired");
  if (disc || (fired && n > 1)) vs_nontrivial ();
  vs_end ();
}

/* ================= cancellation objects ================= */
#define NC 3
#define NCF 24
typedef struct { DexFuture *f; int c, kind; bool cancelled, held; int react, rarg, cb; DexFuture *blk; } CF;
static struct { GCancellable *c[NC]; bool done[NC]; CF f[NCF]; int n; int emitting, in_cb, dropped_in_cb; } G;
static void cancel (int c);
static void drop_cf (int i)
{
  CF *x = &G.f[i];
  if (!x->held) return;
  x->held = false; vs_log ("drop future %d%s", i, G.emitting ? " during a cancellation" : "");
  if (G.emitting) G.dropped_in_cb++;
  DexFuture *b = x->blk, *f = x->f; x->blk = x->f = NULL;
  dex_clear (&b); dex_clear (&f);
}
static DexFuture *
cancel_cb (DexFuture *f, gpointer u)
{
  CF *x = u; int i = x - G.f; GError *e = NULL;
  vs_check (!dex_future_get_value (f, &e) && e && e->domain == G_IO_ERROR && e->code == G_IO_ERROR_CANCELLED, "outcome", "future %d ended with %s", i, e ? e->message : "a value");
  g_clear_error (&e);
  vs_check (++x->cb == 1, "twice", "callback of future %d ran twice", i);
  vs_check (G.done[x->c], "early", "future %d rejected although its object was not cancelled", i);
  vs_log ("callback of future %d", i);
  if (x->react == 1 && G.n) drop_cf (x->rarg % G.n);
  if (x->react == 2) cancel (x->rarg % NC);
  if (x->react == 3) for (int k = 0; k < G.n; k++) if (k != i && G.f[k].c == x->c) drop_cf (k);
  return NULL;
}
static void make_cf (int c, int react, int rarg)
{
  if (G.n >= NCF) return;
  int i = G.n++; CF *x = &G.f[i]; memset (x, 0, sizeof *x);
  x->c = c; x->held = true; x->react = react; x->rarg = rarg;
  vs_log ("future %d from object %d", i, c);
  x->f = dex_cancellable_new_from_cancellable (G.c[c]);
  vs_check (dex_future_is_rejected (x->f) == G.done[c], "state", "future %d is %s right after it was made although its object is %scancelled", i, dex_future_is_pending (x->f) ? "pending" : "done", G.done[c] ? "" : "not ");
  if (react) { x->blk = dex_future_finally (dex_ref (x->f), cancel_cb, x, NULL); if (!x->held) dex_clear (&x->blk); }
}
static void cancel (int c)
{
  vs_log ("cancel object %d", c);
  G.done[c] = true; G.emitting++;
  g_cancellable_cancel (G.c[c]);
  G.emitting--;
}
static void check_cf (void)
{
  for (int i = 0; i < G.n; i++)
    if (G.f[i].held)
      {
        bool p = dex_future_is_pending (G.f[i].f);
        vs_check (p == !G.done[G.f[i].c], "state", "future %d is %s but its object is %scancelled", i, p ? "pending" : "complete", G.done[G.f[i].c] ? "" : "not ");
        if (!p) { GError *e = NULL; vs_check (!dex_future_get_value (G.f[i].f, &e) && e->domain == G_IO_ERROR && e->code == G_IO_ERROR_CANCELLED, "outcome", "future %d", i); g_clear_error (&e); }
      }
}
static void
cancellable_once (void)
{
  memset (&G, 0, sizeof G);
  vs_objects_mark ();
  for (int i = 0; i < NC; i++) G.c[i] = g_cancellable_new ();
  int steps = 4 + vs_draw (24), cancels = 0; DexFuture *sets[8]; int ns = 0; int own = 0;
  for (int s = 0; s < steps; s++)
    switch (vs_draw (8))
      {
      case 0: case 1: case 2: make_cf (vs_draw (NC), vs_draw (4), vs_draw (60)); check_cf (); break;
      case 3: cancel (vs_draw (NC)); cancels++; check_cf (); break;
      case 4: if (G.n) drop_cf (vs_draw (G.n)); break;
      case 5: vs_run_idle (); check_cf (); break;
      case 6: if (G.n > 1 && ns < 8) { int a = vs_draw (G.n), b = vs_draw (G.n); if (G.f[a].held && G.f[b].held) { bool d = G.done[G.f[a].c] || G.done[G.f[b].c]; sets[ns] = dex_future_first (dex_ref (G.f[a].f), dex_ref (G.f[b].f), NULL); vs_check (dex_future_is_pending (sets[ns]) == !d, "state", "a race of cancelled futures is pending"); ns++; } } break;
      case 7: if (ns && vs_draw (2)) dex_clear (&sets[--ns]);
              else { DexCancellable *k = dex_cancellable_new (); vs_check (dex_future_is_pending (DEX_FUTURE (k)), "state", "new"); dex_cancellable_cancel (k); vs_check (dex_future_is_rejected (DEX_FUTURE (k)), "state", "not rejected by dex_cancellable_cancel"); if (vs_draw (2)) dex_cancellable_cancel (k); dex_unref (k); own++; }
              break;
      }
  vs_run_idle (); check_cf ();
  for (int i = 0; i < G.n; i++) vs_check (G.f[i].cb == (G.f[i].react && G.done[G.f[i].c] && G.f[i].held) || !G.f[i].held || !G.f[i].react, "callback", "callback of future %d ran %d times", i, G.f[i].cb);
  while (ns) dex_clear (&sets[--ns]);
  for (int i = 0; i < G.n; i++) drop_cf (i);
  vs_run_idle ();
  vs_objects_check ("after dropping the futures");
  for (int i = 0; i < NC; i++)
    {
      vs_check (!g_signal_has_handler_pending (G.c[i], g_signal_lookup ("cancelled", G_TYPE_CANCELLABLE), 0, TRUE), "handler-left", "object %d still has a handler although no future is left", i);
      vs_check (G_OBJECT (G.c[i])->ref_count == 1, "leak", "object %d has %d references", i, G_OBJECT (G.c[i])->ref_count);
      g_object_unref (G.c[i]);
    }
  if (G.dropped_in_cb) vs_label ("dropped during a cancellation"); if (cancels) vs_label ("cancelled");
  if (cancels && G.n > 2) vs_nontrivial ();
}
static void run_cancellable (void) { VS_RUN_ROUNDS (cancellable_once ()); }

/* ================= unix signals ================= */
static const int SIGS[] = { SIGHUP, SIGINT, SIGTERM, SIGUSR1, SIGUSR2, SIGWINCH };
static int seen[6]; static GMainContext *sctx;
static gboolean sentinel (gpointer u) { seen[GPOINTER_TO_INT (u)]++; return G_SOURCE_CONTINUE; }
#define NS 24
static struct { DexFuture *f, *b; int sig; bool done, held; int cb; } W[NS];
static DexFuture *sig_cb (DexFuture *f, gpointer u) { int i = GPOINTER_TO_INT (u); W[i].cb++; return NULL; }
static void signals_once (void);
static void
run_signals (void)
{
  size_t h[4]; uint32_t pos = vs_tape_pos ();
  for (int r = 0; r < 4; r++) { vs_log ("round %d", r); vs_tape_rewind (pos); signals_once (); h[r] = vs_heap_bytes (); }
  /* GLib's signal thread allocates a little of its own */
  long a = (long)(h[2] - h[1]), b = (long)(h[3] - h[2]);
  vs_check (a < 64 || b < 64, "heap-leak", "%ld and %ld more bytes allocated after the third and the fourth run of the same program", a, b);
}
static void
signals_once (void)
{
  memset (W, 0, sizeof W);
  if (!sctx)
    {
      sctx = g_main_context_new ();
      for (int i = 0; i < 6; i++) { GSource *s = g_unix_signal_source_new (SIGS[i]); g_source_set_callback (s, sentinel, GINT_TO_POINTER (i), NULL); g_source_attach (s, sctx); }
      dex_unref (dex_unix_signal_new (SIGUSR1));
    }
  vs_objects_mark ();
  int n = 0, steps = 4 + vs_draw (24), raised = 0, resolved = 0;
  for (int s = 0; s < steps; s++)
    {
      switch (vs_draw (5))
        {
        case 0: case 1:
          if (n < NS) { W[n].sig = vs_draw (6); if (n && vs_draw (2)) W[n].sig = W[n - 1].sig; W[n].held = true; vs_log ("waiter %d for signal %d", n, SIGS[W[n].sig]); W[n].f = dex_unix_signal_new (SIGS[W[n].sig]); if (vs_draw (2)) W[n].b = dex_future_then (dex_ref (W[n].f), sig_cb, GINT_TO_POINTER (n), NULL); n++; }
          break;
        case 2: case 3:
          {
            int k = vs_draw (6), times = vs_draw (4) == 3 ? 2 : 1; if (n && vs_draw (4)) k = W[vs_draw (n)].sig;
            vs_log ("raise %d", SIGS[k]); raised++;
            seen[k] = 0;
            for (int t = 0; t < times; t++) kill (getpid (), SIGS[k]);
            while (!seen[k]) g_main_context_iteration (sctx, TRUE);
            if (times > 1) { g_usleep (3000); while (g_main_context_iteration (sctx, FALSE)); }
            for (int i = 0; i < n; i++) if (W[i].held && W[i].sig == k) W[i].done = true;
            break;
          }
        case 4: if (n) { int i = vs_draw (n); if (W[i].held) { vs_log ("drop waiter %d", i); W[i].held = false; dex_clear (&W[i].b); dex_clear (&W[i].f); } } break;
        }
      for (int r = 0; r < 4; r++) while (g_main_context_iteration (NULL, FALSE)) ;
      for (int i = 0; i < n; i++)
        if (W[i].held)
          {
            bool p = dex_future_is_pending (W[i].f);
            vs_check (p == !W[i].done, "state", "waiter %d for signal %d is %s", i, SIGS[W[i].sig], p ? "pending although the signal was delivered" : "complete although the signal was not delivered");
            if (!p) { const GValue *v = dex_future_get_value (W[i].f, NULL); resolved++; vs_check (v && G_VALUE_HOLDS_INT (v) && g_value_get_int (v) == SIGS[W[i].sig], "value", "waiter %d resolved with the wrong number", i); }
            if (W[i].b) vs_check (W[i].cb == W[i].done, "callback", "callback of waiter %d ran %d times", i, W[i].cb);
          }
    }
  for (int i = 0; i < n; i++) { dex_clear (&W[i].b); dex_clear (&W[i].f); }
  for (int r = 0; r < 4; r++) while (g_main_context_iteration (NULL, FALSE)) ;
  vs_objects_check ("after dropping the waiters");
  if (resolved) vs_label ("resolved"); if (n > 2 && raised && resolved) vs_nontrivial ();
}

VS_HARNESS (t1) = { "timers", "histories of timers created, postponed, raced, dropped and the clock moving, three identical rounds; non-trivial: more than two timers, at least one fired and one discarded", run_timers, 60 };
VS_HARNESS (t2) = { "timers-threads", "timers dropped, postponed and discarded by other threads while they fire; non-trivial: one discarded or several fired", run_timers_threads, 60 };
VS_HARNESS (t3) = { "cancellables", "futures made from shared cancellation objects, cancelled, dropped and reacting to the cancellation; non-trivial: more than two futures and a cancellation", run_cancellable, 100, .timeout_s = 15 };
VS_HARNESS (t4) = { "signals", "waiters for six signals created, dropped, and signals raised; non-trivial: more than two waiters and one resolved", run_signals, 40, .exec = true, .real_time = true };
