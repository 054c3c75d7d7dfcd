/* Large numbers: what holds for a handful must hold for hundreds and for tens
 * of thousands, around the powers of two where counters and arrays turn. */
#include "vs.h"
#include <libdex.h>
#include <string.h>
#include "dex-object-private.h"
#include "dex-semaphore-private.h"
extern GType dex_fiber_get_type (void);

static int
size (int max)
{
  int n;
  switch (vs_draw (8))
    {
    case 0: case 1: n = 1 + vs_draw (12); break;
    case 2: n = 28 + vs_draw (8); break;
    case 3: case 4: n = 124 + vs_draw (8); break;
    case 5: n = 250 + vs_draw (10); break;
    case 6: n = 1020 + vs_draw (8); break;
    default: n = vs_draw (4) == 3 ? 65530 + vs_draw (10) : 4092 + vs_draw (8); break;
    }
  while (n > max) n = n / 4 + 1;
  return n;
}
/* visits 0..n-1 forwards, backwards or from the middle outwards */
static int order_kind;
static void pick_order (void) { order_kind = vs_draw (3); }
static int at (int i, int n) { return order_kind == 0 ? i : order_kind == 1 ? n - 1 - i : (i % 2 ? n / 2 - 1 - i / 2 : n / 2 + i / 2) % n; }
static void big (int n) { if (n > 100) vs_nontrivial (); vs_label (n > 5000 ? "more than 5000" : n > 1000 ? "more than 1000" : n > 100 ? "more than 100" : "up to 100"); }

/* awaiters of one future */
static int *called, *gone;
static DexFuture *aw_cb (DexFuture *f, gpointer u) { called[GPOINTER_TO_INT (u)]++; return NULL; }
static void aw_gone (gpointer u) { gone[GPOINTER_TO_INT (u)]++; }
static void
run_awaiters (void)
{
  vs_begin (VS_PREEMPT_NONE); vs_objects_mark ();
  int n = size (1100), cut = vs_draw (3) == 0 ? n : vs_draw (n + 1); pick_order ();
  vs_log ("%d awaiters, %d dropped", n, cut);
  called = g_new0 (int, n); gone = g_new0 (int, n);
  DexPromise *p = dex_promise_new_cancellable (); DexFuture **b = g_new0 (DexFuture *, n);
  GCancellable *c = g_object_ref (dex_promise_get_cancellable (p));
  for (int i = 0; i < n; i++) b[i] = dex_future_finally (dex_ref (p), aw_cb, GINT_TO_POINTER (i), aw_gone);
  for (int i = 0; i < cut; i++)
    {
      vs_check (!g_cancellable_is_cancelled (c), "cancelled-needed", "cancelled while %d of %d awaiters are left", n - i, n);
      dex_clear (&b[at (i, n)]);
    }
  vs_check (g_cancellable_is_cancelled (c) == (cut == n), cut == n ? "not-cancelled" : "cancelled-needed", "%d of %d awaiters are left", n - cut, n);
  dex_promise_resolve_int (p, 3);
  vs_run_idle ();
  for (int i = 0; i < n; i++)
    {
      vs_check (called[i] == (b[i] != NULL), "callback", "callback %d ran %d times", i, called[i]);
      vs_check (!b[i] || (dex_future_is_resolved (b[i]) && g_value_get_int (dex_future_get_value (b[i], NULL)) == 3), "outcome", "future %d has the wrong outcome", i);
      dex_clear (&b[i]);
      vs_check (gone[i] == 1, "not-destroyed", "data of callback %d released %d times", i, gone[i]);
    }
  dex_clear (&p); g_object_unref (c); g_free (b); g_free (called); g_free (gone);
  vs_run_idle (); vs_objects_check ("at the end"); big (n); vs_end ();
}

/* a channel with many items, senders and receivers */
static void
run_channel (void)
{
  vs_begin (VS_PREEMPT_NONE); vs_objects_mark ();
  int cap = vs_draw (3) == 0 ? 0 : size (1100), sent = 0, asked = 0, max = 1500, phases = 1 + vs_draw (6);
  bool huge = vs_draw (60) == 59;
  if (huge) { phases = 1 + vs_draw (2); max = 24000; cap = vs_draw (3) == 0 ? 0 : 65530 + vs_draw (12); }
  DexChannel *ch = dex_channel_new (cap);
  DexFuture **s = g_new0 (DexFuture *, 6 * max), **r = g_new0 (DexFuture *, 6 * max);
  vs_log ("capacity %d", cap);
  bool many = false;
  for (int ph = 0; ph < phases; ph++)
    {
      int k = huge && ph == 0 ? 65532 + (int)vs_draw (12) : size (1100); bool rd = huge ? ph : vs_draw (2);
      vs_log ("%s %d", rd ? "receive" : "send", k);
      many |= k > 100;
      for (int i = 0; i < k; i++)
        if (rd) r[asked++] = dex_channel_receive (ch); else { s[sent] = dex_channel_send (ch, dex_future_new_for_int (sent)); sent++; }
      vs_run_idle ();
      int got = MIN (sent, asked), left = sent - got, full = cap && left > cap ? left - cap : 0, bad = 0;
      for (int i = 0; i < sent; i++)
        vs_check (dex_future_is_pending (s[i]) == (i >= sent - full), "send", "%d sent, %d asked for, capacity %d: send %d is %s", sent, asked, cap, i, dex_future_is_pending (s[i]) ? "pending" : "complete");
      for (int i = 0; i < asked; i++)
        {
          vs_check (dex_future_is_pending (r[i]) == (i >= got), "receive", "%d sent, %d asked for: receive %d is %s", sent, asked, i, dex_future_is_pending (r[i]) ? "pending" : "complete");
          if (i < got) { const GValue *v = dex_future_get_value (r[i], NULL); vs_check (v && g_value_get_int (v) == i, "order", "receive %d gave item %d", i, v ? g_value_get_int (v) : -1); }
        }
      (void) bad;
    }
  if (vs_draw (2)) { dex_channel_close_send (ch); vs_run_idle (); for (int i = 0; i < asked; i++) vs_check (!dex_future_is_pending (r[i]), "pending", "receive %d stays pending after closing", i); }
  for (int i = 0; i < sent; i++) dex_clear (&s[i]);
  for (int i = 0; i < asked; i++) dex_clear (&r[i]);
  dex_clear (&ch); vs_run_idle (); g_free (s); g_free (r);
  vs_objects_check ("at the end"); if (many) vs_nontrivial (); if (huge) vs_label ("more than 65000"); vs_end ();
}

/* a semaphore with many permits and waiters */
static void
run_semaphore (void)
{
  vs_begin (VS_PREEMPT_NONE); vs_objects_mark ();
  DexSemaphore *s = dex_semaphore_new (); int asked = 0, phases = 1 + vs_draw (6); gint64 posted = 0;
  DexFuture **w = g_new0 (DexFuture *, 8000); bool many = false;
  for (int ph = 0; ph < phases; ph++)
    {
      int k = size (1100);
      switch (vs_draw (3))
        {
        case 0: vs_log ("wait %d", k); many |= k > 100; for (int i = 0; i < k; i++) w[asked++] = dex_semaphore_wait (s); break;
        case 1: vs_log ("post %d, one by one", k); for (int i = 0; i < k; i++) dex_semaphore_post (s); posted += k; break;
        case 2: { guint c = size (70000); if (vs_draw (6) == 5) c = vs_draw (2) ? G_MAXUINT - vs_draw (3) : (1u << 31) - 2 + vs_draw (4); vs_log ("post %u at once", c); dex_semaphore_post_many (s, c); posted += c; break; }
        }
      vs_run_idle ();
      int done = 0;
      for (int i = 0; i < asked; i++) done += !dex_future_is_pending (w[i]);
      vs_check (done == MIN (posted, asked), done > posted ? "over-granted" : "not-granted", "%d of %d waits granted, %ld permits posted", done, asked, (long) posted);
    }
  dex_semaphore_close (s); vs_run_idle ();
  for (int i = 0; i < asked; i++) { vs_check (!dex_future_is_pending (w[i]), "pending", "wait %d stays pending after closing", i); dex_clear (&w[i]); }
  dex_clear (&s); g_free (w); vs_run_idle (); vs_objects_check ("at the end"); if (many) vs_nontrivial (); vs_end ();
}

/* references and weak references of one object */
static void
run_refs (void)
{
  vs_begin (VS_PREEMPT_NONE); vs_objects_mark ();
  int n = size (70000), m = size (5000); pick_order ();
  vs_log ("%d references, %d weak references", n, m);
  DexPromise *p = dex_promise_new ();
  DexWeakRef *w = g_new0 (DexWeakRef, m); bool *set = g_new0 (bool, m);
  for (int i = 0; i < m; i++) { dex_weak_ref_init (&w[i], p); set[i] = true; }
  for (int i = 1; i < n; i++) dex_ref (p);
  int drop = vs_draw (2) ? vs_draw (m) : 0;
  for (int i = 0; i < drop; i++) { int k = at (i, m); if (i % 2) dex_weak_ref_clear (&w[k]); else dex_weak_ref_set (&w[k], NULL); set[k] = false; if (i % 2) dex_weak_ref_init (&w[k], NULL); }
  for (int i = 0; i < m; i++) { gpointer o = dex_weak_ref_get (&w[i]); vs_check (o == (set[i] ? p : NULL), "weak-get", "weak reference %d gives %p", i, o); if (o) dex_unref (o); }
  gpointer q = p;
  for (int i = 1; i < n; i++) dex_unref (q);
  vs_check (vs_objects_alive () == 1, "early", "finalized with one of %d references left", n);
  dex_unref (q);
  vs_check (vs_objects_alive () == 0, "leak", "alive after its %d references were dropped", n);
  for (int i = 0; i < m; i++) { vs_check (dex_weak_ref_get (&w[i]) == NULL, "weak-get", "weak reference %d gives an object that is gone", i); dex_weak_ref_clear (&w[i]); }
  g_free (w); g_free (set); big (MAX (n, m)); vs_end ();
}

/* many fibers suspended at once, woken one by one or together */
static DexPromise **fp; static int *fstate, *fwoken, nwoken, nfib;
static DexFuture *
wide_fiber (gpointer u)
{
  int i = GPOINTER_TO_INT (u); volatile int mine[64];
  for (int k = 0; k < 64; k++) mine[k] = i * 64 + k;
  vs_check (fstate[i]++ == 0, "ran-twice", "fiber %d started twice", i);
  gint64 v = dex_await_int (dex_ref (fp[i]), NULL);
  vs_check (v == i, "value", "fiber %d got %ld", i, (long) v);
  for (int k = 0; k < 64; k++) vs_check (mine[k] == i * 64 + k, "stack", "the stack of fiber %d was overwritten", i);
  fstate[i]++; fwoken[nwoken++] = i;
  return dex_future_new_for_int (i);
}
static void
run_fibers (void)
{
  vs_begin (VS_PREEMPT_NONE); g_type_class_ref (dex_fiber_get_type ()); vs_objects_mark ();
  int n = nfib = size (600), batch = 1 + vs_draw (3) * 7; pick_order ();
  vs_log ("%d fibers, %d woken at a time", n, batch);
  fp = g_new0 (DexPromise *, n); fstate = g_new0 (int, n); fwoken = g_new0 (int, n); nwoken = 0;
  DexFuture **f = g_new0 (DexFuture *, n);
  for (int i = 0; i < n; i++) { fp[i] = dex_promise_new (); f[i] = dex_scheduler_spawn (NULL, 0, wide_fiber, GINT_TO_POINTER (i), NULL); }
  vs_run_idle ();
  for (int i = 0; i < n; i++) vs_check (fstate[i] == 1, "lost-fiber", "fiber %d did not start", i);
  for (int i = 0; i < n; i++)
    {
      dex_promise_resolve_int (fp[at (i, n)], at (i, n));
      if (i % batch == batch - 1) { vs_run_idle (); vs_check (nwoken == i + 1, "lost-wakeup", "%d of %d fibers resumed", nwoken, i + 1); }
    }
  vs_run_idle ();
  vs_check (nwoken == n, "lost-wakeup", "%d of %d fibers resumed", nwoken, n);
  for (int i = 0; i < n; i++) vs_check (fwoken[i] == at (i, n), "order", "fiber %d resumed as number %d, fiber %d was due", fwoken[i], i, at (i, n));
  for (int i = 0; i < n; i++) { vs_check (dex_await_int (dex_ref (f[i]), NULL) == i, "outcome", "fiber %d gave the wrong result", i); dex_clear (&f[i]); dex_clear (&fp[i]); }
  vs_run_idle (); vs_objects_check ("at the end");
  g_free (f); g_free (fp); g_free (fstate); g_free (fwoken); big (n); vs_end ();
}

/* many timers */
static gint64 *tdue; static int tfired;
static DexFuture *t_cb (DexFuture *f, gpointer u) { int i = GPOINTER_TO_INT (u); vs_check (vs_now () >= tdue[i], "early", "timer %d fired %ld us early", i, (long)(tdue[i] - vs_now ())); vs_check (vs_now () <= tdue[i] + 5000, "late", "timer %d fired %ld us late", i, (long)(vs_now () - tdue[i])); tfired++; return NULL; }
static void
run_timers (void)
{
  vs_begin (VS_PREEMPT_NONE); vs_objects_mark ();
  int n = size (1100), span = 1 + vs_draw (40), cut = 0; tfired = 0;
  vs_log ("%d timers in %d ms", n, span);
  tdue = g_new0 (gint64, n); DexFuture **f = g_new0 (DexFuture *, n);
  int a = 1 + 2 * vs_draw (20);
  for (int i = 0; i < n; i++)
    {
      int ms = (i * a) % span;
      tdue[i] = vs_now () + 1000 * ms;
      f[i] = dex_future_finally (i % 3 == 1 ? dex_timeout_new_deadline (tdue[i]) : dex_timeout_new_usec (1000 * ms), t_cb, GINT_TO_POINTER (i), NULL);
    }
  if (vs_draw (2)) for (int i = 0; i < n; i += 2) { cut++; dex_clear (&f[i]); }
  vs_advance (1000 * span + 20000);
  vs_check (tfired == n - cut, "not-fired", "%d of %d timers fired", tfired, n - cut);
  for (int i = 0; i < n; i++) if (f[i]) { vs_check (dex_future_is_rejected (f[i]), "outcome", "timer %d", i); dex_clear (&f[i]); }
  vs_run_idle (); vs_objects_check ("at the end"); g_free (f); g_free (tdue); big (n); vs_end ();
}

/* many functions pushed */
static int *pran, pn, pkids, plast; static bool pmain, pbad;
static void
wide_item (gpointer u)
{
  int i = GPOINTER_TO_INT (u); pran[i]++;
  if (pmain && i < pn) { if (i != plast + 1) pbad = true; plast = i; }
  if (i == pn / 2) for (int k = 0; k < pkids; k++) dex_scheduler_push (dex_scheduler_get_thread_default (), wide_item, GINT_TO_POINTER (pn + k));
}
static void
run_push (void)
{
  vs_set_nproc (2 * (1 + vs_draw (3)));
  vs_begin (VS_PREEMPT_NONE); vs_objects_mark ();
  pn = size (5000); pkids = vs_draw (2) ? size (5000) : 0; pmain = vs_draw (3) == 0; plast = -1; pbad = false; pran = g_new0 (int, pn + pkids + 1);
  vs_log ("%d functions to the %s, one of which pushes %d more", pn, pmain ? "main loop" : "pool", pkids);
  DexScheduler *s = pmain ? dex_ref (dex_scheduler_get_default ()) : dex_thread_pool_scheduler_new ();
  for (int i = 0; i < pn; i++) dex_scheduler_push (s, wide_item, GINT_TO_POINTER (i));
  if (vs_draw (2)) vs_run_idle ();
  dex_unref (s); vs_run_idle ();
  for (int i = 0; i < pn + pkids; i++) vs_check (pran[i] == 1, pran[i] ? "ran-twice" : "lost-item", "function %d of %d+%d ran %d times", i, pn, pkids, pran[i]);
  vs_check (!pbad, "order", "functions pushed to the main loop ran out of order");
  g_free (pran); vs_objects_check ("at the end"); big (pn + pkids); vs_end ();
}

VS_HARNESS (w1) = { "wide-awaiters", "up to 1100 awaiters of one promise, some or all of them dropped; non-trivial: more than 100", run_awaiters, 20 };
VS_HARNESS (w2) = { "wide-channel", "up to 1100 items, senders and receivers a phase; non-trivial: a phase of more than 100", run_channel, 20 };
VS_HARNESS (w3) = { "wide-semaphore", "up to 1100 waiters a phase, up to 65539 and now and then 2^31 or 2^32 permits; non-trivial: more than 100 waiters", run_semaphore, 20 };
VS_HARNESS (w4) = { "wide-references", "up to 65539 references to and 4099 weak references to an object; non-trivial: more than 100", run_refs, 20 };
VS_HARNESS (w5) = { "wide-fibers", "up to 600 fibers suspended at once; non-trivial: more than 100", run_fibers, 20 };
VS_HARNESS (w6) = { "wide-timers", "up to 1100 timers; non-trivial: more than 100", run_timers, 20 };
VS_HARNESS (w7) = { "wide-push", "up to 4099 functions pushed from outside and as many from one of them; non-trivial: more than 100", run_push, 20 };
