/* The asynchronous semaphore: permits posted, waits requested on loops of
 * several threads, waits dropped, closing. */
#include "vs.h"
#include <libdex.h>
#include <string.h>
#include <unistd.h>
#include "dex-semaphore-private.h"
extern GType dex_fiber_get_type (void);

#define NW 60
typedef struct { DexFuture *f; int tid; bool cb, asked, dropped, granted, rejected, drop_ungranted; int react, by; GThread *self; } Wait;
static struct { Wait w[NW]; int nw; DexSemaphore *s; int posted, posting; bool closed, closing; DexScheduler *pool; int lo, hi; bool real; int granted_cross, cross, depth; } S_;
#define S S_
static int me (void) { return S.real ? 0 : vs_self_id (); }

static void post (int n)
{
  vs_log ("post %d", n);
  S.posting += n;
  if (n == 1 && S.posting % 2) dex_semaphore_post (S.s); else dex_semaphore_post_many (S.s, n);
  S.posted += n;
}
static void settle (Wait *w, DexFuture *f)
{
  int i = w - S.w; GError *e = NULL;
  const GValue *v = dex_future_get_value (f, &e);
  vs_check (!w->granted && !w->rejected, "twice", "wait %d settled twice", i);
  if (v) { w->granted = true; vs_log ("wait %d granted", i); }
  else
    {
      w->rejected = true; vs_log ("wait %d rejected: %s", i, e->message);
      vs_check (e->domain == DEX_ERROR && e->code == DEX_ERROR_SEMAPHORE_CLOSED, "error", "wait %d rejected with %s", i, e->message);
      vs_check (S.closing, "rejected", "wait %d rejected although the semaphore is open", i);
      g_error_free (e);
    }
  int g = 0; for (int k = 0; k < S.nw; k++) g += S.w[k].granted;
  vs_check (g <= S.posting, "over-granted", "%d waits granted but only %d permits were posted", g, S.posting);
}
static void ask (int i);
static DexFuture *wait_cb (DexFuture *f, gpointer u)
{
  Wait *w = u; int i = w - S.w;
  if (S.real) vs_check (g_thread_self () == w->self, "wrong-thread", "wait %d granted on another thread", i);
  else vs_check (me () == w->tid, "wrong-thread", "wait %d requested on T%d, settled on T%d", i, w->tid, me ());
  settle (w, f);
  if (!S.s) return NULL;
  if (w->react == 1 && S.posting < 90) post (1);
  if (w->react == 2 && S.nw < NW && S.depth < 12) { S.depth++; int k = S.nw++; S.w[k].cb = true; S.w[k].react = 0; ask (k); }
  return NULL;
}
static void
ask (int i)
{
  Wait *w = &S.w[i];
  w->tid = me (); w->self = g_thread_self (); w->asked = true;
  vs_log ("wait %d asked", i);
  DexFuture *f = dex_semaphore_wait (S.s);
  if (w->cb) f = dex_future_finally (f, wait_cb, w, NULL);
  w->f = f;
}
static void ask_item (gpointer u) { ask (GPOINTER_TO_INT (u)); }
static void drop_item (gpointer u);
static void
drop (int i)
{
  Wait *w = &S.w[i];
  if (!w->f || w->dropped || !w->asked) return;
  vs_log ("drop wait %d", i);
  w->dropped = true;
  if (!w->granted && !w->rejected)
    { if (w->cb || dex_future_is_pending (w->f)) w->drop_ungranted = true; else settle (w, w->f); }
  dex_clear (&w->f);
}
static void drop_item (gpointer u) { drop (GPOINTER_TO_INT (u)); }

static void
count (int *g, int *asked, int *dropped)
{
  *g = *asked = *dropped = 0;
  for (int i = 0; i < S.nw; i++)
    {
      Wait *w = &S.w[i];
      if (!w->asked) continue;
      if (!w->cb && !w->dropped && !w->granted && !w->rejected && w->f && !dex_future_is_pending (w->f)) settle (w, w->f);
      *asked += 1; *g += w->granted; *dropped += w->drop_ungranted && !w->granted && !w->rejected;
    }
}
static void
check_quiet (const char *when)
{
  int g, asked, dropped; count (&g, &asked, &dropped);
  int live = asked - dropped, hi = MIN (S.posted, live), lo = MIN (MAX (S.posted - dropped, 0), live);
  vs_check (g <= hi, "over-granted", "%s: %d waits granted, %d posted, %d asked", when, g, S.posted, asked);
  if (!S.closing) vs_check (g >= lo, "lost-permit", "%s: only %d waits granted with %d permits posted and %d waits asked (%d dropped)", when, g, S.posted, asked, dropped);
}
typedef struct { int n, amount[8], drops; bool close; } Poster;
static gpointer poster (gpointer u)
{
  Poster *p = u;
  for (int i = 0; i < p->n; i++) { post (p->amount[i]); if (!S.real) vs_point (); }
  if (p->close) { S.closing = true; vs_log ("close"); dex_semaphore_close (S.s); S.closed = true; }
  return NULL;
}
static void
run_sem (void)
{
  memset (&S, 0, sizeof S);
  vs_set_nproc (2 * (1 + vs_draw (2)));
  vs_begin (VS_PREEMPT_AUTO);
  g_type_class_ref (dex_fiber_get_type ());
  vs_objects_mark ();
  bool pool = vs_draw (3) != 0; int np = vs_draw (3);
  S.s = dex_semaphore_new ();
  if (pool) { S.lo = vs_thread_count (); S.pool = dex_thread_pool_scheduler_new (); S.hi = vs_thread_count (); }
  Poster pp[3]; memset (pp, 0, sizeof pp); GThread *t[3];
  for (int i = 0; i < np; i++) { pp[i].n = 1 + vs_draw (4); for (int k = 0; k < pp[i].n; k++) pp[i].amount[k] = vs_draw (3) == 2 ? vs_draw (6) : 1; pp[i].close = i == 0 && vs_draw (6) == 5; }
  int steps = 3 + vs_draw (18), started = 0, npool = 0, ndrop = 0;
  for (int s = 0; s < steps; s++)
    switch (vs_draw (7))
      {
      case 0: case 1: case 2:
        if (S.nw < NW - 8)
          {
            int i = S.nw++; Wait *w = &S.w[i]; w->cb = vs_draw (4) != 3; w->react = w->cb ? vs_draw (4) : 0;
            if (pool && vs_draw (2)) { npool++; dex_scheduler_push (S.pool, ask_item, GINT_TO_POINTER (i)); }
            else ask (i);
          }
        break;
      case 3: post (vs_draw (3) == 2 ? vs_draw (5) : 1); break;
      case 4: if (started < np) { t[started] = g_thread_new ("poster", poster, &pp[started]); started++; } break;
      case 5: if (S.nw && vs_draw (2)) { int i = vs_draw (S.nw); if (S.w[i].asked && S.w[i].tid == 0) { ndrop++; drop (i); } } break;
      case 6: vs_run_idle (); if (started == 0) check_quiet ("between"); break;
      }
  if (vs_draw (8) == 7) { S.closing = true; vs_log ("close"); dex_semaphore_close (S.s); S.closed = true; }
  while (started < np) { t[started] = g_thread_new ("poster", poster, &pp[started]); started++; }
  for (int i = 0; i < np; i++) g_thread_join (t[i]);
  vs_run_idle ();
  check_quiet ("at the end");
  int g, asked, dropped; count (&g, &asked, &dropped);
  if (g) vs_label ("granted"); if (asked - dropped > g) vs_label ("more waits than permits");
  if (npool) vs_label ("waits on pool threads"); if (dropped) vs_label ("dropped"); if (S.closed) vs_label ("closed");
  /* releasing the semaphore settles what is left */
  S.closing = true;
  vs_log ("release");
  DexSemaphore *last = g_steal_pointer (&S.s);
  dex_unref (last);
  vs_run_idle ();
  for (int i = 0; i < S.nw; i++) if (S.w[i].asked && !S.w[i].dropped) { if (!S.w[i].cb && !S.w[i].granted && !S.w[i].rejected) { vs_check (!dex_future_is_pending (S.w[i].f), "pending", "wait %d stays pending after the semaphore is gone", i); } else vs_check (S.w[i].granted || S.w[i].rejected, "pending", "wait %d stays pending after the semaphore is gone", i); }
  for (int i = 0; i < S.nw; i++) if (S.w[i].f) dex_clear (&S.w[i].f);
  if (S.pool) dex_unref (S.pool);
  vs_run_idle ();
  vs_objects_check ("at the end");
  if (g > 1 && (np || npool)) vs_nontrivial ();
  vs_end ();
}

/* the kernel-backed implementation, with real threads and time */
static bool settled (int want) { int g, a, d; count (&g, &a, &d); return g >= want; }
static gpointer real_poster (gpointer u) { Poster *p = u; for (int i = 0; i < p->n; i++) { dex_semaphore_post_many (S.s, p->amount[i]); g_atomic_int_add (&S.posted, p->amount[i]); } return NULL; }
static void
run_sem_real (void)
{
  memset (&S, 0, sizeof S); S.real = true;
  static bool warm; if (!warm) { warm = true; dex_unref (dex_semaphore_new ()); }
  int fds = vs_count_fds ();
  S.s = dex_semaphore_new ();
  int np = vs_draw (3); Poster pp[3]; memset (pp, 0, sizeof pp); GThread *t[3];
  int steps = 3 + vs_draw (16), started = 0;
  for (int i = 0; i < np; i++) { pp[i].n = 1 + vs_draw (4); for (int k = 0; k < pp[i].n; k++) pp[i].amount[k] = vs_draw (3) == 2 ? 1 + vs_draw (6) : 1; }
  for (int s = 0; s < steps; s++)
    switch (vs_draw (5))
      {
      case 0: case 1: if (S.nw < NW - 8) { int i = S.nw++; S.w[i].cb = vs_draw (3) != 2; ask (i); } break;
      case 2: { int n = 1 + (vs_draw (3) == 2 ? vs_draw (5) : 0); g_atomic_int_add (&S.posting, n); vs_log ("post %d", n); dex_semaphore_post_many (S.s, n); g_atomic_int_add (&S.posted, n); break; }
      case 3: if (started < np) { for (int k = 0; k < pp[started].n; k++) g_atomic_int_add (&S.posting, pp[started].amount[k]); t[started] = g_thread_new ("poster", real_poster, &pp[started]); started++; } break;
      case 4: for (int k = 0; k < 5; k++) g_main_context_iteration (NULL, FALSE); break;
      }
  for (int i = 0; i < started; i++) g_thread_join (t[i]);
  int asked = 0; for (int i = 0; i < S.nw; i++) asked += S.w[i].asked;
  int want = MIN (S.posted, asked);
  gint64 end = g_get_monotonic_time () + 10 * G_USEC_PER_SEC;
  while (!settled (want) && g_get_monotonic_time () < end) g_main_context_iteration (NULL, FALSE);
  for (int k = 0; k < 20; k++) g_main_context_iteration (NULL, FALSE);
  check_quiet ("at the end");
  int g, a, d; count (&g, &a, &d);
  /* let the rest go as well, so that nothing reads the eventfd any more */
  if (a > g) { S.posting += a - g; dex_semaphore_post_many (S.s, a - g); S.posted += a - g; end = g_get_monotonic_time () + 10 * G_USEC_PER_SEC; while (!settled (a) && g_get_monotonic_time () < end) g_main_context_iteration (NULL, FALSE); check_quiet ("after posting the rest"); }
  if (g) vs_label ("granted"); if (a > g) vs_label ("more waits than permits"); if (S.posted > a) vs_label ("more permits than waits");
  for (int i = 0; i < S.nw; i++) if (S.w[i].f) dex_clear (&S.w[i].f);
  if (vs_draw (2)) { vs_log ("close"); dex_semaphore_close (S.s); vs_check (vs_count_fds () == fds, "fd-leak", "%d descriptors open after closing, %d at the start", vs_count_fds (), fds); if (vs_draw (2)) dex_semaphore_close (S.s); }
  dex_clear (&S.s);
  vs_check (vs_count_fds () == fds, "fd-leak", "%d descriptors open, %d at the start", vs_count_fds (), fds);
  if (g > 1) vs_nontrivial ();
}
VS_HARNESS (s1) = { "semaphore", "posts, waits on the main loop and pool threads, drops and closing; non-trivial: at least two waits granted and several threads involved", run_sem, 60 };
VS_HARNESS (s2) = { "semaphore-real", "the kernel-backed semaphore on the main loop; non-trivial: at least two waits granted", run_sem_real, 50, .real_time = true, .exec = true };
