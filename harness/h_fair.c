/* Fairness: fibers, functions, loops and channels which keep a scheduler busy
 * without end, and others which must still get their turn. */
#include "vs.h"
#include <libdex.h>
#include <string.h>
extern GType dex_fiber_get_type (void);

typedef enum { B_PING, B_PUSHED, B_SELF, B_LOOP, B_CHANNEL, B_CHILD, B_TIMER, B_SOURCE, B_RELAY, NB, B_FLOOD = NB } BusyKind;
static const char *bname[] = { "two fibers waking each other", "a fiber waiting for pushed functions", "a function pushing itself", "an endless loop of callbacks", "a producer and a consumer fiber", "a fiber starting fibers", "a fiber waiting for due timers", "a GSource", "a fiber starting its successor", "functions pushed from outside" };
typedef enum { V_FIBER, V_PUSH, V_SOURCE, V_CHAIN, V_TIMER, V_TREE, NV, V_OUTSIDE = NV } VictimKind;
static const char *vname[] = { "a fiber", "a pushed function", "a GSource", "a chain of callbacks", "a timer", "fibers awaiting fibers", "a function pushed from outside" };
typedef struct { int kind; DexPromise *box[2]; DexChannel *ch; long turns; } Busy;
typedef struct { int kind, steps, at; bool done, push; } Victim;
static Busy bz[7]; static int nb;
static Victim vt[8]; static int nv;
static DexScheduler *S; static DexPromise *please[8]; static bool pings;
static bool pool, stop, hunting; static long turns, limit; static int active, owner;

static void
turn (Busy *b)
{
  turns++; b->turns++;
  if (turns < limit) return;
  vs_check (hunting || stop, "starved", "a GSource got no turn while %s took %ld of %ld turns", bname[b->kind], b->turns, turns);
  if (!hunting) return;
  for (int i = 0; i < nv; i++)
    vs_check (vt[i].done, "starved", "%s (victim %d, step %d of %d) got no turn while %s took %ld of %ld turns", vname[vt[i].kind], i, vt[i].at, vt[i].steps, bname[b->kind], b->turns, turns);
}
static bool all_done (void) { for (int i = 0; i < nv; i++) if (!vt[i].done) return false; return true; }
static void victim_done (Victim *v) { v->done = true; vs_log ("victim %d done after %ld turns", (int)(v - vt), turns); if (all_done ()) { hunting = false; stop = true; } }

static void resolve_p (gpointer u) { dex_promise_resolve_int (u, 1); dex_unref (u); }
static void wake (DexPromise **p) { if (*p) { DexPromise *x = *p; *p = NULL; dex_promise_resolve_int (x, 1); dex_unref (x); } }
static DexFuture *resolve_fiber (gpointer u) { resolve_p (u); return NULL; }
static void out (gpointer u) { active--; }
static DexFuture *
ping (Busy *b, int me)
{
  while (!stop)
    {
      turn (b);
      for (int i = 0; i < nv; i++) wake (&please[i]);
      b->box[me] = dex_promise_new ();
      DexFuture *f = dex_ref (b->box[me]);
      wake (&b->box[1 - me]);
      dex_await (f, NULL);
    }
  wake (&b->box[1 - me]);
  return dex_future_new_for_int (me);
}
static DexFuture *ping0 (gpointer u) { return ping (u, 0); }
static DexFuture *ping1 (gpointer u) { return ping (u, 1); }
static DexFuture *
waits_pushed (gpointer u)
{
  while (!stop)
    {
      turn (u);
      DexPromise *p = dex_promise_new ();
      dex_scheduler_push (S, resolve_p, dex_ref (p));
      dex_await (DEX_FUTURE (p), NULL);
    }
  return NULL;
}
static void
self_push (gpointer u)
{
  turn (u);
  if (stop) out (NULL); else dex_scheduler_push (S, self_push, u);
}
static DexFuture *loop_cb (DexFuture *f, gpointer u) { turn (u); return stop ? NULL : dex_future_new_for_int (1); }
static DexFuture *produce (gpointer u) { Busy *b = u; while (!stop) { turn (b); dex_await (dex_channel_send (b->ch, dex_future_new_for_int (1)), NULL); } dex_channel_close_send (b->ch); return NULL; }
static DexFuture *consume (gpointer u) { Busy *b = u; for (;;) { turn (b); g_autoptr(GError) e = NULL; dex_await (dex_channel_receive (b->ch), &e); if (e) break; } return NULL; }
static DexFuture *child (gpointer u) { return dex_future_new_for_int (2); }
static DexFuture *starts (gpointer u) { while (!stop) { turn (u); dex_await (dex_scheduler_spawn (S, 0, child, NULL, NULL), NULL); } return NULL; }
static DexFuture *due (gpointer u) { while (!stop) { turn (u); dex_await (dex_timeout_new_deadline (g_get_monotonic_time () - 1), NULL); } return NULL; }
static DexFuture *relay (gpointer u);
static gboolean busy_source (gpointer u) { turn (u); return stop ? G_SOURCE_REMOVE : G_SOURCE_CONTINUE; }

static void spawn (DexFiberFunc fn, gpointer u) { active++; dex_future_disown (dex_scheduler_spawn (S, 0, fn, u, out)); }
static DexFuture *relay (gpointer u) { turn (u); if (!stop) spawn (relay, u); return NULL; }
static void
source (GSourceFunc fn, gpointer u, bool now)
{
  GSource *s = g_idle_source_new ();
  g_source_set_priority (s, G_PRIORITY_DEFAULT);
  active++;
  g_source_set_callback (s, fn, u, out);
  g_source_attach (s, dex_scheduler_get_main_context (dex_scheduler_get_thread_default ()));
  g_source_unref (s);
}
static void
start_busy (Busy *b)
{
  switch (b->kind)
    {
    case B_PING: spawn (ping0, b); spawn (ping1, b); break;
    case B_PUSHED: spawn (waits_pushed, b); break;
    case B_SELF: active++; dex_scheduler_push (S, self_push, b); break;
    case B_LOOP: active++; dex_future_disown (dex_future_finally_loop (dex_future_new_for_int (0), loop_cb, b, out)); break;
    case B_CHANNEL: spawn (produce, b); spawn (consume, b); break;
    case B_CHILD: spawn (starts, b); break;
    case B_RELAY: spawn (relay, b); break;
    case B_TIMER: spawn (due, b); break;
    case B_SOURCE: source (busy_source, b, false); break;
    }
}

/* pool only: the main thread keeps 3 of these functions queued all the time */
static int queued;
static bool enough (gpointer u) { return stop || queued >= 3; }
static void flood (gpointer u) { queued--; turn (u); vs_wait_until (enough, NULL, "the queue being filled up"); }
static bool outside_wanted (gpointer u) { if (hunting == false && stop && active == 0) return true; for (int i = 0; i < nv; i++) if (vt[i].push) return true; return !stop && u && queued < 3; }
static DexFuture *grandchild (gpointer u) { int k = GPOINTER_TO_INT (u); if (k > 0) dex_await (dex_scheduler_spawn (S, 0, grandchild, GINT_TO_POINTER (k - 1), NULL), NULL); return dex_future_new_for_int (k); }
static DexFuture *
victim_fiber (gpointer u)
{
  Victim *v = u;
  for (; v->at < v->steps; v->at++)
    {
      if (v->kind == V_TREE) { dex_await (dex_scheduler_spawn (S, 0, grandchild, GINT_TO_POINTER (2), NULL), NULL); continue; }
      DexPromise *p = dex_promise_new ();
      switch ((v->at + (int)(v - vt)) % (pings ? 4 : 3))
        {
        case 3: please[v - vt] = dex_ref (p); break;
        case 0: dex_scheduler_push (S, resolve_p, dex_ref (p)); break;
        case 1: dex_future_disown (dex_scheduler_spawn (S, 0, resolve_fiber, dex_ref (p), NULL)); break;
        case 2: dex_promise_resolve_int (p, 1); break;
        }
      dex_await (DEX_FUTURE (p), NULL);
    }
  victim_done (v);
  return dex_future_new_for_int (0);
}
static void victim_push (gpointer u) { Victim *v = u; if (++v->at >= v->steps) { victim_done (v); out (NULL); } else dex_scheduler_push (S, victim_push, v); }
static void victim_outside (gpointer u) { Victim *v = u; if (++v->at >= v->steps) { victim_done (v); out (NULL); } else v->push = true; }
static gboolean victim_source (gpointer u) { Victim *v = u; if (++v->at >= v->steps) { victim_done (v); return G_SOURCE_REMOVE; } return G_SOURCE_CONTINUE; }
static DexFuture *chain_cb (DexFuture *f, gpointer u) { Victim *v = u; if (++v->at == v->steps) victim_done (v); return dex_ref (f); }
static void
start_victim (Victim *v)
{
  switch (v->kind)
    {
    case V_FIBER: case V_TREE: spawn (victim_fiber, v); break;
    case V_PUSH: active++; dex_scheduler_push (S, victim_push, v); break;
    case V_OUTSIDE: active++; v->push = true; break;
    case V_SOURCE: source (victim_source, v, true); break;
    case V_CHAIN:
      {
        DexPromise *p = dex_promise_new ();
        DexFuture *f = dex_ref (p);
        for (int i = 0; i < v->steps; i++) { active++; f = dex_future_finally (f, chain_cb, v, out); }
        dex_future_disown (f);
        dex_scheduler_push (S, resolve_p, p);
        break;
      }
    case V_TIMER:
      active++;
      v->at = v->steps - 1;
      dex_future_disown (dex_future_finally (dex_timeout_new_deadline (g_get_monotonic_time () - 1), chain_cb, v, out));
      break;
    }
}

static int later;
static gboolean late_victims (gpointer u) { if (turns < later) return G_SOURCE_CONTINUE; vs_log ("victims start after %ld turns", turns); owner = vs_self_id (); limit += turns; hunting = true; for (int i = 0; i < nv; i++) start_victim (&vt[i]); return G_SOURCE_REMOVE; }
static bool begun; static bool has_begun (gpointer u) { return begun; }
static void begin (gpointer u) { begun = true; for (int i = 0; i < nb; i++) start_busy (&bz[i]); source (late_victims, NULL, true); }
static bool quiet (gpointer u) { return hunting == false && stop && active == 0; }

static void
run_fair (void)
{
  memset (bz, 0, sizeof bz); memset (vt, 0, sizeof vt); turns = 0; stop = hunting = false; active = 0;
  pool = vs_draw (3) == 2;
  vs_set_nproc (2);
  vs_begin (VS_PREEMPT_NONE);
  g_type_class_ref (dex_fiber_get_type ());
  vs_objects_mark ();
  S = pool ? dex_thread_pool_scheduler_new () : dex_ref (dex_scheduler_get_default ());
  nb = 1 + vs_draw (6); nv = 1 + vs_draw (8);
  int steps = 0; bool lifo = false;
  for (int i = 0; i < nb; i++)
    {
      bz[i].kind = vs_draw (NB);
      /* an item a worker pushes to itself is taken before older ones, as documented; only other workers come to the rescue of those */
      if (bz[i].kind == B_SELF && pool) lifo = true;
      if (bz[i].kind == B_PUSHED && lifo) bz[i].kind = B_PING;
      if (bz[i].kind == B_CHANNEL) bz[i].ch = dex_channel_new (1 + vs_draw (3));
    }
  if (lifo) for (int i = 0; i < nb; i++) if (bz[i].kind == B_PUSHED) bz[i].kind = B_PING;
  for (int i = 0; i < nv; i++)
    {
      vt[i].kind = vs_draw (NV); if (lifo && (vt[i].kind == V_FIBER || vt[i].kind == V_PUSH || vt[i].kind == V_CHAIN)) vt[i].kind = V_TREE; if (pool && !lifo && vs_draw (4) == 3) vt[i].kind = V_OUTSIDE;
      vt[i].steps = 1 + vs_draw (6); steps += vt[i].steps;
      vs_log ("victim %d: %s, %d steps", i, vname[vt[i].kind], vt[i].steps);
    }
  for (int i = 0; i < nb; i++) vs_log ("busy %d: %s", i, bname[bz[i].kind]);
  Busy *fl = NULL; queued = 0;
  if (pool && !lifo && vs_draw (2)) { fl = &bz[nb++]; fl->kind = B_FLOOD; vs_log ("busy %d: %s", nb - 1, bname[B_FLOOD]); }
  pings = false; for (int i = 0; i < nb; i++) if (bz[i].kind == B_PING) pings = true;
  later = vs_draw (4) * 10;
  limit = (lifo ? 20000 : 2000) + 40L * (nb + nv) * steps;
  if (pool)
    {
      begun = false; dex_scheduler_push (S, begin, NULL); vs_wait_until (has_begun, NULL, "the pool starting");
      while (!quiet (NULL))
        {
          for (int i = 0; i < nv; i++) if (vt[i].push) { vt[i].push = false; dex_scheduler_push (S, victim_outside, &vt[i]); }
          while (fl && !stop && queued < 3) { dex_scheduler_push (S, flood, fl); queued++; }
          vs_wait_until (outside_wanted, fl, "everybody done");
        }
    }
  else begin (NULL);
  vs_run_idle ();
  for (int i = 0; i < nv; i++) vs_check (vt[i].done, "lost", "%s (victim %d, step %d of %d) never finished", vname[vt[i].kind], i, vt[i].at, vt[i].steps);
  vs_check (active == 0, "lost", "%d parties never finished", active);
  for (int i = 0; i < nb; i++) dex_clear (&bz[i].ch);
  dex_unref (S);
  vs_run_idle ();
  vs_objects_check ("after everything finished");
  if (turns > 50) vs_nontrivial ();
  if (pool) vs_label ("pool"); else vs_label ("main loop");
  for (int i = 0; i < nb; i++) vs_label (bname[bz[i].kind]);
  vs_end ();
}
VS_HARNESS (f1) = { "fairness", "up to 6 parties keeping a scheduler busy without end and up to 8 which must get their turn; non-trivial: more than 50 turns were taken", run_fair, 40 };
