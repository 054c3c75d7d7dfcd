/* Composition: expressions over every kind of future, evaluated by a model
 * that knows only what each kind promises about its parts. */
#include "vs.h"
#include <libdex.h>
#include <string.h>
extern GType dex_fiber_get_type (void);

#define NN 40
#define INF 1000
#define NPOS 48
enum { O_TRUE = 100000, O_DEP = -2, O_TIMEOUT = -3, O_CANCEL = -4, O_ERR = -100, O_ODD = -9999 };
typedef enum { K_PROMISE, K_STATIC, K_TIMEOUT, K_CANCELLABLE, K_DELAYED, K_THEN, K_CATCH, K_FINALLY, K_THEN_LOOP, K_CATCH_LOOP, K_FINALLY_LOOP, K_ALL, K_ANY, K_FIRST, K_ALL_RACE, K_FIBER, K_CHANNEL, K_INFINITE, NK } Kind;
static const char *kname[] = { "promise", "static", "timeout", "cancellable", "delayed", "then", "catch", "finally", "then-loop", "catch-loop", "finally-loop", "all", "any", "first", "all-race", "fiber", "channel", "infinite" };
typedef struct { int t, o; } Pos;
typedef struct {
  Kind kind; int c[6], nc; int step, o; int ret; bool pool, dead;
  DexFuture *f, *obs; DexPromise *p; GCancellable *gc; gint64 deadline;
  int at, seen, seen_o, seen_step; bool unk; int npos; Pos pos[NPOS];
  bool have, needed; int got_step, got_o;
  int nrel, rel, orel;
} Node;
static Node nd[NN]; static int nn, step_now, nsteps; static DexScheduler *pl; static DexChannel *ch;
static GQuark mixq;

static void
pos_add (Node *x, int t, int o)
{
  if (t >= INF) { t = INF; o = 0; }
  for (int i = 0; i < x->npos; i++) if (x->pos[i].t == t && x->pos[i].o == o) return;
  if (x->npos == NPOS) { x->unk = true; return; }
  x->pos[x->npos++] = (Pos) { t, o };
}
/* a future nobody keeps is looked at through its observer */
static DexFuture *fut (Node *x) { return x->f ? x->f : x->obs; }
static DexFuture *make_static (int o) { return o >= 0 ? dex_future_new_for_int (o) : dex_future_new_for_error (g_error_new (mixq, O_ERR - o, "error %d", O_ERR - o)); }
static int
outcome (DexFuture *f)
{
  g_autoptr(GError) e = NULL;
  const GValue *v = dex_future_get_value (f, &e);
  if (v && G_VALUE_HOLDS_INT (v)) return g_value_get_int (v);
  if (v && G_VALUE_HOLDS_BOOLEAN (v)) return g_value_get_boolean (v) ? O_TRUE : O_ODD;
  if (v) return O_ODD;
  if (e->domain == mixq) return O_ERR - e->code;
  if (g_error_matches (e, DEX_ERROR, DEX_ERROR_DEPENDENCY_FAILED)) return O_DEP;
  if (g_error_matches (e, DEX_ERROR, DEX_ERROR_TIMED_OUT)) return O_TIMEOUT;
  if (g_error_matches (e, G_IO_ERROR, G_IO_ERROR_CANCELLED)) return O_CANCEL;
  vs_log ("odd error: %s", e->message);
  return O_ODD;
}

/* ---- the program ---- */
static void release (gpointer u) { Node *x = u; vs_check (x->rel++ == 0, "destroy-twice", "data of node %d released twice", (int)(x - nd)); }
static void orelease (gpointer u) { Node *x = u; vs_check (x->orel++ == 0, "destroy-twice", "data of the observer of node %d released twice", (int)(x - nd)); }
static DexFuture *
block_cb (DexFuture *f, gpointer u)
{
  Node *x = u;
  bool loop = x->kind >= K_THEN_LOOP && x->kind <= K_FINALLY_LOOP;
  vs_check (!x->rel, "destroyed-early", "callback of node %d runs with released data", (int)(x - nd));
  vs_check (!dex_future_is_pending (f), "pending-input", "callback of node %d called with a pending future", (int)(x - nd));
  int base = (int)(x->kind - (loop ? K_THEN_LOOP : K_THEN));
  vs_check (base == 2 || (base == 0) == dex_future_is_resolved (f), "wrong-kind", "callback of %s node %d called with a %s future", kname[x->kind], (int)(x - nd), dex_future_is_resolved (f) ? "resolved" : "rejected");
  vs_check (loop || x->at == 0, "ran-twice", "callback of node %d ran twice", (int)(x - nd));
  int k = 1 + x->at++;
  return k < x->nc ? dex_ref (nd[x->c[k]].f) : NULL;
}
static DexFuture *
fiber_body (gpointer u)
{
  Node *x = u;
  for (; x->at < x->nc; x->at++)
    {
      GError *e = NULL;
      vs_check (!x->rel, "destroyed-early", "fiber %d runs with released data", (int)(x - nd));
      if (!dex_await (dex_ref (nd[x->c[x->at]].f), &e)) { vs_check (e != NULL, "no-error", "await failed without an error"); if (x->ret != 2) return dex_future_new_for_error (e); g_clear_error (&e); }
    }
  if (x->ret == 1 && x->nc) return dex_ref (nd[x->c[x->nc - 1]].f);
  return dex_future_new_for_int (x->o);
}
static DexFuture *
record (DexFuture *f, gpointer u)
{
  Node *x = u;
  vs_check (!x->seen, "ran-twice", "observer of node %d called twice", (int)(x - nd));
  vs_check (!x->orel, "destroyed-early", "observer of node %d runs with released data", (int)(x - nd));
  x->seen = 1; x->seen_o = outcome (f);
  return NULL;
}
static DexFuture *kid (Node *x, int k) { return nd[x->c[k]].f; }
static void
build (Node *x)
{
  DexFuture *ks[6]; for (int i = 0; i < x->nc; i++) ks[i] = kid (x, i);
  switch (x->kind)
    {
    case K_PROMISE: x->p = dex_promise_new (); x->f = dex_ref (x->p); break;
    case K_STATIC: x->f = make_static (x->o); break;
    case K_TIMEOUT: x->f = dex_timeout_new_deadline (x->deadline); break;
    case K_CANCELLABLE: x->gc = g_cancellable_new (); x->f = dex_cancellable_new_from_cancellable (x->gc); break;
    case K_DELAYED: x->f = dex_delayed_new (ks[0]); break;
    case K_THEN: x->f = dex_future_then (dex_ref (ks[0]), block_cb, x, release); x->nrel = 1; break;
    case K_CATCH: x->f = dex_future_catch (dex_ref (ks[0]), block_cb, x, release); x->nrel = 1; break;
    case K_FINALLY: x->f = dex_future_finally (dex_ref (ks[0]), block_cb, x, release); x->nrel = 1; break;
    case K_THEN_LOOP: x->f = dex_future_then_loop (dex_ref (ks[0]), block_cb, x, release); x->nrel = 1; break;
    case K_CATCH_LOOP: x->f = dex_future_catch_loop (dex_ref (ks[0]), block_cb, x, release); x->nrel = 1; break;
    case K_FINALLY_LOOP: x->f = dex_future_finally_loop (dex_ref (ks[0]), block_cb, x, release); x->nrel = 1; break;
    case K_ALL: x->f = dex_future_allv (ks, x->nc); break;
    case K_ANY: x->f = dex_future_anyv (ks, x->nc); break;
    case K_FIRST: x->f = dex_future_firstv (ks, x->nc); break;
    case K_ALL_RACE: x->f = dex_future_all_racev (ks, x->nc); break;
    case K_FIBER: x->f = dex_scheduler_spawn (x->pool ? pl : NULL, 0, fiber_body, x, release); x->nrel = 1; break;
    case K_CHANNEL:
      {
        DexFuture *s;
        if (x->ret) { x->f = dex_channel_receive (ch); s = dex_channel_send (ch, dex_ref (ks[0])); }
        else { s = dex_channel_send (ch, dex_ref (ks[0])); x->f = dex_channel_receive (ch); }
        dex_unref (s);
        break;
      }
    case K_INFINITE: x->f = dex_future_new_infinite (); break;
    default: break;
    }
  x->obs = dex_future_finally (dex_ref (x->f), record, x, orelease);
  if (x->kind >= K_THEN && x->kind <= K_FINALLY_LOOP)
    {
      static const int bits[] = { DEX_BLOCK_KIND_THEN, DEX_BLOCK_KIND_CATCH, DEX_BLOCK_KIND_FINALLY };
      int want = bits[(x->kind - K_THEN) % 3] | (x->kind >= K_THEN_LOOP ? DEX_BLOCK_KIND_LOOP : 0);
      vs_check ((int) dex_block_get_kind (DEX_BLOCK (x->f)) == want, "block-kind", "kind of block %d is %d, not %d", (int)(x - nd), dex_block_get_kind (DEX_BLOCK (x->f)), want);
      vs_check (dex_block_get_scheduler (DEX_BLOCK (x->f)) == dex_scheduler_get_thread_default (), "block-scheduler", "block %d has another scheduler than its thread", (int)(x - nd));
    }
  dex_future_set_static_name (fut (x), kname[x->kind]);
  vs_check (g_strcmp0 (dex_future_get_name (fut (x)), kname[x->kind]) == 0, "name", "future %d lost its name", (int)(x - nd));
}

/* ---- the model ---- */
static void
seq_eval (Node *x, int k, int t, int o, int mode)
{
  /* mode 0 then, 1 catch, 2 finally; member k is next */
  bool res = o >= 0;
  if (t >= INF || k >= x->nc || (mode == 0 && !res) || (mode == 1 && res)) { pos_add (x, t, o); return; }
  Node *m = &nd[x->c[k]];
  if (m->unk) { x->unk = true; return; }
  for (int i = 0; i < m->npos; i++) seq_eval (x, k + 1, MAX (t, m->pos[i].t), m->pos[i].o, mode);
}
static void
set_eval (Node *x, int k, Pos *p)
{
  if (x->unk) return;
  if (k < x->nc)
    {
      Node *m = &nd[x->c[k]];
      if (m->unk) { x->unk = true; return; }
      for (int i = 0; i < m->npos; i++) { p[k] = m->pos[i]; set_eval (x, k + 1, p); }
      return;
    }
  int max = 0, min = INF, minres = INF, minrej = INF;
  for (int i = 0; i < x->nc; i++)
    {
      max = MAX (max, p[i].t); min = MIN (min, p[i].t);
      if (p[i].t >= INF) continue;
      if (p[i].o >= 0) minres = MIN (minres, p[i].t); else minrej = MIN (minrej, p[i].t);
    }
  switch (x->kind)
    {
    case K_ALL: for (int i = 0; i < x->nc; i++) if (p[i].t == max) pos_add (x, max, p[i].o < 0 ? O_DEP : O_TRUE); break;   /* the last one decides */
    case K_ANY: if (minres < INF) { for (int i = 0; i < x->nc; i++) if (p[i].t == minres && p[i].o >= 0) pos_add (x, minres, p[i].o); } else pos_add (x, max, O_DEP); break;
    case K_FIRST: if (min < INF) { for (int i = 0; i < x->nc; i++) if (p[i].t == min) pos_add (x, min, p[i].o); } else pos_add (x, INF, 0); break;
    case K_ALL_RACE: if (minrej < INF) { for (int i = 0; i < x->nc; i++) if (p[i].t == minrej && p[i].o < 0) pos_add (x, minrej, p[i].o); } else pos_add (x, max, O_TRUE); break;
    default: break;
    }
}
static void
fib_eval (Node *x, int k, int t, int o)
{
  if (t >= INF) { pos_add (x, INF, 0); return; }
  if (k == x->nc) { if (x->ret == 1 && x->nc) pos_add (x, t, o); else pos_add (x, t, x->o); return; }
  Node *m = &nd[x->c[k]];
  if (m->unk) { x->unk = true; return; }
  for (int i = 0; i < m->npos; i++)
    {
      int t2 = MAX (t, m->pos[i].t), o2 = m->pos[i].o;
      if (t2 < INF && o2 < 0 && x->ret != 2) pos_add (x, t2, o2);
      else fib_eval (x, k + 1, t2, o2);
    }
}
static void
eval (Node *x)
{
  double prod = 1;
  for (int i = 0; i < x->nc; i++) { if (nd[x->c[i]].unk) x->unk = true; prod *= nd[x->c[i]].npos; }
  if (x->unk || prod > 3000) { x->unk = true; return; }
  Pos p[6]; Node *m = x->nc ? &nd[x->c[0]] : NULL;
  switch (x->kind)
    {
    case K_PROMISE: pos_add (x, x->step, x->o); break;
    case K_STATIC: pos_add (x, 0, x->o); break;
    case K_TIMEOUT: pos_add (x, x->step, O_TIMEOUT); break;
    case K_CANCELLABLE: pos_add (x, x->step, O_CANCEL); break;
    case K_INFINITE: pos_add (x, INF, 0); break;
    case K_DELAYED: for (int i = 0; i < m->npos; i++) pos_add (x, MAX (x->step, m->pos[i].t), m->pos[i].o); break;
    case K_CHANNEL: for (int i = 0; i < m->npos; i++) pos_add (x, m->pos[i].t, m->pos[i].o); break;
    case K_THEN: case K_CATCH: case K_FINALLY: case K_THEN_LOOP: case K_CATCH_LOOP: case K_FINALLY_LOOP:
      for (int i = 0; i < m->npos; i++) seq_eval (x, 1, m->pos[i].t, m->pos[i].o, (x->kind - K_THEN) % 3);
      break;
    case K_FIBER: fib_eval (x, 0, 0, 0); break;
    default: set_eval (x, 0, p);
    }
}
static char *
pos_text (Node *x)
{
  GString *s = g_string_new (NULL);
  for (int i = 0; i < x->npos; i++) if (x->pos[i].t >= INF) g_string_append (s, " never"); else g_string_append_printf (s, " %d@%d", x->pos[i].o, x->pos[i].t);
  return g_string_free (s, FALSE);
}
static void
check_all (void)
{
  for (int i = 0; i < nn; i++)
    {
      Node *x = &nd[i]; bool gone = !fut (x), done = gone ? x->seen : !dex_future_is_pending (fut (x)), ok = x->unk;
      vs_check (done == !!x->seen, "observer", "node %d (%s) is %s but its observer was %scalled", i, kname[x->kind], done ? "complete" : "pending", x->seen ? "" : "not ");
      if (done && !x->have) { x->have = true; x->got_step = step_now; x->got_o = gone ? x->seen_o : outcome (fut (x)); }
      if (done) { int o = gone ? x->seen_o : outcome (fut (x)); vs_check (o == x->got_o && x->seen_o == x->got_o, "changed", "outcome of node %d is %d, was %d, its observer saw %d", i, o, x->got_o, x->seen_o); }
      for (int k = 0; k < x->npos && !ok; k++)
        ok = done ? x->pos[k].t == x->got_step && x->pos[k].o == x->got_o : x->pos[k].t > step_now;
      if (!ok)
        {
          g_autofree char *s = pos_text (x);
          if (done) vs_fail ("outcome", "node %d (%s) completed with %d at step %d; allowed:%s", i, kname[x->kind], x->got_o, x->got_step, s);
          vs_fail ("pending", "node %d (%s) is pending after step %d; allowed:%s", i, kname[x->kind], step_now, s);
        }
    }
}

typedef struct { int n; int ev[NN]; } Batch;
static void
fire (Node *x)
{
  vs_log ("step %d: node %d", step_now, (int)(x - nd));
  switch (x->kind)
    {
    case K_PROMISE: if (x->o >= 0) dex_promise_resolve_int (x->p, x->o); else dex_promise_reject (x->p, g_error_new (mixq, O_ERR - x->o, "error %d", O_ERR - x->o)); break;
    case K_CANCELLABLE: g_cancellable_cancel (x->gc); break;
    case K_DELAYED: dex_delayed_release (DEX_DELAYED (x->f)); break;
    default: break;
    }
}
static gpointer helper (gpointer u) { Batch *b = u; for (int i = 0; i < b->n; i++) fire (&nd[b->ev[i]]); return NULL; }

static void
disown_one (int i, int step, int *n)
{
  Node *x = &nd[i];
  if (x->needed || !x->obs || vs_draw (step ? 8 : 3)) return;
  vs_log ("node %d disowned at step %d", i, step);
  dex_clear (&x->f);
  dex_future_disown (g_steal_pointer (&x->obs));
  (*n)++;
}
static void
mix_once (bool threads)
{
  memset (nd, 0, sizeof nd); mixq = g_quark_from_static_string ("mix-error");
  bool usepool = threads && vs_draw (3) != 0;
  g_type_class_ref (dex_fiber_get_type ());
  vs_objects_mark ();
  pl = usepool ? dex_thread_pool_scheduler_new () : NULL;
  ch = dex_channel_new (vs_draw (3));
  nn = 2 + vs_draw (threads ? 14 : NN - 1); nsteps = 1 + vs_draw (10); step_now = 0;
  /* which steps let the clock pass */
  bool clock[16] = { 0 }; gint64 when[16]; gint64 now = g_get_monotonic_time (); when[0] = now;
  for (int s = 1; s <= nsteps; s++) { clock[s] = vs_draw (4) == 3; when[s] = when[s - 1] + (clock[s] ? 10000 : 0); }
  int used[NK] = { 0 }; bool infinite = vs_draw (4) == 3;
  for (int i = 0; i < nn; i++)
    {
      Node *x = &nd[i];
      x->kind = i == 0 ? K_PROMISE : vs_draw (NK);
      /* a fiber waiting for what never completes never ends */
      if (x->kind == (infinite ? K_FIBER : K_INFINITE)) x->kind = infinite ? K_INFINITE : K_FIBER;
      x->o = vs_draw (3) == 2 ? O_ERR - 1 - i : i;
      x->step = vs_draw (6) == 5 ? INF : 1 + vs_draw (nsteps);
      if (x->kind == K_TIMEOUT)
        {
          /* due in the middle of a passage of time, or before it all */
          int s = vs_draw (nsteps + 2);
          x->step = INF; x->deadline = now + 10 * G_USEC_PER_SEC;
          if (s == 0) { x->step = 0; x->deadline = now; }
          else for (; s <= nsteps; s++) if (clock[s]) { x->step = s; x->deadline = when[s] - 5000; break; }
        }
      if (x->kind == K_DELAYED || x->kind == K_CHANNEL) x->nc = 1;
      if (x->kind >= K_THEN && x->kind <= K_FINALLY) x->nc = 1 + vs_draw (2);
      if (x->kind >= K_THEN_LOOP && x->kind <= K_FINALLY_LOOP) x->nc = 1 + vs_draw (5);
      if (x->kind >= K_ALL && x->kind <= K_ALL_RACE) x->nc = 1 + vs_draw (4);
      if (x->kind == K_FIBER) { x->nc = vs_draw (4); x->o = i; x->ret = vs_draw (3); x->pool = usepool && vs_draw (2); }
      if (x->kind == K_CHANNEL) x->ret = vs_draw (2);
      for (int k = 0; k < x->nc; k++) x->c[k] = vs_draw (2) ? i - 1 - vs_draw (MIN (i, 4)) : vs_draw (i);
      used[x->kind]++;
      eval (x);
      { g_autofree char *s = pos_text (x); GString *c = g_string_new (NULL); for (int k = 0; k < x->nc; k++) g_string_append_printf (c, " %d", x->c[k]); vs_log ("node %d: %s%s of%s, step %d ->%s", i, kname[x->kind], x->pool ? " (pool)" : "", c->str, x->step, x->unk ? " ?" : s); g_string_free (c, TRUE); }
    }
  for (int i = 0; i < nn; i++) build (&nd[i]);
  if (vs_draw (2))
    {
      for (int i = 0; i < nn; i++) { if (nd[i].kind == K_DELAYED) nd[i].needed = true; for (int k = nd[i].kind != K_FIBER; k < nd[i].nc; k++) nd[nd[i].c[k]].needed = true; }
      for (int i = 0; i < nn; i++) if (!nd[i].needed && vs_draw (2)) { vs_log ("node %d not kept", i); dex_clear (&nd[i].f); }
    }
  /* only its being disowned keeps it going */
  bool disown = !infinite && vs_draw (3) == 2; int ndis = 0;
  for (int i = 0; i < nn && disown; i++) { if (nd[i].kind == K_DELAYED) nd[i].needed = true; for (int k = nd[i].kind != K_FIBER; k < nd[i].nc; k++) nd[nd[i].c[k]].needed = true; }
  for (int i = 0; i < nn && disown; i++) disown_one (i, 0, &ndis);
  vs_run_idle ();
  check_all ();
  for (step_now = 1; step_now <= nsteps; step_now++)
    {
      Batch b[2] = { { 0 }, { 0 } };
      for (int i = 0; i < nn; i++)
        if (nd[i].step == step_now && (nd[i].kind == K_PROMISE || nd[i].kind == K_CANCELLABLE || nd[i].kind == K_DELAYED))
          {
            Batch *t = &b[threads && nd[i].kind != K_CANCELLABLE && vs_draw (2)];
            int at = vs_draw (t->n + 1); memmove (&t->ev[at + 1], &t->ev[at], (t->n - at) * sizeof (int)); t->ev[at] = i; t->n++;
          }
      GThread *t = b[1].n ? g_thread_new ("events", helper, &b[1]) : NULL;
      helper (&b[0]);
      if (t) { vs_run_idle (); g_thread_join (t); }
      vs_run_idle ();
      if (clock[step_now]) { vs_log ("step %d: time passes", step_now); vs_advance (10000); vs_run_idle (); }
      check_all ();
      for (int i = 0; i < nn && disown; i++) disown_one (i, step_now, &ndis);
    }
  int depth = 0, unknown = 0; for (int i = 0; i < nn; i++) { if (nd[i].nc) depth++; if (nd[i].unk) unknown++; }
  /* end: complete what is left, in the order it was made, then drop everything */
  step_now = INF;
  for (int i = 0; i < nn; i++) if (nd[i].step == INF) fire (&nd[i]);
  vs_run_idle ();
  vs_advance (11 * G_USEC_PER_SEC);
  vs_run_idle ();
  if (!infinite) for (int i = 0; i < nn; i++) vs_check (!(fut (&nd[i]) && dex_future_is_pending (fut (&nd[i]))) && nd[i].seen, "pending", "node %d (%s) is %s although everything has completed", i, kname[nd[i].kind], fut (&nd[i]) && dex_future_is_pending (fut (&nd[i])) ? "pending" : "not observed");
  for (int i = nn - 1; i >= 0; i--) { dex_clear (&nd[i].obs); }
  vs_run_idle ();
  for (int i = nn - 1; i >= 0; i--) { dex_clear (&nd[i].f); dex_clear (&nd[i].p); g_clear_object (&nd[i].gc); }
  vs_run_idle ();
  dex_clear (&ch);
  dex_clear (&pl);
  vs_run_idle ();
  vs_objects_check ("after everything was dropped");
  for (int i = 0; i < nn; i++)
    {
      vs_check (nd[i].rel == nd[i].nrel, "not-destroyed", "data of node %d (%s) released %d times", i, kname[nd[i].kind], nd[i].rel);
      vs_check (nd[i].orel == 1, "not-destroyed", "data of the observer of node %d (%s) released %d times", i, kname[nd[i].kind], nd[i].orel);
    }
  for (int k = 0; k < NK; k++) if (used[k]) vs_label (kname[k]);
  if (ndis) vs_label ("disowned");
  if (unknown) vs_label ("(some nodes too ambiguous to predict)");
  if (depth > 3) vs_nontrivial ();
}
static void
run_mix (bool threads)
{
  vs_set_nproc (4);
  vs_begin (threads ? VS_PREEMPT_AUTO : VS_PREEMPT_NONE);
  mix_once (threads);
  vs_end ();
}
/* ---- dropping: who is still awaited, and who must be told that it is not ---- */
#define NQ 28
typedef struct { Kind kind; int c[5], nc; bool held, alive, released, cancelled, want, gated; bool edge[NQ]; int refs; DexFuture *f; DexPromise *p; int at; } QNode;
static QNode qn[NQ]; static int nq;
static void q_unref (int i);
static void
q_discard (int parent, int i)
{
  QNode *x = &qn[i];
  x->edge[parent] = false;
  for (int k = 0; k < nq; k++) if (x->edge[k]) return;
  if (x->kind == K_PROMISE) x->want = true;
  if (x->kind == K_DELAYED && x->nc) { int c = x->c[0]; x->nc = 0; q_discard (i, c); q_unref (c); }
}
static void
q_unref (int i)
{
  QNode *x = &qn[i];
  if (--x->refs) return;
  x->alive = false;
  for (int k = 0; k < x->nc; k++)
    {
      if (qn[x->c[k]].edge[i]) q_discard (i, x->c[k]);
      q_unref (x->c[k]);
    }
}
static void
q_check (void)
{
  for (int i = 0; i < nq; i++)
    if (qn[i].kind == K_PROMISE)
      {
        bool got = g_cancellable_is_cancelled (dex_promise_get_cancellable (qn[i].p));
        vs_check (!got || qn[i].want, "cancelled-needed", "promise %d was cancelled although it is still awaited", i);
        vs_check (got || !qn[i].want, "not-cancelled", "promise %d was not cancelled although nobody awaits it any more", i);
      }
}
static DexFuture *q_cb (DexFuture *f, gpointer u) { QNode *x = u; vs_check (x->at++ == 0, "ran-twice", "callback of node %d ran twice", (int)(x - qn)); return NULL; }
static DexFuture *q_fiber (gpointer u) { QNode *x = u; for (int k = 0; k < x->nc; k++) { dex_await (dex_ref (qn[x->c[k]].f), NULL); break; } return dex_future_new_for_int (1); }
static void
cancel_once (void)
{
  memset (qn, 0, sizeof qn);
  g_type_class_ref (dex_fiber_get_type ());
  vs_objects_mark ();
  DexChannel *c = dex_channel_new (0);
  nq = 2 + vs_draw (NQ - 2);
  static const Kind kinds[] = { K_PROMISE, K_DELAYED, K_DELAYED, K_DELAYED, K_THEN, K_CATCH, K_FINALLY, K_THEN_LOOP, K_FINALLY_LOOP, K_ALL, K_ANY, K_FIRST, K_ALL_RACE, K_CHANNEL, K_CHANNEL, K_PROMISE, K_PROMISE, K_FIBER };
  int used[NK] = { 0 };
  for (int i = 0; i < nq; i++)
    {
      QNode *x = &qn[i];
      x->kind = i == 0 ? K_PROMISE : kinds[vs_draw (G_N_ELEMENTS (kinds))];
      x->held = x->alive = true; x->refs = 1; used[x->kind]++;
      int n = x->kind == K_PROMISE ? 0 : x->kind >= K_ALL && x->kind <= K_ALL_RACE ? 1 + vs_draw (4) : 1;
      DexFuture *ks[5]; GString *t = g_string_new (NULL);
      for (int k = 0; k < n; k++)
        {
          int d = vs_draw (2) ? i - 1 - vs_draw (MIN (i, 3)) : vs_draw (i);
          if (qn[d].gated) x->gated = true;
          x->c[x->nc++] = d; ks[k] = qn[d].f; qn[d].refs++; qn[d].edge[i] = true;
          g_string_append_printf (t, " %d", d);
        }
      /* a fiber waiting for what nobody can release any more never ends */
      if (x->kind == K_FIBER && x->gated) { used[K_FIBER]--; x->kind = K_DELAYED; used[K_DELAYED]++; }
      if (x->kind == K_DELAYED) x->gated = true;
      vs_log ("node %d: %s of%s", i, kname[x->kind], t->str); g_string_free (t, TRUE);
      switch (x->kind)
        {
        case K_PROMISE: x->p = dex_promise_new_cancellable (); x->f = dex_ref (x->p); break;
        case K_DELAYED: x->f = dex_delayed_new (ks[0]); break;
        case K_THEN: x->f = dex_future_then (dex_ref (ks[0]), q_cb, x, NULL); break;
        case K_CATCH: x->f = dex_future_catch (dex_ref (ks[0]), q_cb, x, NULL); break;
        case K_FINALLY: x->f = dex_future_finally (dex_ref (ks[0]), q_cb, x, NULL); break;
        case K_THEN_LOOP: x->f = dex_future_then_loop (dex_ref (ks[0]), q_cb, x, NULL); break;
        case K_FINALLY_LOOP: x->f = dex_future_finally_loop (dex_ref (ks[0]), q_cb, x, NULL); break;
        case K_ALL: x->f = dex_future_allv (ks, n); break;
        case K_ANY: x->f = dex_future_anyv (ks, n); break;
        case K_FIRST: x->f = dex_future_firstv (ks, n); break;
        case K_ALL_RACE: x->f = dex_future_all_racev (ks, n); break;
        case K_CHANNEL:
          {
            DexFuture *s;
            if (vs_draw (2)) { x->f = dex_channel_receive (c); s = dex_channel_send (c, dex_ref (ks[0])); }
            else { s = dex_channel_send (c, dex_ref (ks[0])); x->f = dex_channel_receive (c); }
            dex_unref (s);
            break;
          }
        default: x->f = dex_scheduler_spawn (NULL, 0, q_fiber, x, NULL); x->refs++; /* until it ends */ break;
        }
    }
  vs_run_idle ();
  q_check ();
  int drops = 0;
  for (int s = 1 + vs_draw (2 * nq); s > 0; s--)
    {
      int i = vs_draw (nq); QNode *x = &qn[i];
      if (!x->held) continue;
      if (x->kind == K_DELAYED && vs_draw (3) == 2) { if (x->released) continue; vs_log ("release node %d", i); x->released = true; dex_delayed_release (DEX_DELAYED (x->f)); }
      else { vs_log ("drop node %d", i); x->held = false; DexFuture *f = x->f; if (x->kind != K_PROMISE) x->f = NULL; drops++; q_unref (i); if (x->kind != K_PROMISE) dex_unref (f); }
      if (vs_draw (2)) { vs_run_idle (); q_check (); }
    }
  vs_run_idle ();
  q_check ();
  int ncan = 0, nleft = 0; for (int i = 0; i < nq; i++) if (qn[i].kind == K_PROMISE) { if (qn[i].want) ncan++; else nleft++; }
  /* the rest completes as ever */
  for (int i = 0; i < nq; i++) if (qn[i].kind == K_DELAYED && qn[i].held) dex_delayed_release (DEX_DELAYED (qn[i].f));
  for (int i = 0; i < nq; i++) if (qn[i].kind == K_PROMISE) dex_promise_resolve_int (qn[i].p, i);
  vs_run_idle ();
  for (int i = nq - 1; i >= 0; i--) { dex_clear (&qn[i].f); dex_clear (&qn[i].p); }
  vs_run_idle ();
  dex_clear (&c);
  vs_run_idle ();
  vs_objects_check ("after everything was dropped");
  for (int k = 0; k < NK; k++) if (used[k]) vs_label (kname[k]);
  if (ncan) vs_label ("cancelled"); if (ncan && nleft) vs_label ("some cancelled, some not");
  if (drops > 2 && ncan) vs_nontrivial ();
}
static void run_mc (void) { if (vs_draw (6) == 5) VS_RUN_ROUNDS (cancel_once ()); else { vs_begin (VS_PREEMPT_NONE); cancel_once (); vs_end (); } }
VS_HARNESS (m4) = { "mixed-cancel", "up to 28 futures built on each other (delayed, channel items, fibers, sets, callbacks), dropped in any order; exactly the promises nobody awaits any more are cancelled; non-trivial: more than two dropped and one cancelled", run_mc, 60 };

static void run_m (void) { run_mix (false); }
static void run_mt (void) { run_mix (true); }
static void run_mh (void) { VS_RUN_ROUNDS (mix_once (false)); }
VS_HARNESS (m1) = { "mixed", "up to 40 futures of 18 kinds built on each other, completed step by step; non-trivial: more than 3 of them built on others", run_m, 60 };
VS_HARNESS (m2) = { "mixed-threads", "the same on up to 15 futures with two threads completing them and fibers on a pool; non-trivial: more than 3 of them built on others", run_mt, 60 };
VS_HARNESS (m3) = { "mixed-heap", "the same program several times over, heap bytes must not grow; non-trivial: more than 3 futures built on others", run_mh, 40 };
