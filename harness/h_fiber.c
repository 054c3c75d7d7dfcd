/* Fibers: generated fiber programs with predetermined outcomes (the oracle is
 * the straight-line evaluation), cancellation histories, and stacks. */
#include "vs.h"
#include <libdex.h>
#include <string.h>
#include <stdlib.h>
#include <alloca.h>
#include <stdio.h>
extern GType dex_fiber_get_type (void);

typedef struct { bool ok; int v; GQuark dom; int code; } Out;
static GQuark EQ (void) { return g_quark_from_static_string ("vs-test"); }
static const char *ostr (Out o) { static char b[4][80]; static int k; char *s = b[k++ & 3]; if (o.ok) snprintf (s, 80, "ok:%d", o.v); else snprintf (s, 80, "error:%s:%d", g_quark_to_string (o.dom), o.code); return s; }
static bool oeq (Out a, Out b) { return a.ok == b.ok && (a.ok ? a.v == b.v : a.dom == b.dom && a.code == b.code); }
static Out ok_of (int v) { return (Out) { true, v, 0, 0 }; }
static Out er_of (GQuark d, int c) { return (Out) { false, 0, d, c }; }
static DexFuture *future_of (Out o) { return o.ok ? dex_future_new_for_int (o.v) : dex_future_new_reject (o.dom, o.code, "planned"); }
static void complete (DexPromise *p, Out o) { if (o.ok) dex_promise_resolve_int (p, o.v); else dex_promise_reject (p, g_error_new (o.dom, o.code, "planned")); }
static Out of_error (GError *e) { Out o = er_of (e->domain, e->code); g_error_free (e); return o; }
static Out outcome_now (DexFuture *f)
{
  GError *e = NULL; const GValue *v = dex_future_get_value (f, &e);
  if (!v) return of_error (e);
  return ok_of (G_VALUE_HOLDS_INT (v) ? g_value_get_int (v) : G_VALUE_HOLDS_BOOLEAN (v) ? g_value_get_boolean (v) : -99);
}

/* ================= programs ================= */
#define MAXF 16
#define MAXP 20
#define MAXS 8
enum { AW_PROMISE, AW_FIBER, AW_ALL, AW_ANY, AW_THEN, AW_DONE, AW_TIMEOUT, SPAWN, COMPLETE, AW_SPAWNED_INLINE, YIELD, AW_TWICE, NKIND };
typedef struct { int kind, a, b, depth; } Step;
enum { R_INT, R_ERR, R_NULL, R_PROMISE, R_FIBER, R_SUM };
typedef struct
{
  int sched, nst, parent, stack; bool late, viadef; Step st[MAXS]; int ret, rarg;
  Out exp; bool exp_known;
  DexFuture *f; bool spawned, started, ended; int pos, tid, destroyed; int sum;
} Fib;
typedef struct { DexPromise *p; Out out; int owner; int completer; bool begun, done; } Pr;
static struct { Fib f[MAXF]; int nf; Pr p[MAXP]; int np, next; int cur[64]; DexScheduler *sc[3]; int npool, lo[3], hi[3]; bool timeouts, threads; int awaits, suspended, xspawn, xcomplete; } W;

static bool tid_in (int s, int tid) { return s == 0 ? tid == 0 : tid >= W.lo[s] && tid < W.hi[s]; }
static DexFuture *fib_body (gpointer u);
static void fib_destroy (gpointer u)
{
  Fib *x = u; int i = x - W.f;
  vs_check (++x->destroyed == 1, "destroy-twice", "data of fiber %d released twice", i);
  vs_check (x->ended, "destroyed-early", "data of fiber %d released before it ended", i);
}
static void
spawn (int i)
{
  Fib *x = &W.f[i];
  static const int sizes[] = { 0, 0, 65536, 100000, 262144, 131072, 131073, 1 };
  vs_log ("spawn fiber %d on %d", i, x->sched);
  vs_check (!x->spawned, "harness", "spawned twice");
  x->spawned = true;
  int me = vs_self_id (); if (!tid_in (x->sched, me)) W.xspawn++;
  DexFuture *f = dex_scheduler_spawn (!x->viadef ? W.sc[x->sched] : x->sched == 0 ? NULL : dex_scheduler_get_thread_default (), sizes[x->stack], fib_body, x, fib_destroy);
  x->f = f;
}
static void do_complete (int p)
{
  Pr *q = &W.p[p];
  vs_log ("complete promise %d with %s", p, ostr (q->out));
  q->begun = true; complete (q->p, q->out); q->done = true;
}
static DexFuture *then_cb (DexFuture *f, gpointer u) { return NULL; }
static DexFuture *swap_cb (DexFuture *f, gpointer u) { Out o = outcome_now (f); return o.ok ? dex_future_new_for_int (o.v + 100) : dex_future_new_for_int (-o.code); }

static void
check_await (int i, const char *what, int arg, Out got, Out want)
{
  vs_log ("fiber %d: %s %d -> %s", i, what, arg, ostr (got));
  vs_check (oeq (got, want), "wrong-value", "fiber %d awaiting %s %d saw %s instead of %s", i, what, arg, ostr (got), ostr (want));
}
static Out await_out (int i, DexFuture *f, int how)
{
  Fib *x = &W.f[i]; int me = vs_self_id (); GError *e = NULL; Out o;
  vs_check (W.cur[me] == i, "interleaved", "fiber %d was interrupted by fiber %d outside of an await", i, W.cur[me]);
  W.awaits++;
  if (dex_future_is_pending (f)) W.suspended++;
  if (how == 1) { bool r = dex_await (f, &e); o = r ? ok_of (1) : of_error (e); vs_check (r == (e == NULL), "await", "dex_await result and error disagree"); }
  else { int v = dex_await_int (f, &e); o = e ? of_error (e) : ok_of (v); }
  vs_check (vs_self_id () == me, "moved", "fiber %d moved from T%d to T%d", i, me, vs_self_id ());
  vs_check (x->started && !x->ended && !x->destroyed, "zombie", "fiber %d runs in a wrong state", i);
  W.cur[me] = i;
  return o;
}
static Out exp_fiber (int j);
static Out exp_thing (Step *s) { return s->kind == AW_FIBER ? exp_fiber (s->a) : W.p[s->a].out; }
static DexFuture *ref_p (int p) { return DEX_FUTURE (dex_ref (W.p[p].p)); }
static DexFuture *ref_f (int j) { vs_check (W.f[j].f != NULL, "harness", "no handle"); return dex_ref (W.f[j].f); }

static void do_step (int i, Step *s);
static void __attribute__((noinline))
framed (int i, Step *s, int depth)
{
  volatile guint32 loc[64]; double d = i * 3.25 + depth; guint64 a = (guint64)i * 0x9e3779b97f4a7c15ull + depth, b = ~a;
  for (int k = 0; k < 64; k++) loc[k] = i * 7919 + depth * 131 + k;
  if (depth > 0) framed (i, s, depth - 1); else do_step (i, s);
  for (int k = 0; k < 64; k++) vs_check (loc[k] == (guint32)(i * 7919 + depth * 131 + k), "locals", "fiber %d lost a local at depth %d", i, depth);
  vs_check (d == i * 3.25 + depth && a == ~b, "locals", "fiber %d lost a register value at depth %d", i, depth);
}
static void
do_step (int i, Step *s)
{
  Fib *x = &W.f[i]; Out o;
  switch (s->kind)
    {
    case AW_PROMISE:
      { Out w = W.p[s->a].out; int how = s->b & 1; o = await_out (i, ref_p (s->a), how); if (how && w.ok) w.v = 1;
        check_await (i, "promise", s->a, o, w);
        vs_check (W.p[s->a].begun, "early", "fiber %d resumed before promise %d completed", i, s->a); break; }
    case AW_TWICE:
      for (int k = 0; k < 2; k++) { o = await_out (i, ref_p (s->a), 0); check_await (i, "promise", s->a, o, W.p[s->a].out); }
      break;
    case AW_FIBER: o = await_out (i, ref_f (s->a), 0); check_await (i, "fiber", s->a, o, exp_fiber (s->a)); vs_check (W.f[s->a].pos >= W.f[s->a].nst, "early", "fiber %d resumed before fiber %d ended", i, s->a); break;
    case AW_ALL:
      { Out p = W.p[s->a].out, q = W.p[s->b].out;
        o = await_out (i, dex_future_all (ref_p (s->a), ref_p (s->b), NULL), 1);
        check_await (i, "all with", s->a, o, p.ok && q.ok ? ok_of (1) : !p.ok && !q.ok ? er_of (DEX_ERROR, DEX_ERROR_DEPENDENCY_FAILED) : o); break; }
    case AW_ANY:
      { Out p = W.p[s->a].out, q = W.p[s->b].out;
        o = await_out (i, dex_future_any (ref_p (s->a), ref_p (s->b), NULL), 0);
        if (!p.ok && !q.ok) check_await (i, "any with", s->a, o, er_of (DEX_ERROR, DEX_ERROR_DEPENDENCY_FAILED));
        else { vs_log ("fiber %d: any %d,%d -> %s", i, s->a, s->b, ostr (o)); vs_check (o.ok && ((p.ok && p.v == o.v) || (q.ok && q.v == o.v)), "wrong-value", "fiber %d: any gave %s", i, ostr (o)); }
        break; }
    case AW_THEN:
      { Out p = W.p[s->a].out;
        if (s->b & 1) { o = await_out (i, dex_future_finally (ref_p (s->a), swap_cb, NULL, NULL), 0); check_await (i, "finally of", s->a, o, p.ok ? ok_of (p.v + 100) : ok_of (-p.code)); }
        else { o = await_out (i, dex_future_then (ref_p (s->a), then_cb, NULL, NULL), 0); check_await (i, "then of", s->a, o, p); }
        break; }
    case AW_DONE:
      { Out w = s->b & 1 ? ok_of (s->a) : er_of (EQ (), s->a); o = await_out (i, future_of (w), 0); check_await (i, "completed", s->a, o, w); break; }
    case AW_TIMEOUT: o = await_out (i, dex_timeout_new_msec (s->a), 0); check_await (i, "timeout", s->a, o, er_of (DEX_ERROR, DEX_ERROR_TIMED_OUT)); break;
    case SPAWN: spawn (s->a); break;
    case AW_SPAWNED_INLINE: spawn (s->a); o = await_out (i, ref_f (s->a), 0); check_await (i, "fiber", s->a, o, exp_fiber (s->a)); break;
    case COMPLETE: do_complete (s->a); break;
    case YIELD: vs_point (); break;
    }
  vs_check (W.cur[vs_self_id ()] == i, "interleaved", "fiber %d was interrupted by fiber %d outside of an await", i, W.cur[vs_self_id ()]);
  (void)x;
}
static int step_value (Step *s)
{
  Out w;
  switch (s->kind)
    { case AW_PROMISE: case AW_TWICE: w = W.p[s->a].out; break; case AW_FIBER: case AW_SPAWNED_INLINE: w = exp_fiber (s->a); break; default: return s->kind; }
  return w.ok ? w.v : 1000 * w.code;
}
static Out
exp_fiber (int j)
{
  Fib *x = &W.f[j];
  if (x->exp_known) return x->exp;
  Out o; int sum = 0;
  switch (x->ret)
    {
    case R_INT: o = ok_of (x->rarg); break;
    case R_ERR: o = er_of (EQ (), x->rarg); break;
    case R_NULL: o = er_of (DEX_ERROR, DEX_ERROR_FIBER_EXITED); break;
    case R_PROMISE: o = W.p[x->rarg].out; break;
    case R_FIBER: o = exp_fiber (x->rarg); break;
    default: for (int k = 0; k < x->nst; k++) sum += step_value (&x->st[k]); o = ok_of (sum); break;
    }
  x->exp = o; x->exp_known = true;
  return o;
}
static DexFuture *
fib_body (gpointer u)
{
  Fib *x = u; int i = x - W.f, me = vs_self_id ();
  vs_check (x->spawned && !x->started, "ran-twice", "fiber %d started twice or unasked", i);
  vs_check (tid_in (x->sched, me), "wrong-thread", "fiber %d of scheduler %d started on T%d", i, x->sched, me);
  x->started = true; x->tid = me; W.cur[me] = i;
  vs_log ("fiber %d starts", i);
  int sum = 0;
  for (x->pos = 0; x->pos < x->nst; )
    {
      Step *s = &x->st[x->pos];
      if (s->depth) framed (i, s, s->depth); else do_step (i, s);
      sum += step_value (s);
      x->pos++;
    }
  x->sum = sum;
  x->ended = true;
  vs_log ("fiber %d ends", i);
  switch (x->ret)
    {
    case R_INT: return dex_future_new_for_int (x->rarg);
    case R_ERR: return dex_future_new_reject (EQ (), x->rarg, "planned");
    case R_NULL: return NULL;
    case R_PROMISE: return ref_p (x->rarg);
    case R_FIBER: return ref_f (x->rarg);
    default: return dex_future_new_for_int (sum);
    }
}

/* things fiber i may wait for: promises of external origin, what its known fibers own, those fibers */
typedef struct { int fib[MAXF], n; } Known;
static int pick_promise (int i, Known *k)
{
  int c[MAXP], n = 0;
  for (int p = 0; p < W.np; p++)
    { bool okp = W.p[p].owner < 0; for (int j = 0; j < k->n; j++) if (k->fib[j] == W.p[p].owner) okp = true; if (okp) c[n++] = p; }
  return c[vs_draw (n)];
}
static Out gen_out (void) { static int c; c++; return vs_draw (3) == 2 ? er_of (EQ (), 1 + vs_draw (50)) : ok_of (1 + vs_draw (1000)); }
static void
gen_fiber (int i, int depth, bool late)
{
  Fib *x = &W.f[i]; Known k = { .n = 0 };
  x->late = late;
  x->stack = vs_draw (8);
  /* promises this fiber completes itself */
  int own = late ? 0 : vs_draw (3), mine[2];
  if (!late) for (int j = i + 1; j < W.nf; j++) if (W.f[j].parent < 0 && !W.f[j].late && W.f[j].nst >= 0 && W.f[j].spawned) k.fib[k.n++] = j;
  for (int o = 0; o < own; o++) { if (W.np >= MAXP) { own = o; break; } mine[o] = W.np; W.p[W.np++] = (Pr) { .out = gen_out (), .owner = i }; }
  int n = 1 + vs_draw (MAXS - 2);
  for (int s = 0; s < n; s++)
    {
      Step *t = &x->st[x->nst]; memset (t, 0, sizeof *t);
      if (own > 0 && (n - s <= own || vs_draw (3) == 2)) { t->kind = COMPLETE; t->a = mine[--own]; x->nst++; continue; }
      t->kind = vs_draw (NKIND);
      if (vs_draw (4) == 3) t->depth = 1 + vs_draw (4);
      switch (t->kind)
        {
        case AW_PROMISE: case AW_TWICE: t->a = pick_promise (i, &k); t->b = vs_draw (2); break;
        case AW_THEN: t->a = pick_promise (i, &k); t->b = vs_draw (2); break;
        case AW_ALL: case AW_ANY: t->a = pick_promise (i, &k); t->b = pick_promise (i, &k); break;
        case AW_FIBER: if (!k.n) { t->kind = YIELD; break; } t->a = k.fib[vs_draw (k.n)]; break;
        case AW_DONE: t->a = 1 + vs_draw (20); t->b = vs_draw (2); break;
        case AW_TIMEOUT: if (W.threads && vs_draw (2)) { t->kind = YIELD; break; } t->a = 1 + vs_draw (30); W.timeouts = true; break;
        case SPAWN: case AW_SPAWNED_INLINE:
          if (W.next >= MAXF || depth >= 3) { t->kind = AW_PROMISE; t->a = pick_promise (i, &k); break; }
          {
            int c = W.next++; Fib *y = &W.f[c];
            if (W.nf < W.next) W.nf = W.next;
            y->parent = i; y->sched = vs_draw (3) ? x->sched : (int)vs_draw (W.npool + 1);
            y->viadef = (y->sched == 0 || y->sched == x->sched) && vs_draw (2);
            gen_fiber (c, depth + 1, false);
            t->a = c; k.fib[k.n++] = c;
          }
          break;
        default: break;
        }
      x->nst++;
    }
  while (own > 0 && x->nst < MAXS) x->st[x->nst++] = (Step) { COMPLETE, mine[--own], 0, 0 };
  x->ret = vs_draw (6);
  x->rarg = 1 + vs_draw (100);
  if (x->ret == R_PROMISE) x->rarg = pick_promise (i, &k);
  if (x->ret == R_FIBER) { if (k.n) x->rarg = k.fib[vs_draw (k.n)]; else x->ret = R_INT; }
}
typedef struct { int act[24], n; } Helper;     /* >= 0 complete promise, < 0 spawn fiber -1-x */
static gpointer helper (gpointer u) { Helper *h = u; for (int k = 0; k < h->n; k++) { if (h->act[k] >= 0) { W.xcomplete++; do_complete (h->act[k]); } else spawn (-1 - h->act[k]); if (vs_draw (3) == 2) g_thread_yield (); } return NULL; }

static void
programs_once (bool threads)
{
  memset (&W, 0, sizeof W); for (int i = 0; i < 64; i++) W.cur[i] = -1;
  W.threads = threads;
  W.npool = threads ? (int)vs_draw (3) : 0;
  g_type_class_ref (dex_fiber_get_type ());
  vs_objects_mark ();
  W.sc[0] = dex_scheduler_get_default (); W.lo[0] = 0; W.hi[0] = 1;
  for (int s = 1; s <= W.npool; s++) { W.lo[s] = vs_thread_count (); W.sc[s] = dex_thread_pool_scheduler_new (); W.hi[s] = vs_thread_count (); }
  int nh = threads ? (int)vs_draw (3) + (W.npool == 0) : 0;
  int ext = 2 + vs_draw (5);
  for (int i = 0; i < ext; i++) W.p[W.np++] = (Pr) { .out = gen_out (), .owner = -1, .completer = vs_draw (nh + 1) };
  /* top-level fibers get the low numbers; generated from the highest down so that lower ones know higher ones */
  int top = 1 + vs_draw (4), late = nh ? (int)vs_draw (3) : 0;
  W.nf = W.next = top + late;
  for (int i = 0; i < W.nf; i++) { W.f[i].parent = -1; W.f[i].sched = vs_draw (W.npool + 1); W.f[i].late = i >= top; }
  for (int i = top + late - 1; i >= 0; i--) { gen_fiber (i, 0, i >= top); if (i < top) W.f[i].spawned = true; }
  for (int i = 0; i < W.nf; i++) W.f[i].spawned = false;
  for (int i = 0; i < W.np; i++) W.p[i].p = dex_promise_new ();
  Helper hp[4]; memset (hp, 0, sizeof hp); GThread *t[4];
  for (int i = 0; i < ext; i++) if (W.p[i].completer) { Helper *h = &hp[W.p[i].completer - 1]; h->act[h->n++] = i; }
  for (int i = top; i < top + late; i++) { Helper *h = &hp[vs_draw (nh)]; h->act[h->n++] = -1 - i; }
  for (int k = 0; k < nh; k++) for (int a = hp[k].n - 1; a > 0; a--) { int b = vs_draw (a + 1), x = hp[k].act[a]; hp[k].act[a] = hp[k].act[b]; hp[k].act[b] = x; }
  bool hfirst = vs_draw (2);
  if (hfirst) for (int k = 0; k < nh; k++) t[k] = g_thread_new ("helper", helper, &hp[k]);
  for (int i = top - 1; i >= 0; i--) { spawn (i); if (vs_draw (4) == 3) vs_run_idle (); }
  if (!hfirst) for (int k = 0; k < nh; k++) t[k] = g_thread_new ("helper", helper, &hp[k]);
  int mine[MAXP], nm = 0; for (int i = 0; i < ext; i++) if (!W.p[i].completer) mine[nm++] = i;
  while (nm > 0)
    {
      int w = vs_draw (4);
      if (w == 1) vs_run_idle ();
      else if (w == 2 && W.timeouts) vs_advance (1000 * vs_draw (20));
      int j = vs_draw (nm); int p = mine[j]; mine[j] = mine[--nm];
      do_complete (p);
    }
  if (vs_draw (2)) vs_run_idle ();
  for (int k = 0; k < nh; k++) g_thread_join (t[k]);
  vs_run_idle ();
  if (W.timeouts) vs_advance (3000000);
  int ran = 0;
  for (int i = 0; i < W.nf; i++)
    {
      Fib *x = &W.f[i];
      vs_check (x->spawned, "stuck", "fiber %d was never spawned: its parent %d stopped at step %d", i, x->parent, x->parent < 0 ? -1 : W.f[x->parent].pos);
      vs_check (x->started, "never-started", "fiber %d never started", i);
      vs_check (x->ended, "stuck", "fiber %d never got past step %d although everything has completed", i, x->pos);
      vs_check (!dex_future_is_pending (x->f), "stuck", "the future of fiber %d is still pending", i);
      Out o = outcome_now (x->f);
      vs_check (oeq (o, exp_fiber (i)), "wrong-result", "fiber %d completed with %s instead of %s", i, ostr (o), ostr (exp_fiber (i)));
      vs_check (x->destroyed == 1, "not-destroyed", "data of fiber %d not released", i);
      ran++;
    }
  for (int i = 0; i < W.nf; i++) dex_clear (&W.f[i].f);
  for (int i = 0; i < W.np; i++) dex_clear (&W.p[i].p);
  for (int s = 1; s <= W.npool; s++) dex_unref (W.sc[s]);
  vs_run_idle ();
  vs_objects_check ("after all fibers ended");
  if (W.xspawn) vs_label ("spawned across threads");
  if (W.xcomplete) vs_label ("completed by another thread");
  if (W.timeouts) vs_label ("timeouts");
  if (ran > 4) vs_label ("more than 4 fibers");
  if (W.suspended > 1 && ran > 1 && (!threads || W.xspawn || W.xcomplete)) vs_nontrivial ();
}
static void
run_programs (bool threads)
{
  vs_set_nproc (2 * (1 + vs_draw (2)));
  vs_begin (threads ? VS_PREEMPT_AUTO : VS_PREEMPT_NONE);
  programs_once (threads);
  vs_end ();
}
static void run_x01 (void) { run_programs (false); }
static void run_x02 (void) { run_programs (true); }

/* ================= cancellation ================= */
#define CF 6
#define CP 5
#define CA 12
typedef struct
{
  int n, want[6], ret; DexFuture *f; bool started, ended, destroyed;
  int live, dropping; bool may, must;                 /* cancellation, as seen by the model */
  int awaiting; bool began_must, began_may;           /* current await */
  int ncancel; Out result; bool cleanup; int fw[6];
} CFib;
typedef struct { DexFuture *f; int fib, set; bool gone, dropped; int thread; } Awt;
static struct { CFib f[CF]; int nf; DexPromise *p[CP]; Out out[CP]; bool begun[CP], done[CP]; int np; Awt a[CA]; int na; bool threads; } C;
static const Out CANC (void) { return er_of (DEX_ERROR, DEX_ERROR_FIBER_CANCELLED); }
static void cf_destroy (gpointer u) { CFib *x = u; vs_check (!x->destroyed, "destroy-twice", "fiber data released twice"); x->destroyed = true; }

static void loses (int f) { CFib *x = &C.f[f]; x->dropping++; if (--x->live == 0 && !x->ended) x->may = true; }
static void lost (int f) { CFib *x = &C.f[f]; if (--x->dropping == 0 && x->live == 0 && x->may) x->must = true; }

static DexFuture *
cf_body (gpointer u)
{
  CFib *x = u; int i = x - C.f;
  x->started = true;
  for (int s = 0; s < x->n; s++)
    {
      int w = x->want[s]; GError *e = NULL;
      bool on_fiber = x->fw[s] > 0; int g = x->fw[s];
      DexFuture *t = on_fiber ? C.f[g].f : DEX_FUTURE (C.p[w]);
      bool pend = dex_future_is_pending (t);
      x->began_must = x->must && pend; x->began_may = x->may; x->awaiting = s;
      bool counts = on_fiber && pend && !x->must;
      if (counts) C.f[g].live++;
      int v = dex_await_int (dex_ref (t), &e);
      Out o = e ? of_error (e) : ok_of (v);
      x->awaiting = -1;
      vs_log ("fiber %d: await %s %d%s -> %s", i, on_fiber ? "fiber" : "promise", on_fiber ? g : w, x->began_must ? " (cancelled)" : "", ostr (o));
      vs_check (!x->destroyed, "destroyed-early", "fiber %d runs with released data", i);
      if (oeq (o, CANC ()) && !(on_fiber && !pend))
        {
          if (on_fiber && !dex_future_is_pending (t) && oeq (outcome_now (t), CANC ())) continue;
          vs_check (x->may, "spurious-cancel", "fiber %d was told it is cancelled but it is still awaited", i);
          x->ncancel++;
          continue;
        }
      Out want = on_fiber ? (dex_future_is_pending (t) ? er_of (DEX_ERROR, DEX_ERROR_PENDING) : outcome_now (t)) : C.out[w];
      if (!on_fiber) vs_check (C.begun[w], "early", "fiber %d came back from awaiting promise %d with %s before it completed", i, w, ostr (o));
      else vs_check (!dex_future_is_pending (t), "early", "fiber %d came back from awaiting fiber %d with %s before it completed", i, g, ostr (o));
      vs_check (oeq (o, want), "wrong-value", "fiber %d awaiting %d saw %s instead of %s", i, w, ostr (o), ostr (want));
      if (x->began_must && !C.threads) vs_fail ("not-cancelled", "fiber %d was cancelled before it awaited pending promise %d but got %s", i, w, ostr (o));
    }
  x->cleanup = true;
  vs_log ("fiber %d returns", i);
  if (x->ret >= 0)
    {
      DexFuture *r = DEX_FUTURE (C.p[x->ret]);
      bool pend = dex_future_is_pending (r);
      x->began_must = x->must && pend; x->awaiting = 99;
      return dex_ref (r);
    }
  x->ended = true;
  return dex_future_new_for_int (5);
}
static int cb_runs;
static DexFuture *aw_cb (DexFuture *f, gpointer u) { cb_runs++; return NULL; }
static void
attach (int f, int thread)
{
  if (C.na >= CA || !dex_future_is_pending (C.f[f].f)) return;
  Awt *a = &C.a[C.na]; *a = (Awt) { .fib = f, .set = -1, .thread = thread };
  /* once cancelled a fiber stays cancelled */
  int k = vs_draw (3);
  C.f[f].live++;
  if (k == 0) a->f = dex_future_finally (dex_ref (C.f[f].f), aw_cb, NULL, NULL);
  else if (k == 1) { int p = vs_draw (C.np); if (C.begun[p]) { a->f = dex_future_all (dex_ref (C.f[f].f), NULL); } else { a->set = p; a->f = dex_future_first (dex_ref (C.f[f].f), dex_ref (C.p[p]), NULL); } }
  else a->f = dex_future_all (dex_ref (C.f[f].f), NULL);
  vs_log ("awaiter %d of fiber %d: %s %d", C.na, f, k == 0 ? "callback" : a->set >= 0 ? "first with promise" : "all", a->set);
  C.na++;
}
static void
drop_awaiter (int i)
{
  Awt *a = &C.a[i];
  if (a->dropped) return;
  vs_log ("drop awaiter %d of fiber %d", i, a->fib);
  a->dropped = true;
  bool was = a->gone; a->gone = true;
  if (!was) loses (a->fib); else C.f[a->fib].dropping++;
  dex_clear (&a->f);
  lost (a->fib);
}
static void
c_complete (int p)
{
  if (C.begun[p]) return;
  vs_log ("complete promise %d with %s", p, ostr (C.out[p]));
  bool mine[CA] = { 0 };
  for (int i = 0; i < C.na; i++) if (C.a[i].set == p) { mine[i] = true; if (!C.a[i].gone) { C.a[i].gone = true; loses (C.a[i].fib); } else C.f[C.a[i].fib].dropping++; }
  C.begun[p] = true;
  complete (C.p[p], C.out[p]);
  C.done[p] = true;
  for (int i = 0; i < CA; i++) if (mine[i]) lost (C.a[i].fib);
}
static void
c_check (void)
{
  for (int i = 0; i < C.nf; i++)
    {
      CFib *x = &C.f[i];
      if (!x->started) { if (x->f) vs_fail ("never-started", "fiber %d never started", i); continue; }
      if (x->ended || x->awaiting < 0) continue;
      if (x->awaiting == 99) { vs_check (!(x->began_must && dex_future_is_pending (x->f)), "suspended", "cancelled fiber %d stays pending after returning a pending future", i); continue; }
      vs_check (!x->began_must, "suspended", "fiber %d is suspended in await %d begun after it was cancelled", i, x->awaiting);
      int s = x->awaiting; bool pend = x->fw[s] > 0 ? dex_future_is_pending (C.f[x->fw[s]].f) : !C.done[x->want[s]];
      vs_check (pend, "stuck", "fiber %d is suspended although what it awaits completed", i);
    }
}
typedef struct { int act[16], n; } CHelp;     /* <100 drop awaiter, else complete promise-100 */
static gpointer c_helper (gpointer u) { CHelp *h = u; for (int k = 0; k < h->n; k++) { if (h->act[k] < 100) drop_awaiter (h->act[k]); else c_complete (h->act[k] - 100); if (vs_draw (4) == 3) g_thread_yield (); } return NULL; }

static void
cancel_once (bool threads)
{
  memset (&C, 0, sizeof C); C.threads = threads;
  g_type_class_ref (dex_fiber_get_type ());
  vs_objects_mark ();
  C.np = 2 + vs_draw (CP - 1); C.nf = 1 + vs_draw (threads ? 3 : CF);
  for (int i = 0; i < C.np; i++) { C.p[i] = dex_promise_new (); C.out[i] = gen_out (); }
  for (int i = 0; i < C.nf; i++)
    {
      CFib *x = &C.f[i]; x->n = 1 + vs_draw (5); x->ret = vs_draw (3) == 2 ? (int)vs_draw (C.np) : -1; x->awaiting = -1;
      for (int s = 0; s < x->n; s++) { x->want[s] = vs_draw (C.np); if (!threads && i + 1 < C.nf && vs_draw (5) == 4) x->fw[s] = i + 1 + vs_draw (C.nf - i - 1); }
    }
  for (int i = C.nf - 1; i >= 0; i--) { C.f[i].f = dex_scheduler_spawn (NULL, 0, cf_body, &C.f[i], cf_destroy); int n = vs_draw (3); while (n-- > 0) attach (i, 0); }
  int cancelled = 0, suspended = 0;
  if (threads)
    {
      if (vs_draw (2)) vs_run_idle ();
      CHelp hp[3]; memset (hp, 0, sizeof hp); GThread *t[3]; int nh = 1 + vs_draw (2);
      for (int i = 0; i < C.na; i++) { int k = vs_draw (nh + 1); CHelp *h = &hp[k]; h->act[h->n++] = i; }
      for (int i = 0; i < C.np; i++) if (vs_draw (3) != 2) { CHelp *h = &hp[vs_draw (nh + 1)]; int at = vs_draw (h->n + 1); memmove (h->act + at + 1, h->act + at, sizeof (int) * (h->n - at)); h->act[at] = 100 + i; h->n++; }
      for (int k = 0; k < nh; k++) t[k] = g_thread_new ("helper", c_helper, &hp[k]);
      for (int k = 0; k < hp[nh].n; k++) { if (vs_draw (2)) vs_run_idle (); int a = hp[nh].act[k]; if (a < 100) drop_awaiter (a); else c_complete (a - 100); }
      vs_run_idle ();
      for (int k = 0; k < nh; k++) g_thread_join (t[k]);
      vs_run_idle (); c_check ();
    }
  else
    for (int n = 4 + vs_draw (16); n > 0; n--)
      switch (vs_draw (5))
        {
        case 0: vs_run_idle (); c_check (); break;
        case 1: c_complete (vs_draw (C.np)); break;
        case 2: if (C.na) drop_awaiter (vs_draw (C.na)); break;
        case 3: attach (vs_draw (C.nf), 0); break;
        case 4: if (vs_draw (2) && C.na) { drop_awaiter (vs_draw (C.na)); } else g_main_context_iteration (NULL, FALSE); break;
        }
  for (int i = 0; i < C.nf; i++) { cancelled += C.f[i].must; suspended += C.f[i].awaiting >= 0; }
  for (int i = 0; i < C.np; i++) c_complete (i);
  vs_run_idle (); c_check ();
  for (int i = 0; i < C.nf; i++)
    {
      CFib *x = &C.f[i]; Out o;
      vs_check (x->cleanup && !dex_future_is_pending (x->f), "stuck", "fiber %d did not finish", i);
      o = outcome_now (x->f);
      if (x->ret < 0) vs_check (oeq (o, ok_of (5)), "wrong-result", "fiber %d completed with %s", i, ostr (o));
      else if (oeq (o, CANC ())) { vs_check (x->may, "spurious-cancel", "fiber %d is rejected as cancelled but was always awaited", i); x->ncancel++; }
      else
        {
          vs_check (oeq (o, C.out[x->ret]), "wrong-result", "fiber %d completed with %s instead of %s", i, ostr (o), ostr (C.out[x->ret]));
          vs_check (!x->began_must || threads, "not-cancelled", "fiber %d was cancelled before it returned a pending future but completed with %s", i, ostr (o));
        }
      vs_check (x->destroyed, "not-destroyed", "data of fiber %d not released", i);
      if (x->ncancel) vs_label ("saw cancellation");
    }
  for (int i = 0; i < C.na; i++) if (C.a[i].f) dex_clear (&C.a[i].f);
  for (int i = 0; i < C.nf; i++) dex_clear (&C.f[i].f);
  for (int i = 0; i < C.np; i++) dex_clear (&C.p[i]);
  vs_run_idle ();
  vs_objects_check ("at the end");
  if (cancelled) vs_label ("cancelled");
  if (suspended) vs_label ("suspended when cancelled or later");
  if (cancelled) vs_nontrivial ();
}
static void run_x03 (void) { vs_begin (VS_PREEMPT_NONE); cancel_once (false); vs_end (); }
static void run_x03t (void) { vs_begin (VS_PREEMPT_AUTO); cancel_once (true); vs_end (); }
static void run_fheap (void) { VS_RUN_ROUNDS ({ if (vs_draw (2)) cancel_once (false); else programs_once (false); }); }

/* ================= stacks ================= */
#define SF 14
typedef struct { int size, waits, at; DexFuture *f; char *entry; bool live, ended; gsize usable; int sched; } SFib;
static struct { SFib f[SF]; int n; DexPromise *p[4]; bool done[4]; DexScheduler *sc[2]; int maxlive, live; } K;
typedef struct { gsize a, b; char prot[5]; } Map;
static int read_maps (Map *m, int max)
{
  FILE *f = fopen ("/proc/self/maps", "r"); char line[512]; int n = 0;
  while (f && fgets (line, sizeof line, f) && n < max) { unsigned long a, b; if (sscanf (line, "%lx-%lx %4s", &a, &b, m[n].prot) == 3) { m[n].a = a; m[n].b = b; n++; } }
  if (f) fclose (f);
  return n;
}
static void
check_stacks (void)
{
  static Map m[6000]; int n = read_maps (m, 6000);
  for (int i = 0; i < K.n; i++)
    {
      SFib *x = &K.f[i];
      if (!x->live) continue;
      int r = -1; for (int k = 0; k < n; k++) if ((gsize)x->entry >= m[k].a && (gsize)x->entry < m[k].b) r = k;
      vs_check (r >= 0 && !strncmp (m[r].prot, "rw", 2), "no-stack", "the stack of fiber %d is not mapped", i);
      vs_check ((gsize)x->entry - m[r].a + 4096 >= x->usable, "small-stack", "fiber %d asked for %d bytes and has %ld", i, x->size, (long)((gsize)x->entry - m[r].a));
      if (r > 0 && m[r - 1].b == m[r].a) vs_check (!strncmp (m[r - 1].prot, "---", 3), "no-guard", "below the stack of fiber %d is accessible memory (%s)", i, m[r - 1].prot);
      for (int j = 0; j < K.n; j++)
        if (j != i && K.f[j].live) vs_check (!(K.f[j].entry >= (char *)m[r].a && K.f[j].entry <= x->entry), "no-guard", "the frames of fibers %d and %d have no guard between them", i, j);
    }
}
static DexFuture * __attribute__((noinline))
st_body (gpointer u)
{
  SFib *x = u; int i = x - K.f;
  volatile char mark; x->entry = (char *)&mark; x->live = true;
  if (++K.live > K.maxlive) K.maxlive = K.live;
  gsize use = x->usable - 12288;
  guint32 *big = alloca (use);
  gsize n = use / 4;
  for (gsize k = 0; k < n; k++) big[k] = (guint32)k * 2654435761u + i;
  for (x->at = 0; x->at < x->waits; x->at++)
    {
      int w = (i + x->at) % 4;
      dex_await (dex_ref (K.p[w]), NULL);
      for (gsize k = 0; k < n; k++) if (big[k] != (guint32)k * 2654435761u + i) vs_fail ("clobbered", "fiber %d found its stack overwritten at offset %ld", i, (long)(k * 4));
      for (gsize k = 0; k < n; k += 97) big[k] = (guint32)k * 2654435761u + i;
    }
  x->live = false; x->ended = true; K.live--;
  return dex_future_new_for_int (i);
}
static struct { struct { int k, a, b, c; } op[30]; int n; bool pool; } SP;
static void
gen_stacks (void)
{
  static const int base[] = { 0, 1, 100, 4096, 16383, 16384, 16385, 20480, 65536, 131071, 131072, 131073, 262144, 1048576, 135168, 100001 };
  memset (&SP, 0, sizeof SP);
  SP.pool = vs_draw (3) == 2; SP.n = 4 + vs_draw (24);
  for (int s = 0; s < SP.n; s++)
    {
      int k = SP.op[s].k = vs_draw (4);
      if (k == 0) { SP.op[s].a = base[vs_draw (G_N_ELEMENTS (base))]; if (vs_draw (4) == 3) SP.op[s].a += vs_draw (9000); SP.op[s].b = vs_draw (4); SP.op[s].c = SP.pool && vs_draw (2); }
      else SP.op[s].a = vs_draw (k == 2 ? 2 : 4);
    }
}
static void
stacks_once (int round)
{
  memset (&K, 0, sizeof K);
  K.sc[0] = dex_scheduler_get_default ();
  if (SP.pool) K.sc[1] = dex_thread_pool_scheduler_new ();
  for (int i = 0; i < 4; i++) K.p[i] = dex_promise_new ();
  for (int s = 0; s < SP.n; s++)
    {
      int a = SP.op[s].a;
      switch (SP.op[s].k)
        {
        case 0:
          {
            if (K.n >= SF) break;
            SFib *x = &K.f[K.n++];
            x->size = a;
            /* sizes below the minimum get some default: only rely on half of it then */
            x->usable = x->size < 16384 ? 65536 : x->size;
            x->waits = SP.op[s].b; x->sched = SP.op[s].c;
            vs_log ("fiber %d with stack %d", K.n - 1, x->size);
            x->f = dex_scheduler_spawn (K.sc[x->sched], x->size, st_body, x, NULL);
            break;
          }
        case 1: if (!K.done[a]) { K.done[a] = true; vs_log ("complete %d", a); dex_promise_resolve_int (K.p[a], a); } break;
        case 2: vs_run_idle (); if (a) check_stacks (); break;
        case 3: if (K.done[a] && !SP.pool) { dex_clear (&K.p[a]); K.p[a] = dex_promise_new (); K.done[a] = false; } break;
        }
    }
  vs_run_idle (); check_stacks ();
  for (bool more = true; more; )
    {
      more = false;
      for (int i = 0; i < 4; i++) if (!K.done[i]) { K.done[i] = true; dex_promise_resolve_int (K.p[i], i); }
      vs_run_idle ();
      /* fibers may be suspended on a promise that was replaced */
      for (int i = 0; i < K.n; i++) if (!K.f[i].ended) vs_fail ("stuck", "fiber %d did not end", i);
    }
  for (int i = 0; i < K.n; i++) { vs_check (oeq (outcome_now (K.f[i].f), ok_of (i)), "wrong-result", "fiber %d", i); dex_clear (&K.f[i].f); }
  for (int i = 0; i < 4; i++) dex_clear (&K.p[i]);
  if (SP.pool) { dex_unref (K.sc[1]); vs_label ("pool"); }
  vs_run_idle ();
}
static void
run_x04 (void)
{
  vs_set_nproc (2);
  vs_begin (vs_draw (3) == 2 ? VS_PREEMPT_AUTO : VS_PREEMPT_NONE);
  g_type_class_ref (dex_fiber_get_type ());
  vs_objects_mark ();
  gen_stacks (); gsize used[3]; int nlive = 0;
  for (int r = 0; r < 3; r++)
    {
      vs_log ("round %d", r);
      stacks_once (r);
      used[r] = vs_mapped_bytes (); if (K.maxlive > nlive) nlive = K.maxlive;
    }
  vs_check (used[2] <= used[1], "stack-leak", "%ld bytes stay mapped after the third run of the same program, %ld after the second", (long)used[2], (long)used[1]);
  vs_check (used[2] <= 2u * 17 * (131072 + 4096), "stack-leak", "%ld bytes of stacks stay mapped when no fiber is left", (long)used[2]);
  vs_objects_check ("at the end");
  if (nlive > 2) vs_label ("more than 2 fibers at once");
  if (nlive > 1) vs_nontrivial ();
  vs_end ();
}

VS_HARNESS (x1) = { "fiber-programs", "programs of fibers awaiting promises, sets, callbacks, timeouts and each other; non-trivial: more than one fiber and await suspended", run_x01, 100 };
VS_HARNESS (x2) = { "fiber-threads", "the same programs on the main loop and pools, completed and spawned by other threads; non-trivial: several fibers, suspended awaits and a cross-thread spawn or completion", run_x02, 40 };
VS_HARNESS (x3) = { "fiber-cancel", "fibers losing their awaiters (callbacks, sets, other fibers) at any point; non-trivial: a fiber was cancelled", run_x03, 100 };
VS_HARNESS (x5) = { "fiber-cancel-threads", "awaiters dropped and promises completed by other threads while fibers run; non-trivial: a fiber was cancelled", run_x03t, 60 };
VS_HARNESS (x6) = { "fiber-heap", "fiber programs and cancellations run several times over, heap bytes must not grow; non-trivial: fibers suspended, or one was cancelled", run_fheap, 40 };
VS_HARNESS (x4) = { "stacks", "fibers of many stack sizes filling their stacks, three identical rounds; non-trivial: two fibers suspended at once", run_x04, 40 };
