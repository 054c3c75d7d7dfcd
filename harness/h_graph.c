/* Futures graphs: random programs of promises, callbacks, sets and disowned
 * futures, checked at every quiet moment against local semantic rules. */
#include "vs.h"
#include <libdex.h>
#include <string.h>

#define MAXN 48
typedef enum { PROMISE, STATIC, INFINITE, BLOCK, SET } Kind;
typedef enum { ALL, ANY, FIRST, ALL_RACE } SetKind;
enum { THEN = 1, CATCH = 2, FINALLY = 3 };
typedef struct { int st, val; } Out;          /* st: 0 pending 1 resolved 2 rejected */
typedef struct { Out c[24]; int n; bool fuzzy; } Cands;
#define DEPFAIL (-2)
#define TRUEVAL (-1)
typedef struct Node {
  int id; Kind kind; DexFuture *f; bool held; int pins; bool drop_wanted;
  SetKind sk; int bk; bool loop;
  struct Node *in[8]; int nin;
  int ncalls; Out args[40]; struct Node *ret[40];
  int script; int destroyed; int thread;
  bool cancellable; GCancellable *c; bool was_cancelled;
  Cands comp;                                  /* leaf: outcomes somebody completed it with */
  int ncomp;
  bool final_known; Out final_out;
  bool fin; Cands fincands;                    /* completed, possible outcomes */
  int epoch_done, epoch_new; bool disowned; bool dead; bool late, unk; gpointer ptr; long seq;
  bool had_awaiters; uint64_t prev_awaiters, cur_awaiters;
  Cands pred; int pred_epoch;
} Node;

static struct {
  Node *n[MAXN]; int nn; int epoch; int next_val; bool mt; int ops_in_epoch; int nested; bool in_eval;
  bool light; int cbcount;
  int main_thread;
} G;

typedef struct { int sets, blocks, drops, disowns, cancels, loops, maxnodes, ops, threads, dup; bool leakrun; } Profile;
static Profile P;
static GQuark quark;

static Node *
node_new (Kind k)
{
  Node *n = g_new0 (Node, 1);
  n->kind = k; n->id = G.nn; n->epoch_new = G.epoch; n->epoch_done = -1; n->pred_epoch = -1;
  G.n[G.nn++] = n;
  return n;
}
static bool full (void) { return G.nn >= P.maxnodes; }

/* ---------- outcomes ---------- */
static Out
read_out (DexFuture *f)
{
  Out o = { 0 }; GError *e = NULL;
  DexFutureStatus st = dex_future_get_status (f);
  if (st == DEX_FUTURE_STATUS_PENDING) return o;
  const GValue *v = dex_future_get_value (f, &e);
  bool res = dex_future_is_resolved (f), rej = dex_future_is_rejected (f), pen = dex_future_is_pending (f);
  vs_check (!pen, "status", "completed future says it is pending");
  vs_check (res == (st == DEX_FUTURE_STATUS_RESOLVED) && rej == (st == DEX_FUTURE_STATUS_REJECTED), "status", "status predicates disagree: status %d resolved %d rejected %d", st, res, rej);
  vs_check (!!v == res && !!e == rej, "status", "value %p error %p but status %d", v, e, st);
  if (v)
    {
      o.st = 1;
      if (G_VALUE_HOLDS_INT (v)) { o.val = g_value_get_int (v); vs_check ((o.val & 1) == 0, "value", "int %d where a string was sent", o.val); }
      else if (G_VALUE_HOLDS_STRING (v)) { const char *s = g_value_get_string (v); vs_check (s && s[0] == 's', "value", "bad string %s", s); o.val = atoi (s + 1); vs_check (o.val & 1, "value", "string %s where an int was sent", s); }
      else if (G_VALUE_HOLDS_BOOLEAN (v)) { vs_check (g_value_get_boolean (v), "value", "set resolved with FALSE"); o.val = TRUEVAL; }
      else vs_fail ("value", "unexpected value type %s", G_VALUE_TYPE_NAME (v));
    }
  else
    {
      o.st = 2;
      if (e->domain == quark) { char b[32]; o.val = e->code; g_snprintf (b, sizeof b, "e%d", o.val); vs_check (!strcmp (b, e->message), "value", "error message %s for code %d", e->message, e->code); }
      else if (e->domain == DEX_ERROR && e->code == DEX_ERROR_DEPENDENCY_FAILED) o.val = DEPFAIL;
      else vs_fail ("value", "unexpected error %s %d %s", g_quark_to_string (e->domain), e->code, e->message);
      g_error_free (e);
    }
  return o;
}
static Out new_out (void) { Out o = { 1 + (int)vs_draw (2), G.next_val++ }; return o; }
static const char *os (Out o)
{ static char b[8][24]; static int k; char *s = b[k++ & 7]; if (!o.st) return "pending"; g_snprintf (s, 24, "%s:%d", o.st == 1 ? "ok" : "err", o.val); return s; }
static bool eq (Out a, Out b) { return a.st == b.st && a.val == b.val; }
static bool has (const Cands *c, Out o) { for (int i = 0; i < c->n; i++) if (eq (c->c[i], o)) return true; return false; }
static void add (Cands *c, Out o) { if (!has (c, o) && c->n < (int)G_N_ELEMENTS (c->c)) c->c[c->n++] = o; }
static bool pend (const Cands *c) { return c->n == 1 && c->c[0].st == 0; }
static Cands one (Out o) { Cands c = { .n = 1 }; c.c[0] = o; return c; }
static const char *cs (const Cands *c) { static char b[400]; b[0] = 0; for (int i = 0; i < c->n; i++) { g_strlcat (b, os (c->c[i]), sizeof b); g_strlcat (b, " ", sizeof b); } if (c->fuzzy) g_strlcat (b, "(fuzzy)", sizeof b); return b; }

static DexFuture *
static_of (Out o)
{
  if (o.st == 1)
    {
      if (o.val & 1) { char b[32]; g_snprintf (b, sizeof b, "s%d", o.val); return dex_future_new_for_string (b); }
      return dex_future_new_for_int (o.val);
    }
  return dex_future_new_reject (quark, o.val, "e%d", o.val);
}
static void
complete_promise (DexPromise *p, Out o)
{
  if (o.st == 1)
    {
      if (o.val & 1) dex_promise_resolve_string (p, g_strdup_printf ("s%d", o.val));
      else dex_promise_resolve_int (p, o.val);
    }
  else dex_promise_reject (p, g_error_new (quark, o.val, "e%d", o.val));
}

/* ---------- holding ---------- */
static Node *
pick_held (bool (*pred) (Node *))
{
  Node *l[MAXN]; int k = 0;
  for (int i = 0; i < G.nn; i++) if (G.n[i]->held && G.n[i]->f && !G.n[i]->drop_wanted && (!pred || pred (G.n[i]))) l[k++] = G.n[i];
  if (!k) return NULL;
  /* 0 = newest */
  return l[k - 1 - vs_draw (k)];
}
static void release_ref (Node *n) { DexFuture *f = n->f; n->held = false; n->f = NULL; dex_unref (f); }
static void unpin (Node *n) { if (--n->pins == 0 && n->drop_wanted && n->held) release_ref (n); }
static void drop (Node *n) { n->drop_wanted = true; if (n->pins == 0) release_ref (n); }

static uint64_t
deps (Node *n, uint64_t seen)
{
  if (seen >> n->id & 1) return seen;
  seen |= 1ull << n->id;
  for (int i = 0; i < n->nin; i++) seen = deps (n->in[i], seen);
  for (int i = 0; i < n->ncalls; i++) if (n->ret[i]) seen = deps (n->ret[i], seen);
  return seen;
}

static Node *
make_leaf (Kind k, bool canc)
{
  Node *n = node_new (k);
  n->comp.n = 0;
  if (k == PROMISE)
    {
      DexPromise *p = canc ? dex_promise_new_cancellable () : dex_promise_new ();
      n->cancellable = canc;
      if (canc) n->c = g_object_ref (dex_promise_get_cancellable (p));
      n->f = DEX_FUTURE (p);
    }
  else if (k == STATIC) { Out o = new_out (); add (&n->comp, o); n->f = static_of (o); }
  else n->f = dex_future_new_infinite ();
  n->held = true;
  return n;
}

/* ---------- callbacks ---------- */
static bool is_promise (Node *n) { return n->kind == PROMISE; }
static bool is_open_promise (Node *n) { return n->kind == PROMISE && n->ncomp == 0; }
static void do_complete (Node *p);
static void
destroy_cb (gpointer data)
{
  Node *b = data;
  b->destroyed++;
  vs_check (b->destroyed == 1, "destroy-twice", "callback data of node %d released %d times", b->id, b->destroyed);
}
static Node *new_block (Node *in, bool give);
static DexFuture *
block_cb (DexFuture *f, gpointer data)
{
  Node *b = data, *r = NULL;
  vs_check (b->destroyed == 0, "use-after-destroy", "callback of node %d ran after its data was released", b->id);
  vs_check (b->ncalls < 38, "runaway", "callback of node %d ran %d times", b->id, b->ncalls);
  Out o = read_out (f);
  vs_check (o.st != 0, "pending-arg", "callback of node %d got a pending future", b->id);
  int tid = vs_self_id ();
  vs_check (tid == b->thread, "wrong-thread", "callback of node %d ran on T%d, belongs to T%d", b->id, tid, b->thread);
  int k = b->ncalls++;
  b->args[k] = o; b->ret[k] = NULL;
  G.cbcount++;
  DexFuture *res = NULL;
  if (b->script > 0)
    {
      b->script--;
      switch (vs_draw (full () ? 4 : 6))
        {
        case 0: break;
        case 1: /* an existing held node that does not depend on us */
          {
            Node *c = pick_held (NULL);
            if (c && !(deps (c, 0) >> b->id & 1)) { r = c; b->ret[k] = c; c->pins++; res = dex_ref (c->f); unpin (c); }
          }
          break;
        case 2: /* complete something else as a side effect */
          { Node *p = pick_held (is_open_promise); if (p) do_complete (p); }
          break;
        case 3: /* drop something */
          if (P.drops) { Node *p = pick_held (NULL); if (p) { vs_log ("  cb drops %d", p->id); drop (p); } }
          break;
        case 4: r = make_leaf (STATIC, false); b->ret[k] = r; res = r->f; r->held = false; r->f = NULL; r->drop_wanted = true; break;
        case 5: r = make_leaf (PROMISE, vs_chance (1, 2)); b->ret[k] = r; r->pins++; res = dex_ref (r->f); unpin (r); break;
        }
    }
  vs_log ("  cb of %d (%s) call %d returns %d", b->id, os (o), k, r ? r->id : -1);
  return res;
}

static Node *
new_block (Node *in, bool give)
{
  Node *b = node_new (BLOCK);
  b->bk = 1 + vs_draw (3); b->loop = vs_chance (P.loops, 10);
  b->script = b->loop ? vs_draw (6) : vs_draw (2);
  b->in[0] = in; b->nin = 1;
  b->thread = G.main_thread;
  DexFuture *i = in->f;
  if (give) { in->held = false; in->f = NULL; in->drop_wanted = true; } else { in->pins++; dex_ref (i); unpin (in); }
  vs_log ("%d = %s%s(%d)%s script %d", b->id, b->bk == THEN ? "then" : b->bk == CATCH ? "catch" : "finally", b->loop ? "_loop" : "", in->id, give ? " giving" : "", b->script);
  DexFuture *(*fn) (DexFuture *, DexFutureCallback, gpointer, GDestroyNotify) =
    b->bk == THEN ? (b->loop ? dex_future_then_loop : dex_future_then) :
    b->bk == CATCH ? (b->loop ? dex_future_catch_loop : dex_future_catch) :
    (b->loop ? dex_future_finally_loop : dex_future_finally);
  DexFuture *f = fn (i, block_cb, b, destroy_cb);
  b->f = f; b->held = true; b->ptr = f; b->seq = vs_object_seq (f);
  return b;
}
static void
new_set (void)
{
  Node *mem[8]; int k = 1 + vs_draw (6);
  bool dup = vs_chance (P.dup, 10);
  bool give[8] = { 0 };
  if (vs_draw (8) == 7) k = 7 + vs_draw (2);
  int got = 0;
  for (int i = 0; i < k; i++)
    {
      Node *m = pick_held (NULL); bool again = false;
      for (int j = 0; j < got; j++) again |= mem[j] == m;
      if (!m || (again && !dup)) continue;
      mem[got++] = m;
    }
  if (!got) return;
  Node *s = node_new (SET);
  s->sk = vs_draw (4);
  bool variadic = vs_draw (2);
  DexFuture *fs[9] = { 0 };
  GString *l = g_string_new (NULL);
  for (int i = 0; i < got; i++)
    {
      s->in[s->nin++] = mem[i];
      fs[i] = mem[i]->f;
      mem[i]->pins++;
      g_string_append_printf (l, " %d", mem[i]->id);
    }
  vs_log ("%d = %s(%s)%s", s->id, (const char *[]) { "all", "any", "first", "all_race" }[s->sk], l->str, variadic ? " variadic" : "");
  g_string_free (l, TRUE);
  DexFuture *f;
  if (variadic)
    {
      DexFuture *(*fn) (DexFuture *, ...) = (DexFuture *(*[]) (DexFuture *, ...)) { dex_future_all, dex_future_any, dex_future_first, dex_future_all_race }[s->sk];
      for (int i = 0; i < got; i++) dex_ref (fs[i]);
      f = fn (fs[0], fs[1], fs[2], fs[3], fs[4], fs[5], fs[6], fs[7], NULL);
    }
  else
    {
      DexFuture *(*fn) (DexFuture *const *, guint) = (DexFuture *(*[]) (DexFuture *const *, guint)) { dex_future_allv, dex_future_anyv, dex_future_firstv, dex_future_all_racev }[s->sk];
      f = fn (fs, got);
    }
  s->late = dex_future_get_status (f) != DEX_FUTURE_STATUS_PENDING;
  s->f = f; s->held = true; s->ptr = f; s->seq = vs_object_seq (f);
  for (int i = 0; i < got; i++) unpin (mem[i]);
  (void)give;
}
static void
do_complete (Node *p)
{
  Out o = new_out ();
  p->ncomp++;
  if (G.mt || p->ncomp == 1) add (&p->comp, o);
  vs_log ("complete %d with %s%s", p->id, os (o), p->ncomp > 1 ? " (again)" : "");
  p->pins++;
  complete_promise (DEX_PROMISE (p->f), o);
  unpin (p);
}

/* ---------- rules ---------- */
static bool handles (Node *b, Out o) { return o.st == 1 ? (b->bk & THEN) : (b->bk & CATCH); }
static Cands pred (Node *n);
static Cands
pred_block (Node *b, Node **await)
{
  Cands cur = pred (b->in[0]); Node *src = b->in[0]; int i = 0;
  for (;;)
    {
      if (cur.fuzzy) { cur.fuzzy = true; *await = NULL; return cur; }
      if (pend (&cur))
        {
          vs_check (b->ncalls == i, "extra-call", "callback of node %d ran %d times, %d expected (its input %d is pending)", b->id, b->ncalls, i, src->id);
          *await = src;
          return cur;
        }
      if (b->ncalls > i)
        {
          Out a = b->args[i];
          vs_check (has (&cur, a), "wrong-arg", "callback of node %d call %d got %s, node %d completed with %s", b->id, i, os (a), src->id, cs (&cur));
          vs_check (handles (b, a), "wrong-kind", "callback of node %d ran on %s", b->id, os (a));
          if (!b->ret[i])
            { vs_check (b->ncalls == i + 1, "extra-call", "callback of node %d ran again after returning nothing", b->id); *await = NULL; return one (a); }
          src = b->ret[i]; cur = pred (src);
          i++;
          if (!b->loop)
            {
              vs_check (b->ncalls == i, "extra-call", "callback of node %d ran %d times", b->id, b->ncalls);
              *await = pend (&cur) ? src : NULL;
              return cur;
            }
        }
      else
        {
          Cands r = { 0 };
          for (int j = 0; j < cur.n; j++) if (!handles (b, cur.c[j])) add (&r, cur.c[j]);
          *await = NULL;
          if (r.n == 0)
            {
              /* fine only if the block died before its input's completion reached it */
              vs_check (b->dead || vs_object_seq (b->ptr) != b->seq, "lost-callback", "callback of node %d did not run (call %d) although node %d completed with %s", b->id, i, src->id, cs (&cur));
              Out never = { 0 };
              return one (never);
            }
          return r;
        }
    }
}
static Cands
pred_set (Node *s)
{
  int done = 0, sure_res = 0, sure_rej = 0, mixed = 0; Cands p[8];
  int min_any = 1 << 30, min_res = 1 << 30, min_rej = 1 << 30;
  Out PEND = { 0 }, T = { 1, TRUEVAL }, D = { 2, DEPFAIL };
  for (int i = 0; i < s->nin; i++)
    {
      p[i] = pred (s->in[i]);
      if (p[i].fuzzy) { Cands c = { .fuzzy = true, .n = 0 }; return c; }
      if (pend (&p[i])) continue;
      done++;
      bool r1 = false, r2 = false;
      for (int j = 0; j < p[i].n; j++) { r1 |= p[i].c[j].st == 1; r2 |= p[i].c[j].st == 2; }
      int e = s->in[i]->epoch_done;
      if (e < 0) e = G.epoch;
      if (r1 && r2) mixed++; else if (r1) sure_res++; else sure_rej++;
      if (e < min_any) min_any = e;
      /* a member that may be either decides nothing: the bound is the first sure one */
      if (r1 && !r2 && e < min_res) min_res = e;
      if (r2 && !r1 && e < min_rej) min_rej = e;
    }
  Cands r = { 0 }, unknown = { .fuzzy = true };
#define GATHER(minv, want) for (int i = 0; i < s->nin; i++) { int e = s->in[i]->epoch_done < 0 ? G.epoch : s->in[i]->epoch_done; \
    if (!pend (&p[i]) && (G.mt || e <= MAX (minv, s->epoch_new))) for (int j = 0; j < p[i].n; j++) if ((want) & p[i].c[j].st) add (&r, p[i].c[j]); }
  switch (s->sk)
    {
    case ALL:
      if (done < s->nin) return one (PEND);
      if (!sure_rej && !mixed) return one (T);
      if (!sure_res && !mixed) return one (D);
      add (&r, T); add (&r, D);
      return r;
    case ANY:
      if (sure_res) { GATHER (min_res, 1); return r; }
      if (mixed) return unknown;
      return one (done == s->nin ? D : PEND);
    case FIRST:
      if (!done) return one (PEND);
      GATHER (min_any, 3);
      return r;
    default:
      if (sure_rej) { GATHER (min_rej, 2); return r; }
      if (mixed) return unknown;
      return one (done == s->nin ? T : PEND);
    }
}
static Node *await_of[MAXN];
static Cands
pred (Node *n)
{
  Out PEND = { 0 };
  if (n->fin) return n->fincands;
  if (n->pred_epoch == G.epoch && G.in_eval) return n->pred;
  Cands c;
  await_of[n->id] = NULL;
  switch (n->kind)
    {
    case PROMISE: case STATIC: c = n->comp.n ? n->comp : one (PEND); break;
    case INFINITE: c = one (PEND); break;
    case BLOCK: c = pred_block (n, &await_of[n->id]); break;
    default: c = pred_set (n); break;
    }
  if (n->held && n->f)
    {
      Out a = read_out (n->f);
      if (!c.fuzzy)
        {
          if (a.st == 0 && !pend (&c)) vs_fail ("not-completed", "node %d is pending but must be %s", n->id, cs (&c));
          if (a.st != 0 && pend (&c)) vs_fail ("completed-early", "node %d is %s but must be pending", n->id, os (a));
          vs_check (has (&c, a), "wrong-outcome", "node %d is %s, expected one of %s", n->id, os (a), cs (&c));
        }
      n->unk = c.fuzzy && a.st == 0;
      c = one (a);
    }
  n->pred = c; n->pred_epoch = G.epoch;
  if (!c.fuzzy && !pend (&c)) { n->fin = true; n->fincands = c; n->epoch_done = G.epoch; }
  return c;
}
static void
mark_alive (Node *n, uint64_t *alive)
{
  if (*alive >> n->id & 1) return;
  *alive |= 1ull << n->id;
  pred (n);
  if (n->kind == SET) for (int i = 0; i < n->nin; i++) mark_alive (n->in[i], alive);
  if (n->kind == BLOCK && !n->fin && await_of[n->id]) mark_alive (await_of[n->id], alive);
}
static bool fuzzy_any;

static void
check_quiet (const char *when)
{
  uint64_t alive = 0; int disowned = 0;
  G.in_eval = true; fuzzy_any = false;
  /* nodes alive at the last check are evaluated; dead ones stay dead */
  for (int i = 0; i < G.nn; i++)
    if (!G.n[i]->dead && (G.n[i]->held || G.n[i]->disowned)) pred (G.n[i]);
  /* reachable, pulling in predictions along the way */
  for (int i = 0; i < G.nn; i++)
    {
      Node *n = G.n[i];
      if (n->dead) continue;
      if (n->held || (n->disowned && !n->fin)) mark_alive (n, &alive);
      if (n->disowned && !n->fin) disowned++;
    }
  for (int i = 0; i < G.nn; i++)
    {
      Node *n = G.n[i];
      if (alive >> i & 1) { Cands c = pred (n); fuzzy_any |= c.fuzzy || (n->unk && !n->fin); }
    }
  G.in_eval = false;
  for (int i = 0; i < G.nn; i++)
    {
      Node *n = G.n[i];
      if (!n->dead && !(alive >> i & 1))
        {
          n->dead = true;
          if (!fuzzy_any && n->kind == BLOCK)
            vs_check (n->destroyed == 1, "not-destroyed", "callback data of node %d released %d times after the node was dropped", n->id, n->destroyed);
        }
      if (n->held && n->f && n->fin)
        {
          Out a = read_out (n->f);
          if (!n->final_known) { n->final_known = true; n->final_out = a; }
          vs_check (eq (a, n->final_out), "changed", "node %d changed from %s to %s", n->id, os (n->final_out), os (a));
          if (n->kind == SET)
            {
              DexFutureSet *s = DEX_FUTURE_SET (n->f);
              vs_check ((int)dex_future_set_get_size (s) == n->nin, "set-size", "set %d has size %u, %d members given", n->id, dex_future_set_get_size (s), n->nin);
              for (int j = 0; j < n->nin; j++)
                {
                  DexFuture *m = dex_future_set_get_future_at (s, j);
                  if (n->in[j]->held) vs_check (m == n->in[j]->f, "set-member", "set %d member %d is another future", n->id, j);
                  Out mo = read_out (m); Cands mc = pred (n->in[j]); GError *e = NULL;
                  if (!mc.fuzzy) vs_check (has (&mc, mo), "set-member", "set %d member %d reads %s, expected %s", n->id, j, os (mo), cs (&mc));
                  const GValue *v = dex_future_set_get_value_at (s, j, &e);
                  vs_check (!!v == (mo.st == 1), "set-value", "set %d value at %d: %p for %s", n->id, j, v, os (mo));
                  g_clear_error (&e);
                }
            }
        }
    }
  /* objects */
  int expect = __builtin_popcountll (alive) + disowned, got = vs_objects_alive ();
  if (!fuzzy_any && got != expect)
    { char *d = vs_objects_dump (); for (int i = 0; i < G.nn; i++) if (!(alive >> i & 1)) vs_log ("  node %d considered gone", i); vs_fail (got > expect ? "leak" : "freed-early", "%s: %d objects alive, %d expected: %s", when, got, expect, d); }
  /* cancellation */
  for (int i = 0; i < G.nn; i++)
    {
      Node *p = G.n[i]; uint64_t aw = 0; bool late = false;
      if (!p->cancellable) continue;
      for (int j = 0; j < G.nn; j++)
        {
          Node *d = G.n[j];
          if (d->dead) continue;
          if (d->kind == BLOCK && !d->fin && await_of[j] == p) aw |= 1ull << j;
          if (d->kind == SET)
            for (int k = 0; k < d->nin; k++)
              if (d->in[k] == p) { if (!d->fin) aw |= 1ull << j; else if (d->late) late = true; }
        }
      if (p->disowned && !p->fin) aw |= 1ull << p->id;
      bool canc = g_cancellable_is_cancelled (p->c);
      bool pending = !p->fin;
      if (!G.mt)
        {
          bool lost_all = p->prev_awaiters != 0 && (p->prev_awaiters & aw) == 0;
          bool any_dep = false;
          for (int j = 0; j < G.nn; j++)
            if (j != i && (deps (G.n[j], 0) >> i & 1)) any_dep = true;
          if (canc && !p->was_cancelled)
            {
              bool ok = lost_all || (p->prev_awaiters == 0 && any_dep) || fuzzy_any;
              vs_check (ok, "wrong-cancel", "promise %d was cancelled although node(s) %llx still wait for it", p->id, (unsigned long long)(p->prev_awaiters & aw));
              vs_label ("cancelled");
            }
          if (lost_all && aw == 0 && pending && !late && !p->dead && !fuzzy_any)
            vs_check (canc, "not-cancelled", "promise %d is pending, nobody waits for it any more, and it was not cancelled", p->id);
        }
      p->was_cancelled = canc; p->prev_awaiters = aw;
    }
  G.epoch++;
}

static void
one_op (void)
{
  switch (vs_draw (8))
    {
    case 0: { Node *p = pick_held (vs_chance (1, 6) ? is_promise : is_open_promise); if (p) do_complete (p); } break;
    case 1: if (!full ()) { Node *n = make_leaf (PROMISE, vs_chance (P.cancels, 10)); vs_log ("%d = promise%s", n->id, n->cancellable ? "_cancellable" : ""); } break;
    case 2: case 3:
      if (P.blocks && !full ()) { Node *in = pick_held (NULL); if (in) new_block (in, in->pins == 0 && vs_chance (P.drops ? 4 : 0, 10)); }
      break;
    case 4: case 5: if (P.sets && !full ()) new_set (); break;
    case 6:
      if (!full () && vs_chance (1, 2)) { Node *n = make_leaf (vs_draw (5) == 4 ? INFINITE : STATIC, false); vs_log ("%d = %s %s", n->id, n->kind == STATIC ? "static" : "infinite", n->kind == STATIC ? os (n->comp.c[0]) : ""); }
      else if (P.disowns)
        {
          Node *n = pick_held (NULL);
          if (n && n->pins == 0 && !n->disowned) { vs_log ("disown %d", n->id); DexFuture *f = n->f; n->disowned = true; if (vs_draw (2)) { n->held = false; n->f = NULL; n->drop_wanted = true; } else { n->pins++; dex_ref (f); unpin (n); } vs_label ("disown"); dex_future_disown (f); }
        }
      break;
    case 7: if (P.drops) { Node *n = pick_held (NULL); if (n) { vs_log ("drop %d", n->id); vs_label ("drop"); drop (n); } } break;
    }
}

static gpointer thread_main (gpointer u) { int k = 1 + vs_draw (P.ops); for (int i = 0; i < k; i++) one_op (); return NULL; }

static void
program (void)
{
  memset (&G, 0, sizeof G);
  memset (await_of, 0, sizeof await_of);
  G.next_val = 10; G.mt = P.threads > 0; G.main_thread = 0;
  vs_objects_mark ();
  for (int i = 0, k = 1 + vs_draw (3); i < k; i++) { Node *n = make_leaf (PROMISE, vs_chance (P.cancels, 10)); vs_log ("%d = promise%s", n->id, n->cancellable ? "_cancellable" : ""); }
  if (G.mt)
    {
      int nt = 1 + vs_draw (P.threads); GThread *t[8];
      for (int i = 0, k = vs_draw (8); i < k; i++) one_op ();
      vs_run_idle ();
      for (int i = 0; i < nt; i++) t[i] = g_thread_new ("op", thread_main, NULL);
      for (int i = 0, k = vs_draw (P.ops); i < k; i++) { one_op (); if (vs_chance (1, 4)) g_main_context_iteration (NULL, FALSE); }
      vs_log ("join");
      for (int i = 0; i < nt; i++) g_thread_join (t[i]);
      vs_run_idle ();
      check_quiet ("after the threads finished");
    }
  else
    {
      for (int i = 0, k = 3 + vs_draw (P.ops); i < k; i++)
        {
          one_op ();
          if (!vs_chance (1, 4)) { vs_run_idle (); check_quiet ("mid-run"); }
        }
      vs_run_idle (); check_quiet ("mid-run");
    }
  /* finish: complete what is left or just drop it */
  bool complete = vs_draw (3) != 2;
  if (complete)
    for (int i = 0; i < G.nn; i++)
      if (G.n[i]->kind == PROMISE && G.n[i]->held && !G.n[i]->ncomp) { do_complete (G.n[i]); if (vs_draw (2)) { vs_run_idle (); check_quiet ("finishing"); } }
  vs_run_idle (); check_quiet ("before dropping everything");
  vs_log ("drop all");
  int start = vs_draw (2);
  for (int j = 0; j < G.nn; j++)
    { Node *n = G.n[start ? G.nn - 1 - j : j]; if (n->held) drop (n); }
  vs_run_idle (); check_quiet ("after dropping everything");
  for (int i = 0; i < G.nn; i++)
    {
      Node *n = G.n[i];
      if (n->kind == BLOCK && !(n->disowned)) vs_check (n->destroyed <= 1, "destroy-twice", "node %d", i);
    }
}
static void free_nodes (void) { for (int i = 0; i < G.nn; i++) { g_clear_object (&G.n[i]->c); g_free (G.n[i]); } G.nn = 0; }

static void
warm (void)
{
  static bool done;
  quark = g_quark_from_static_string ("vs-error");
  if (done) return;
  done = true;
  dex_unref (dex_future_new_true ()); dex_unref (dex_future_new_false ());
}
static void
run (Profile p, VsPreempt pre)
{
  P = p;
  warm ();
  vs_begin (pre);
  program ();
  int sets = 0, blocks = 0; for (int i = 0; i < G.nn; i++) { sets += G.n[i]->kind == SET; blocks += G.n[i]->kind == BLOCK; }
  if (sets) vs_label ("has set");
  if (blocks) vs_label ("has callback");
  if (G.cbcount) vs_label ("callback ran");
  if (G.cbcount > 4) vs_label ("many callbacks ran");
  if ((!p.blocks || G.cbcount) && (!p.sets || sets) && G.nn > 4) vs_nontrivial ();
  free_nodes ();
  vs_end ();
}
static void run_b01 (void) { run ((Profile) { .blocks = 1, .sets = 0, .drops = 0, .loops = 3, .cancels = 2, .maxnodes = 24, .ops = 22 }, VS_PREEMPT_NONE); }
static void run_b02 (void) { run ((Profile) { .blocks = 1, .sets = 1, .drops = 1, .loops = 3, .cancels = 2, .disowns = 1, .maxnodes = 24, .ops = 24 }, VS_PREEMPT_NONE); }
static void run_s01 (void) { run ((Profile) { .blocks = 1, .sets = 1, .drops = 0, .loops = 0, .cancels = 2, .dup = 3, .maxnodes = 26, .ops = 26 }, VS_PREEMPT_NONE); }
static void run_s02 (void) { run ((Profile) { .blocks = 1, .sets = 1, .drops = 1, .loops = 1, .cancels = 8, .disowns = 1, .dup = 2, .maxnodes = 20, .ops = 20 }, VS_PREEMPT_NONE); }
static void run_c02 (void) { run ((Profile) { .blocks = 1, .sets = 1, .drops = 0, .loops = 2, .cancels = 3, .dup = 1, .threads = 3, .maxnodes = 26, .ops = 8 }, VS_PREEMPT_AUTO); }
static void run_c02d (void) { run ((Profile) { .blocks = 1, .sets = 1, .drops = 1, .loops = 1, .cancels = 3, .dup = 1, .disowns = 1, .threads = 3, .maxnodes = 26, .ops = 8 }, VS_PREEMPT_AUTO); }

static void
run_l03 (void)
{
  /* the same program three times: the third leaves as many bytes allocated as the second */
  P = (Profile) { .blocks = 1, .sets = 1, .drops = 1, .loops = 2, .cancels = 4, .disowns = 0, .dup = 1, .maxnodes = 22, .ops = 22 };
  warm ();
  vs_begin (VS_PREEMPT_NONE);
  uint32_t pos = vs_tape_pos (); size_t after[6] = { 0 }; int nn = 0;
  for (int r = 0; VS_ROUNDS (after, r); r++)
    {
      if (r) vs_tape_rewind (pos);
      program (); nn = G.nn;
      if (G.cbcount && nn > 4) vs_nontrivial ();
      free_nodes ();
      vs_run_idle ();
      after[r] = vs_heap_bytes ();
    }
  VS_ROUNDS_CHECK (after);
  vs_end ();
}

/* ---------- sets of any size ---------- */
static uint32_t wide_seed;
static uint32_t wrnd (uint32_t n) { wide_seed = wide_seed * 1664525u + 1013904223u; return n > 1 ? (uint32_t)(((uint64_t)(wide_seed >> 8) * n) >> 24) : 0; }
#define R8(k) fs[k], fs[k + 1], fs[k + 2], fs[k + 3], fs[k + 4], fs[k + 5], fs[k + 6], fs[k + 7]
static void
wide_round (void)
{
  int sk = vs_draw (4), n, mode = vs_draw (16), outcomes = vs_draw (3);
  bool variadic = false;
  if (mode < 6) { n = 1 + vs_draw (9); variadic = vs_draw (2); }
  else if (mode < 12) { n = 1 + vs_draw (40); variadic = vs_draw (4); }
  else if (mode < 15 || vs_draw (12)) n = 1 + vs_draw (600);
  else n = 65530 + vs_draw (20);
  wide_seed = vs_draw (1 << 16) * 7919 + 17;
  int dup = vs_draw (4) == 3 ? 1 + vs_draw (8) : 0, pre = vs_draw (3) == 2 ? vs_draw (n + 1) : 0, late = vs_draw (4) == 3 ? vs_draw (n + 1) : n;
  int np = 0; DexPromise **pr = g_new0 (DexPromise *, n); Out *po = g_new0 (Out, n); int *mem = g_new0 (int, n), *cnt = g_new0 (int, n), *ord = g_new0 (int, n);
  DexFuture **fs = g_new0 (DexFuture *, MAX (n + 1, 41));
  for (int i = 0; i < n; i++)
    {
      int k = np && wrnd (16) < (uint32_t)dup ? (int)wrnd (np) : np;
      if (k == np) { ord[np] = np; pr[np++] = dex_promise_new_cancellable (); }
      mem[i] = k; cnt[k]++; fs[i] = DEX_FUTURE (pr[k]);
    }
  for (int i = np - 1; i > 0; i--) { int j = wrnd (i + 1), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
  for (int i = 0; i < np; i++) po[i] = (Out) { outcomes == 0 ? 1 : outcomes == 1 ? 2 : 1 + (int)wrnd (2), 10 + i };
  if (outcomes == 2 && vs_draw (2)) for (int i = 0; i < np; i++) po[i].st = 1 + (i == ord[np - 1]);   /* one differs, the last */
  pre = MIN (pre, np); late = MAX (MIN (late, np), pre);
  vs_log ("%s of %d (%d different, %d completed before), %s, outcomes %d", (const char *[]) { "all", "any", "first", "all_race" }[sk], n, np, pre, variadic ? "variadic" : "array", outcomes);
  for (int i = 0; i < pre; i++) complete_promise (pr[ord[i]], po[ord[i]]);
  DexFuture *set;
  if (variadic)
    {
      DexFuture *(*fn) (DexFuture *, ...) = (DexFuture *(*[]) (DexFuture *, ...)) { dex_future_all, dex_future_any, dex_future_first, dex_future_all_race }[sk];
      for (int i = 0; i < n; i++) dex_ref (fs[i]);
      set = fn (R8 (0), R8 (8), R8 (16), R8 (24), R8 (32), NULL);
    }
  else
    set = (DexFuture *(*[]) (DexFuture *const *, guint)) { dex_future_allv, dex_future_anyv, dex_future_firstv, dex_future_all_racev }[sk] (fs, n);
  vs_check ((int)dex_future_set_get_size (DEX_FUTURE_SET (set)) == n, "set-size", "set has size %u, %d members given", dex_future_set_get_size (DEX_FUTURE_SET (set)), n);
  for (int i = 0; i < n; i++) vs_check (dex_future_set_get_future_at (DEX_FUTURE_SET (set), i) == fs[i], "set-member", "member %d of %d is another future", i, n);
  int ndone = 0, nres = 0, nrej = 0, done = pre; Out winner = { 0 }; bool decided = false; int at = -1;
  for (int i = 0; i < pre; i++)
    { Out o = po[ord[i]]; ndone += cnt[ord[i]]; if (o.st == 1) nres += cnt[ord[i]]; else nrej += cnt[ord[i]]; }
  for (;;)
    {
      /* what the set must be now */
      bool now = decided;
      if (!decided)
        {
          if (sk == ALL) now = ndone == n;
          else if (sk == ANY) now = nres > 0 || ndone == n;
          else if (sk == FIRST) now = ndone > 0;
          else now = nrej > 0 || ndone == n;
        }
      Out got = read_out (set);
      vs_check ((got.st != 0) == now, "set-state", "set of %d with %d complete (%d resolved, %d rejected) is %s", n, ndone, nres, nrej, os (got));
      if (now && !decided)
        {
          decided = true; winner = got; at = done;
          if (sk == ALL) vs_check (nrej == 0 ? got.st == 1 && got.val == TRUEVAL : nres == 0 ? got.st == 2 && got.val == DEPFAIL : got.val == TRUEVAL || got.val == DEPFAIL, "set-value", "all() of %d resolved %d rejected is %s", nres, nrej, os (got));
          else if (sk == ALL_RACE && !nrej) vs_check (got.st == 1 && got.val == TRUEVAL, "set-value", "all_race() of %d resolved is %s", nres, os (got));
          else if (sk == ANY && !nres) vs_check (got.st == 2 && got.val == DEPFAIL, "set-value", "any() of %d rejected is %s", nrej, os (got));
          else
            {
              int k = got.val - 10;
              vs_check (k >= 0 && k < np && eq (po[k], got), "set-value", "set is %s, which no member is", os (got));
              vs_check (sk == FIRST || got.st == (sk == ANY ? 1 : 2), "set-value", "set is %s", os (got));
              bool ok = false; for (int i = done > pre ? done - 1 : 0; i < done; i++) ok |= ord[i] == k;
              vs_check (ok, "set-value", "set is %s, which is not the member that decided it", os (got));
            }
        }
      else if (decided) vs_check (eq (got, winner), "changed", "set changed from %s to %s", os (winner), os (got));
      if (decided && (done == at || done == late))
        for (int i = done; i < np; i++) if (at > pre)
          vs_check (g_cancellable_is_cancelled (dex_promise_get_cancellable (pr[ord[i]])), "not-cancelled", "set of %d is complete after %d, a pending member was not cancelled", n, done);
      if (!decided && (done == late || n < 50))
        for (int i = done; i < np; i++)
          vs_check (!g_cancellable_is_cancelled (dex_promise_get_cancellable (pr[ord[i]])), "wrong-cancel", "set of %d is pending but a member was cancelled", n);
      if (done == late) break;
      int k = ord[done++]; ndone += cnt[k]; if (po[k].st == 1) nres += cnt[k]; else nrej += cnt[k];
      complete_promise (pr[k], po[k]);
    }
  if (decided && n > 8) { vs_nontrivial (); if (variadic) vs_label ("many arguments"); if (n > 255) vs_label ("more than 255"); if (n > 65535) vs_label ("more than 65535"); }
  if (decided)
    for (int i = 0; i < n; i += n > 1000 ? 97 : 1)
      {
        GError *e = NULL; const GValue *v = dex_future_set_get_value_at (DEX_FUTURE_SET (set), i, &e);
        DexFutureStatus st = dex_future_get_status (fs[i]);
        vs_check (!!v == (st == DEX_FUTURE_STATUS_RESOLVED), "set-value", "value at %d", i);
        g_clear_error (&e);
      }
  GCancellable **c = g_new0 (GCancellable *, np);
  for (int i = 0; i < np; i++) c[i] = g_object_ref (dex_promise_get_cancellable (pr[ord[i]]));
  bool setfirst = vs_draw (2);
  if (setfirst) dex_unref (set);
  for (int i = 0; i < np; i++) dex_unref (pr[i]);
  if (!setfirst) dex_unref (set);
  if (!decided)
    for (int i = late; i < np; i++) vs_check (g_cancellable_is_cancelled (c[i]), "not-cancelled", "set of %d was dropped while pending, a pending member was not cancelled", n);
  for (int i = 0; i < np; i++) g_object_unref (c[i]);
  g_free (c); g_free (fs); g_free (mem); g_free (cnt); g_free (ord); g_free (po); g_free (pr);
  vs_objects_check ("set dropped");
}
static void
run_wide (void)
{
  warm ();
  vs_objects_mark ();
  for (int r = 0, k = 1 + vs_draw (3); r < k; r++) wide_round ();
}

VS_HARNESS (h1) = { "graph-callbacks", "random callback/loop programs over promises; non-trivial: more than 4 nodes and at least one callback ran", run_b01, 100 };
VS_HARNESS (h2) = { "graph-destroy", "callback/set programs with dropped and disowned futures; non-trivial: has a set, a callback ran, more than 4 nodes", run_b02, 100 };
VS_HARNESS (h3) = { "graph-sets", "programs of sets over promises, statics, infinite futures, sets and callbacks, duplicates included; non-trivial: has a set and a callback ran", run_s01, 100 };
VS_HARNESS (h4) = { "graph-cancel", "programs over cancellable promises where derived futures complete or are dropped; non-trivial: has a set and a callback ran", run_s02, 100 };
VS_HARNESS (h5) = { "graph-threads", "up to 4 threads attach observers to and complete shared futures under drawn schedules; non-trivial: has a set and a callback ran", run_c02, 60 };
VS_HARNESS (h6) = { "graph-threads-drop", "like graph-threads, threads also drop and disown futures; non-trivial: has a set and a callback ran", run_c02d, 60 };
VS_HARNESS (h7) = { "graph-heap", "each program runs three times, heap bytes must not grow; non-trivial: a callback ran, more than 4 nodes", run_l03, 40 };
VS_HARNESS (h8) = { "sets-wide", "one to three sets of up to 600 members (now and then more than 65535), any constructor, with duplicates, completed in random order; non-trivial: a set of more than 8 members completed", run_wide, 40 };
