/* Channels: a sequential reference model, checked step by step on one thread
 * and by linearisation search for concurrent histories. */
#include "vs.h"
#include <libdex.h>
#include <string.h>

#define MAXI 64
typedef enum { PEND, DONE, CLOSED } St;
/* what the model says about a send / receive / drain */
typedef struct {
  int cap; bool can_send, can_recv;
  int q[MAXI], nq, s[MAXI], ns, r[MAXI], nr;    /* stored, blocked sends, waiting receives */
  St send[MAXI]; int sendlen[MAXI];             /* per item */
  St recv[MAXI]; int got[MAXI];                 /* per receive: item */
} Model;
static int pop (int *a, int *n) { int x = a[0]; memmove (a, a + 1, sizeof *a * --*n); return x; }
static void
m_match (Model *m)
{
  if (m->nq && m->nr)
    { int r = pop (m->r, &m->nr); m->recv[r] = DONE; m->got[r] = pop (m->q, &m->nq); }
}
static void
m_room (Model *m)
{
  while (m->ns && m->nq < m->cap) { int i = pop (m->s, &m->ns); m->q[m->nq++] = i; m->send[i] = DONE; m->sendlen[i] = m->nq; }
}
static void
m_send (Model *m, int i)
{
  if (!m->can_send || !m->can_recv) { m->send[i] = CLOSED; return; }
  m->send[i] = PEND;
  m->s[m->ns++] = i; m_room (m); m_match (m); m_room (m);
}
static void
m_recv (Model *m, int r)
{
  if (!m->can_recv || (!m->can_send && m->nq + m->ns <= m->nr)) { m->recv[r] = CLOSED; return; }
  m->recv[r] = PEND; m->r[m->nr++] = r; m_match (m); m_room (m);
}
static int
m_drain (Model *m, int *items)
{
  int n = 0;
  while (m->nq) items[n++] = pop (m->q, &m->nq);
  m_room (m);
  return n;
}
static void m_close_send (Model *m) { m->can_send = false; while (m->nr > m->nq + m->ns) m->recv[m->r[--m->nr]] = CLOSED; }
static void
m_close_recv (Model *m)
{
  m->can_recv = false;
  while (m->nr) m->recv[m->r[--m->nr]] = CLOSED;
  while (m->ns) m->send[m->s[--m->ns]] = CLOSED;
  m->nq = 0;
}

/* ---- items ---- */
static GQuark quark;
typedef enum { IT_STATIC, IT_PROMISE, IT_LATE, IT_BLOCK } ItKind;
typedef struct {
  ItKind kind; int out;              /* +v int, -v rejection; 0 not yet */
  DexPromise *p; DexFuture *ptr; long seq; bool shared;
  GCancellable *c; int consumer;      /* receive that got it, -1 */
} It;
static It it[MAXI]; static int nit;
typedef struct { DexFuture *f; bool dropped, watched; int cb; } Fut;
static Fut sf[MAXI], rf[MAXI]; static int nrf;       /* by item; by receive */
typedef struct { DexFuture *f; int items[MAXI], n; int recv; bool closed; } Drain;
static Drain dr[MAXI]; static int ndr;
static DexChannel *ch; static Model M; static int depth, nblock; static bool closed_any, was_full, waited, drained, reentered;

static DexFuture *pass_cb (DexFuture *f, gpointer u) { return NULL; }
static DexFuture *
new_item (int i)
{
  It *x = &it[i]; DexFuture *f;
  memset (x, 0, sizeof *x); x->consumer = -1;
  x->kind = vs_draw (4);
  switch (x->kind)
    {
    case IT_STATIC: x->out = vs_draw (2) ? -100 - i : 100 + i; f = x->out > 0 ? dex_future_new_for_int (x->out) : dex_future_new_reject (quark, -x->out, "e"); break;
    case IT_PROMISE: case IT_LATE:
      x->p = x->kind == IT_LATE ? dex_promise_new_cancellable () : dex_promise_new ();
      f = DEX_FUTURE (dex_ref (x->p));
      break;
    default:
      x->p = dex_promise_new ();
      f = dex_future_finally (DEX_FUTURE (dex_ref (x->p)), pass_cb, NULL, NULL);
    }
  x->ptr = f; x->seq = vs_object_seq (f);
  return f;
}
static void
finish_item (int i)
{
  It *x = &it[i];
  if (!x->p || x->out) return;
  x->out = vs_draw (2) ? -100 - i : 100 + i;
  vs_log ("item %d completes with %d", i, x->out);
  if (x->out > 0) dex_promise_resolve_int (x->p, x->out); else dex_promise_reject (x->p, g_error_new (quark, -x->out, "e"));
}
/* 0 pending, else value, -1 closed */
static int
outcome (DexFuture *f)
{
  GError *e = NULL;
  if (dex_future_is_pending (f)) return 0;
  const GValue *v = dex_future_get_value (f, &e);
  if (v)
    {
      if (G_VALUE_HOLDS_UINT (v)) return 1000 + g_value_get_uint (v);
      if (G_VALUE_HOLDS_BOOLEAN (v)) return 5000;
      vs_check (G_VALUE_HOLDS_INT (v), "value", "value of type %s", G_VALUE_TYPE_NAME (v));
      return g_value_get_int (v);
    }
  int c;
  if (e->domain == quark) c = -e->code;
  else if (g_error_matches (e, DEX_ERROR, DEX_ERROR_CHANNEL_CLOSED)) c = -1;
  else if (g_error_matches (e, DEX_ERROR, DEX_ERROR_DEPENDENCY_FAILED)) c = -2;
  else vs_fail ("error", "unexpected error %s", e->message);
  g_error_free (e);
  return c;
}
static int expect_send (Model *m, int i) { return m->send[i] == PEND ? 0 : m->send[i] == CLOSED ? -1 : 1000 + m->sendlen[i]; }
static int expect_recv (Model *m, int r) { return m->recv[r] == PEND ? 0 : m->recv[r] == CLOSED ? -1 : it[m->got[r]].out; }

static void rnd_op (void);
static DexFuture *
watch_cb (DexFuture *f, gpointer u)
{
  int k = GPOINTER_TO_INT (u); bool send = k >= 1000; k %= 1000;
  Fut *x = send ? &sf[k] : &rf[k];
  x->cb++;
  vs_check (x->cb == 1, "twice", "%s %d completed twice", send ? "send" : "receive", k);
  int got = outcome (f), want = send ? expect_send (&M, k) : expect_recv (&M, k);
  vs_check (got == want && got, send ? "wrong-send" : "wrong-receive", "%s %d completed with %d, expected %d", send ? "send" : "receive", k, got, want);
  if (ch && depth < 3 && vs_draw (3) == 0) { depth++; reentered = true; rnd_op (); depth--; }
  return NULL;
}
static void
watch (Fut *x, int k)
{
  x->cb = 0; x->dropped = x->watched = false;
  switch (vs_draw (4))
    {
    case 2: x->watched = true; { DexFuture *f = x->f; x->f = NULL; x->f = dex_future_finally (f, watch_cb, GINT_TO_POINTER (k), NULL); } break;
    case 3: { DexFuture *f = x->f; x->f = NULL; x->dropped = true; dex_unref (f); } break;
    default: break;
    }
}
static int w_drain, w_close, bias;
static void
rnd_op (void)
{
  int which = vs_draw (7 + w_drain + w_close);
  if (bias == 1 && which >= 3 && which <= 5 && vs_draw (3)) which = 0;
  if (bias == 2 && which <= 2 && vs_draw (3)) which = 3;
  switch (which)
    {
    case 0: case 1: case 2:
      if (nit < 30)
        {
          int i = nit++;
          DexFuture *f = new_item (i);
          vs_log ("send %d (%s %d)", i, (const char *[]) { "static", "promise", "cancellable promise", "block" }[it[i].kind], it[i].out);
          memset (&sf[i], 0, sizeof sf[i]);
          m_send (&M, i); was_full |= M.ns > 0;
          DexFuture *s = dex_channel_send (ch, f);
          vs_check (s != NULL, "null", "send gave NULL");
          sf[i].f = s;
          watch (&sf[i], 1000 + i);
        }
      break;
    case 3: case 4: case 5:
      if (nrf < 30)
        {
          int r = nrf++;
          vs_log ("receive %d", r);
          memset (&rf[r], 0, sizeof rf[r]);
          m_recv (&M, r); waited |= M.nr > 0;
          if (M.recv[r] == DONE) it[M.got[r]].consumer = r;
          DexFuture *f = dex_channel_receive (ch);
          vs_check (f != NULL, "null", "receive gave NULL");
          rf[r].f = f;
          watch (&rf[r], r);
        }
      break;
    case 6:
      { int k[MAXI], n = 0; for (int i = 0; i < nit; i++) if (it[i].p && !it[i].out) k[n++] = i; if (n) finish_item (k[vs_draw (n)]); }
      break;
    case 7: case 8: case 9: case 10:
      if (w_drain && ndr < 12 && nrf < 30)
        {
          Drain *d = &dr[ndr++]; memset (d, 0, sizeof *d); d->recv = -1;
          vs_log ("drain %d (%d stored, %d blocked)", ndr - 1, M.nq, M.ns);
          if (!M.can_recv) d->closed = true;
          else if (M.nq == 0) { d->recv = nrf++; memset (&rf[d->recv], 0, sizeof rf[0]); rf[d->recv].dropped = true; m_recv (&M, d->recv); waited |= M.nr > 0; }
          else { drained = true; d->n = m_drain (&M, d->items); }
          d->f = dex_channel_receive_all (ch);
          vs_check (d->f != NULL, "null", "drain gave NULL");
          break;
        }
      /* fall through */
    default:
      if (w_close)
        {
          closed_any = true;
          if (vs_draw (2)) { vs_log ("close send"); m_close_send (&M); dex_channel_close_send (ch); }
          else { vs_log ("close receive"); m_close_recv (&M); dex_channel_close_receive (ch); }
        }
      break;
    }
}
static void
check_all (void)
{
  if (ch)
    {
      vs_check (!!dex_channel_can_send (ch) == M.can_send, "can-send", "can_send is %d", dex_channel_can_send (ch));
      vs_check (!!dex_channel_can_receive (ch) == M.can_recv, "can-receive", "can_receive is %d", dex_channel_can_receive (ch));
    }
  for (int i = 0; i < nit; i++)
    {
      int want = expect_send (&M, i);
      if (sf[i].f) { int got = outcome (sf[i].f); vs_check (got == want, "wrong-send", "send %d is %d, expected %d (0 pending, -1 closed, 1000+length)", i, got, want); }
      if (sf[i].watched && sf[i].f) vs_check (sf[i].cb == (want != 0), "lost-callback", "callback on send %d ran %d times", i, sf[i].cb);
    }
  for (int r = 0; r < nrf; r++)
    {
      int want = expect_recv (&M, r);
      if (rf[r].f) { int got = outcome (rf[r].f); vs_check (got == want, "wrong-receive", "receive %d is %d, expected %d (item %d)", r, got, want, M.recv[r] == DONE ? M.got[r] : -1); }
      if (rf[r].watched && rf[r].f) vs_check (rf[r].cb == (want != 0), "lost-callback", "callback on receive %d ran %d times", r, rf[r].cb);
    }
  for (int k = 0; k < ndr; k++)
    {
      Drain *d = &dr[k];
      if (!d->f) continue;
      int o = outcome (d->f);
      if (d->closed) { vs_check (o == -1, "wrong-drain", "drain %d of a closed channel is %d", k, o); continue; }
      vs_check (DEX_IS_FUTURE_SET (d->f), "wrong-drain", "drain %d is no set", k);
      DexFutureSet *s = DEX_FUTURE_SET (d->f);
      int n = dex_future_set_get_size (s), all = 1;
      if (d->recv >= 0)
        {
          int want = expect_recv (&M, d->recv);
          vs_check (n == 1, "wrong-drain", "drain %d of an empty channel has %d members", k, n);
          int got = outcome (dex_future_set_get_future_at (s, 0));
          vs_check (got == want, "wrong-drain", "drain %d waiting for the next item is %d, expected %d", k, got, want);
          vs_check (o == (want == 0 ? 0 : want < 0 ? -2 : 5000), "wrong-drain", "drain %d ended with %d for %d", k, o, want);
          continue;
        }
      vs_check (n == d->n, "wrong-drain", "drain %d has %d members, %d were stored", k, n, d->n);
      for (int j = 0; j < n; j++)
        {
          DexFuture *m = dex_future_set_get_future_at (s, j);
          vs_check (m == it[d->items[j]].ptr, "wrong-drain", "drain %d member %d is not item %d", k, j, d->items[j]);
          int got = outcome (m); vs_check (got == it[d->items[j]].out, "wrong-drain", "drain %d member %d is %d", k, j, got);
          all &= got != 0;
        }
      vs_check ((o != 0) == all, "wrong-drain", "drain %d is %d", k, o);
    }
  /* items the channel no longer holds and nobody received are gone */
  if (!M.can_recv)
    for (int i = 0; i < nit; i++)
      {
        bool taken = false;
        if (it[i].kind != IT_BLOCK) continue;
        for (int r = 0; r < nrf; r++) taken |= M.recv[r] == DONE && M.got[r] == i;
        for (int k = 0; k < ndr; k++) for (int j = 0; j < dr[k].n; j++) taken |= dr[k].items[j] == i;
        if (!taken) vs_check (vs_object_seq (it[i].ptr) != it[i].seq, "kept", "item %d is still held by a channel closed for receiving", i);
      }
}
static void
finish (void)
{
  int order = vs_draw (3);
  if (order == 0) for (int i = 0; i < nit; i++) finish_item (i);
  if (order != 2) { for (int i = 0; i < nit; i++) dex_clear (&sf[i].f); for (int r = 0; r < nrf; r++) dex_clear (&rf[r].f); for (int k = 0; k < ndr; k++) dex_clear (&dr[k].f); }
  if (ch) { m_close_send (&M); m_close_recv (&M); DexChannel *c = ch; ch = NULL; vs_log ("drop channel"); dex_unref (c); }
  vs_run_idle ();
  check_all ();
  for (int i = 0; i < nit; i++) if (order == 1 && vs_draw (2)) finish_item (i);
  for (int i = 0; i < nit; i++) dex_clear (&sf[i].f);
  for (int r = 0; r < nrf; r++) dex_clear (&rf[r].f);
  for (int k = 0; k < ndr; k++) dex_clear (&dr[k].f);
  for (int i = 0; i < nit; i++) dex_clear (&it[i].p);
  vs_run_idle ();
  vs_objects_check ("after dropping the channel");
}
static void
setup (int cap)
{
  quark = g_quark_from_static_string ("vs-error");
  memset (&M, 0, sizeof M); nit = nrf = ndr = depth = 0;
  closed_any = was_full = waited = drained = reentered = false;
  M.cap = cap ? cap : 1 << 30; M.can_send = M.can_recv = true;
  vs_log ("channel of capacity %d", cap);
  ch = dex_channel_new (cap);
}
static void
seq_once (int drain, int close)
{
  vs_objects_mark ();
  w_drain = drain; w_close = close;
  setup (vs_draw (5));
  int n = 2 + vs_draw (40), per = 1 + vs_draw (3);
  bias = 0;
  for (int i = 0; i < n && ch; i++)
    {
      if (i % 8 == 0) bias = vs_draw (3);
      rnd_op ();
      if (i % per == 0) { vs_run_idle (); check_all (); }
      if (close && vs_draw (30) == 29) { vs_log ("drop channel"); DexChannel *c = ch; ch = NULL; m_close_send (&M); m_close_recv (&M); closed_any = true; dex_unref (c); }
    }
  vs_run_idle (); check_all ();
  finish ();
  if (was_full) vs_label ("a send blocked");
  if (waited) vs_label ("a receive waited");
  if (drained) vs_label ("drained");
  if (closed_any) vs_label ("closed");
  if (reentered) vs_label ("operation from a completion callback");
  if (drain ? drained && was_full : close ? closed_any && (was_full || waited) : was_full && waited) vs_nontrivial ();
}
static void run_seq (int drain, int close) { vs_begin (VS_PREEMPT_NONE); seq_once (drain, close); vs_end (); }
static void run_heap (void) { VS_RUN_ROUNDS (seq_once (3 * vs_draw (2), vs_draw (2))); }
static void run_order (void) { run_seq (0, 0); }
static void run_close (void) { run_seq (vs_draw (2), 1); }
static void run_drain (void) { run_seq (3, vs_draw (2)); }

/* ------------------------------------------------------------------ */
/* concurrent histories                                                */
#define MAXO 16
typedef enum { O_SEND, O_RECV, O_DRAIN, O_CSEND, O_CRECV } OK;
typedef struct { OK k; int id, tid; long start, end; DexFuture *f; int out; int items[MAXO], n; bool set; } Op;
static Op op[MAXO]; static int nop; static long tick; static int opsper;
typedef struct { bool done[MAXO]; bool half[MAXO]; Model m; int ditems[MAXO][MAXO], dn[MAXO]; St dst[MAXO]; } Lin;
static long budget;
static bool
consistent (Lin *l, bool final)
{
  for (int i = 0; i < nop; i++)
    {
      Op *o = &op[i];
      if (!l->done[i]) continue;
      if (o->k == O_SEND)
        {
          int w = expect_send (&l->m, o->id);
          if (w == 0 && !final) continue;
          if (w != o->out) return false;
        }
      else if (o->k == O_RECV || (o->k == O_DRAIN && l->dn[i] == 0 && l->dst[i] != CLOSED))
        {
          int w = expect_recv (&l->m, o->id);
          if (o->k == O_DRAIN && (!o->set || o->n != 1)) return false;
          int got = o->k == O_RECV ? o->out : o->items[0];
          if (w == 0 && !final) continue;
          if (w != got) return false;
        }
      else if (o->k == O_DRAIN)
        {
          if (l->dst[i] == CLOSED) { if (o->set || o->out != -1) return false; continue; }
          if (!o->set || o->n != l->dn[i]) return false;
          for (int j = 0; j < o->n; j++) if (o->items[j] != it[l->ditems[i][j]].out) return false;
        }
    }
  return true;
}
static bool
search (Lin *l, int left)
{
  if (left == 0) return consistent (l, true);
  if (--budget < 0) return true;
  long first_end = 1L << 60;
  for (int i = 0; i < nop; i++) if (!l->done[i] && op[i].end < first_end) first_end = op[i].end;
  for (int i = 0; i < nop; i++)
    {
      Op *o = &op[i];
      if (l->done[i] || o->start > first_end) continue;
      Lin n = *l;
      switch (o->k)
        {
        case O_SEND: m_send (&n.m, o->id); break;
        case O_RECV: m_recv (&n.m, o->id); break;
        case O_CSEND: m_close_send (&n.m); break;
        case O_CRECV: m_close_recv (&n.m); break;
        case O_DRAIN:
          /* either found items and took them, or found none and then received */
          if (n.half[i]) { m_recv (&n.m, o->id); break; }
          if (!n.m.can_recv) { n.dst[i] = CLOSED; break; }
          if (n.m.nq) { n.dn[i] = m_drain (&n.m, n.ditems[i]); n.dst[i] = DONE; break; }
          n.half[i] = true;
          if (search (&n, left)) return true;
          continue;
        }
      n.done[i] = true;
      if (consistent (&n, false) && search (&n, left - 1)) return true;
    }
  return false;
}
static int drains, closes;
static void
thread_ops (void)
{
  for (int j = 0; j < opsper && nop < MAXO; j++)
    {
      int k = vs_draw (4 + drains + closes);
      vs_nopre_push ();
      int i = nop++; Op *o = &op[i]; memset (o, 0, sizeof *o); o->tid = vs_self_id (); o->end = 1L << 60;
      o->k = k < 2 ? O_SEND : k < 4 ? O_RECV : k < 4 + drains ? O_DRAIN : vs_draw (2) ? O_CSEND : O_CRECV;
      DexFuture *item = NULL;
      if (o->k == O_SEND) { o->id = nit++; item = new_item (o->id); }
      else if (o->k == O_RECV || o->k == O_DRAIN) o->id = nrf++;
      vs_nopre_pop ();
      vs_log ("op %d: %s %d", i, (const char *[]) { "send", "receive", "drain", "close send", "close receive" }[o->k], o->id);
      o->start = ++tick;
      switch (o->k)
        {
        case O_SEND: o->f = dex_channel_send (ch, item); break;
        case O_RECV: o->f = dex_channel_receive (ch); break;
        case O_DRAIN: o->f = dex_channel_receive_all (ch); break;
        case O_CSEND: dex_channel_close_send (ch); break;
        case O_CRECV: dex_channel_close_receive (ch); break;
        }
      o->end = ++tick;
    }
}
static gpointer chan_thread (gpointer u) { thread_ops (); dex_unref (u); return NULL; }
static void
read_op (Op *o)
{
  if (!o->f) return;
  o->out = outcome (o->f);
  o->set = o->k == O_DRAIN && DEX_IS_FUTURE_SET (o->f);
  if (o->set) { o->n = dex_future_set_get_size (DEX_FUTURE_SET (o->f)); for (int j = 0; j < o->n && j < MAXO; j++) o->items[j] = outcome (dex_future_set_get_future_at (DEX_FUTURE_SET (o->f), j)); }
}
static void
run_threads (void)
{
  vs_begin (VS_PREEMPT_AUTO);
  vs_objects_mark ();
  setup (vs_draw (4));
  nop = 0; tick = 0;
  drains = vs_draw (3); closes = vs_draw (3) == 2;
  int nt = 1 + vs_draw (3); GThread *t[3];
  opsper = nt == 1 ? 2 + vs_draw (4) : nt == 2 ? 1 + vs_draw (4) : 1 + vs_draw (3);
  Model m0 = M;
  /* something may be there already */
  for (int i = vs_draw (4); i > 0; i--)
    if (vs_draw (2)) { int k = nop++; Op *o = &op[k]; memset (o, 0, sizeof *o); o->id = nit++; o->k = O_SEND; o->start = ++tick; o->f = dex_channel_send (ch, new_item (o->id)); o->end = ++tick; vs_log ("op %d: send %d", k, o->id); }
    else { int k = nop++; Op *o = &op[k]; memset (o, 0, sizeof *o); o->id = nrf++; o->k = O_RECV; o->start = ++tick; o->f = dex_channel_receive (ch); o->end = ++tick; vs_log ("op %d: receive %d", k, o->id); }
  for (int i = 0; i < nt; i++) t[i] = g_thread_new ("chan", chan_thread, dex_ref (ch));
  thread_ops ();
  for (int i = 0; i < nt; i++) g_thread_join (t[i]);
  for (int i = 0; i < nit; i++) finish_item (i);
  vs_run_idle ();
  int pend = 0;
  for (int i = 0; i < nop; i++) { read_op (&op[i]); if (op[i].f && op[i].out == 0) pend++; }
  Lin l; memset (&l, 0, sizeof l); l.m = m0;
  for (int i = 0; i < nit; i++) l.m.send[i] = PEND;
  budget = 300000;
  if (!search (&l, nop))
    {
      for (int i = 0; i < nop; i++)
        {
          Op *o = &op[i]; GString *s = g_string_new (NULL);
          for (int j = 0; j < o->n; j++) g_string_append_printf (s, " %d", o->items[j]);
          vs_log ("  op %d T%d [%ld,%ld] %s %d -> %d%s", i, o->tid, o->start, o->end, (const char *[]) { "send", "receive", "drain", "close send", "close receive" }[o->k], o->id, o->out, s->str);
          g_string_free (s, TRUE);
        }
      vs_fail ("not-linearizable", "no order of the operations explains the outcomes (0 pending, -1 closed, 1000+length for sends, item value)");
    }
  if (budget < 0) vs_label ("search budget exhausted");
  bool overlap = false;
  for (int i = 0; i < nop; i++) for (int j = 0; j < nop; j++) if (op[i].start < op[j].start && op[j].start < op[i].end) overlap = true;
  if (overlap) vs_label ("overlapping operations");
  if (overlap && nop > 3) vs_nontrivial ();
  /* the last reference goes: nothing may stay pending */
  dex_unref (ch); ch = NULL;
  vs_run_idle ();
  for (int i = 0; i < nop; i++)
    {
      if (!op[i].f) continue;
      int was = op[i].out, now = outcome (op[i].f);
      vs_check (now != 0, "pending", "op %d is pending although the channel is gone", i);
      vs_check (was == 0 ? now == -1 || now == -2 : was == now, "changed", "op %d was %d and is %d after the channel went", i, was, now);
    }
  for (int i = 0; i < nop; i++) dex_clear (&op[i].f);
  for (int i = 0; i < nit; i++) dex_clear (&it[i].p);
  vs_run_idle ();
  vs_objects_check ("after dropping the channel");
  vs_end ();
}
VS_HARNESS (k1) = { "channel-order", "sends and receives of static, pending and derived items on channels of capacity 1-4 or unlimited, with callbacks that operate on the channel; non-trivial: some send blocked and some receive waited", run_order, 80 };
VS_HARNESS (k2) = { "channel-close", "the same plus closing either side and dropping the channel; non-trivial: closed while a send had blocked or a receive had waited", run_close, 80 };
VS_HARNESS (k3) = { "channel-drain", "the same plus draining; non-trivial: drained after a send had blocked", run_drain, 80 };
VS_HARNESS (k5) = { "channel-heap", "channel histories run several times over, heap bytes must not grow; non-trivial: a send blocked and a receive waited, or the channel was drained or closed while one did", run_heap, 40 };
VS_HARNESS (k4) = { "channel-threads", "2-4 threads send, receive, drain and close one channel; the outcomes must be explained by some order of the operations; non-trivial: more than 3 operations, some overlapping in time", run_threads, 60 };
