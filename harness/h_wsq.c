/* Work-stealing queue: one owner, several thieves, every atomic operation is a
 * schedule point and stores may linger in a per-thread FIFO store buffer (the
 * x86 memory model) until a fence, a locked operation, or a drawn moment. */
#include "vs.h"
#include <stdatomic.h>
#include <string.h>

#define NB 256
typedef struct { void *p; size_t n; char v[16]; } Sb;
typedef struct { Sb e[NB]; int n; } Buf;
static Buf buf[8]; static int mode;        /* 0 sequentially consistent, 1 lazy, 2 random */
static int me (void) { int i = vs_self_id (); return i < 0 || i > 7 ? 0 : i; }
static void drain1 (Buf *b) { if (!b->n) return; memcpy (b->e[0].p, b->e[0].v, b->e[0].n); memmove (b->e, b->e + 1, sizeof (Sb) * --b->n); }
static void flush (void) { Buf *b = &buf[me ()]; while (b->n) drain1 (b); }
static void op_point (void)
{
  vs_point ();
  if (mode == 2) for (int i = 0; i < 8; i++) while (buf[i].n && vs_draw (3) == 0) drain1 (&buf[i]);
}
static void tso_store (void *p, const void *v, size_t n, int order)
{
  op_point ();
  Buf *b = &buf[me ()];
  if (mode == 0) { memcpy (p, v, n); return; }
  if (b->n == NB) drain1 (b);
  Sb *s = &b->e[b->n++]; s->p = p; s->n = n; memcpy (s->v, v, n);
  if (order == memory_order_seq_cst) flush ();
}
static void tso_load (void *p, void *v, size_t n)
{
  op_point ();
  Buf *b = &buf[me ()];
  for (int i = b->n - 1; i >= 0; i--) if (b->e[i].p == p) { memcpy (v, b->e[i].v, n); return; }
  memcpy (v, p, n);
}
#define VT(p) __typeof__ (__c11_atomic_load (p, __ATOMIC_RELAXED))
#undef atomic_store_explicit
#define atomic_store_explicit(p, v, o) ({ VT (p) _v = (v); tso_store ((void *)(p), &_v, sizeof _v, o); })
#undef atomic_store
#define atomic_store(p, v) atomic_store_explicit (p, v, memory_order_seq_cst)
#undef atomic_load_explicit
#define atomic_load_explicit(p, o) ({ VT (p) _v; (void)(o); tso_load ((void *)(p), &_v, sizeof _v); _v; })
#undef atomic_load
#define atomic_load(p) atomic_load_explicit (p, memory_order_seq_cst)
#undef atomic_compare_exchange_strong_explicit
#define atomic_compare_exchange_strong_explicit(p, e, d, o, f) ({ op_point (); flush (); __c11_atomic_compare_exchange_strong (p, e, d, memory_order_seq_cst, memory_order_seq_cst); })
#undef atomic_compare_exchange_weak_explicit
#define atomic_compare_exchange_weak_explicit(p, e, d, o, f) atomic_compare_exchange_strong_explicit (p, e, d, o, f)
#undef atomic_fetch_add_explicit
#define atomic_fetch_add_explicit(p, v, o) ({ op_point (); flush (); __c11_atomic_fetch_add (p, v, memory_order_seq_cst); })
#undef atomic_fetch_sub_explicit
#define atomic_fetch_sub_explicit(p, v, o) ({ op_point (); flush (); __c11_atomic_fetch_sub (p, v, memory_order_seq_cst); })
#undef atomic_exchange_explicit
#define atomic_exchange_explicit(p, v, o) ({ op_point (); flush (); __c11_atomic_exchange (p, v, memory_order_seq_cst); })
#undef atomic_thread_fence
#define atomic_thread_fence(o) do { op_point (); if ((o) == memory_order_seq_cst) flush (); } while (0)
#include "dex-work-stealing-queue-private.h"

#define NOPS 700
typedef struct { char k; int id; int s, e; int th; } Op;    /* u push, o pop, t steal; id -1: nothing */
static Op op[NOPS]; static int nop, now_t, next_id; static DexWorkStealingQueue *Q;
static int got[600];
static void marker (gpointer u) { }
static Op *begin (char k) { Op *o = &op[nop++]; o->k = k; o->th = vs_self_id (); o->s = ++now_t; o->e = 0; o->id = -1; return o; }
static void
took (Op *o, bool r, DexWorkItem *w)
{
  if (r)
    {
      vs_check (w->func == marker, "garbage", "%s returned something never pushed (%p)", o->k == 'o' ? "pop" : "steal", (void *)(gsize)w->func);
      o->id = GPOINTER_TO_INT (w->func_data);
      vs_check (o->id > 0 && o->id <= next_id, "garbage", "returned item %d, only %d were pushed", o->id, next_id);
      vs_log ("%s -> %d", o->k == 'o' ? "pop" : "steal", o->id);
      vs_check (++got[o->id] == 1, "twice", "item %d was handed out twice", o->id);
    }
  else vs_log ("%s -> nothing", o->k == 'o' ? "pop" : "steal");
  o->e = ++now_t;
}
static void do_push (void) { if (nop >= NOPS) return; Op *o = begin ('u'); int id = ++next_id; o->id = id; vs_log ("push %d", id); dex_work_stealing_queue_push (Q, (DexWorkItem) { marker, GINT_TO_POINTER (id) }); o->e = ++now_t; }
static void do_pop (void) { if (nop >= NOPS) return; Op *o = begin ('o'); DexWorkItem w = { 0 }; bool r = dex_work_stealing_queue_pop (Q, &w); took (o, r, &w); }
static void do_steal (void) { if (nop >= NOPS) return; Op *o = begin ('t'); DexWorkItem w = { 0 }; bool r = dex_work_stealing_queue_steal (Q, &w); took (o, r, &w); }
static int nsteal[3];
static gpointer thief (gpointer u) { for (int n = nsteal[GPOINTER_TO_INT (u)]; n > 0; n--) do_steal (); flush (); return NULL; }

static void
run_wsq (void)
{
  static const int caps[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31, 255, 256 };
  memset (buf, 0, sizeof buf); memset (got, 0, sizeof got); nop = now_t = next_id = 0;
  vs_begin (VS_PREEMPT_AUTO);
  mode = 0;
  int cap = caps[vs_draw (G_N_ELEMENTS (caps))];
  Q = dex_work_stealing_queue_new (cap);
  int m = vs_draw (3);
  bool big = vs_draw (8) == 7;
  int nthief = vs_draw (4), nown = big ? 40 + vs_draw (250) : 2 + vs_draw (14), bias = 2 + vs_draw (4);
  for (int i = 0; i < nthief; i++) nsteal[i] = big ? 20 + vs_draw (60) : 1 + vs_draw (6);
  vs_log ("capacity %d mode %d", cap, m);
  /* before the thieves start */
  int pre = vs_draw (big ? 300 : 4);
  for (int i = 0; i < pre; i++) { do_push (); if (i % 7 == 6 && vs_draw (3) == 2) do_pop (); }
  mode = m;
  GThread *t[3];
  for (int i = 0; i < nthief; i++) t[i] = g_thread_new ("thief", thief, GINT_TO_POINTER (i));
  for (int i = 0; i < nown; i++) if ((int)vs_draw (bias) == 1 || (next_id == 0)) { if (vs_draw (4) == 3 && nthief == 0) do_steal (); else do_pop (); } else do_push ();
  flush ();
  for (int i = 0; i < nthief; i++) g_thread_join (t[i]);
  mode = 0;
  int left = 0; for (int i = 1; i <= next_id; i++) left += !got[i];
  vs_check (dex_work_stealing_queue_empty (Q) == (left == 0), "empty", "the queue claims to be %s with %d items left", left ? "empty" : "not empty", left);
  vs_check ((int)dex_work_stealing_queue_size (Q) == left, "size", "size is %d with %d items left", (int)dex_work_stealing_queue_size (Q), left);
  while (left-- > 0 && nop < NOPS) { if (vs_draw (2)) do_steal (); else do_pop (); }
  if (nop < NOPS - 2)
    {
      for (int i = 1; i <= next_id; i++) vs_check (got[i] == 1, "lost", "item %d was never handed out", i);
      DexWorkItem w; vs_check (!dex_work_stealing_queue_pop (Q, &w) && !dex_work_stealing_queue_steal (Q, &w), "garbage", "an empty queue gave an item");
      /* order and empty answers, from the recorded intervals */
      int ps[600], pe[600], ts[600], te[600];
      for (int i = 0; i < nop; i++) if (op[i].id > 0) { if (op[i].k == 'u') { ps[op[i].id] = op[i].s; pe[op[i].id] = op[i].e; } else { ts[op[i].id] = op[i].s; te[op[i].id] = op[i].e; } }
      for (int i = 0; i < nop; i++)
        {
          Op *o = &op[i];
          if (o->k == 'u') continue;
          if (o->id < 0 && o->k == 't')
            { bool other = m != 0; for (int j = 0; j < nop; j++) if (j != i && op[j].k != 'u' && op[j].id > 0 && op[j].s < o->e && op[j].e > o->s) other = true; if (other) continue; }
          for (int y = 1; y <= next_id; y++)
            {
              if (!(pe[y] < o->s && ts[y] > o->e)) continue;      /* y was surely there during the whole call */
              if (o->id < 0) vs_fail ("false-empty", "%s by T%d found nothing while item %d was in the queue", o->k == 'o' ? "pop" : "steal", o->th, y);
              if (o->k == 'o') vs_check (y < o->id, "order", "pop gave item %d although %d was newer", o->id, y);
              else vs_check (y > o->id, "order", "steal gave item %d although %d was older", o->id, y);
            }
        }
      (void)ps; (void)te;
    }
  int steals = 0, pops = 0; for (int i = 0; i < nop; i++) if (op[i].id > 0) { steals += op[i].k == 't'; pops += op[i].k == 'o'; }
  if (next_id > cap) vs_label ("grew");
  if (m) vs_label ("store buffers");
  if (nthief > 1) vs_label ("several thieves");
  if (steals && pops && nthief) vs_nontrivial ();
  dex_work_stealing_queue_unref (Q);
  vs_end ();
}
VS_HARNESS (w1) = { "steal", "an owner pushing and popping and up to 3 thieves, with growth and delayed stores; non-trivial: both the owner and a thief obtained items", run_wsq, 100 };
