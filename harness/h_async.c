/* Bridging callback-style operations: DexAsyncPair and DexAsyncResult. */
#include "vs.h"
#include <libdex.h>
#include <string.h>
extern GType dex_fiber_get_type (void);

/* ================= an object to operate on, and a result ================= */
typedef struct { GObject parent; int id; } VsInst;
typedef struct { GObjectClass parent; } VsInstClass;
GType vs_inst_get_type (void);
G_DEFINE_TYPE (VsInst, vs_inst, G_TYPE_OBJECT)
static int inst_alive; static bool inst_dead[64];
static void vs_inst_finalize (GObject *o) { VsInst *i = (VsInst *)o; inst_alive--; if (i->id >= 0) inst_dead[i->id] = true; G_OBJECT_CLASS (vs_inst_parent_class)->finalize (o); }
static void vs_inst_class_init (VsInstClass *k) { G_OBJECT_CLASS (k)->finalize = vs_inst_finalize; }
static void vs_inst_init (VsInst *i) { i->id = -1; inst_alive++; }

typedef struct { GObject parent; gpointer op; } VsRes;
typedef struct { GObjectClass parent; } VsResClass;
GType vs_res_get_type (void);
static gpointer res_user_data (GAsyncResult *r) { return NULL; }
static GObject *res_source (GAsyncResult *r) { return NULL; }
static void res_iface (GAsyncResultIface *i) { i->get_user_data = res_user_data; i->get_source_object = res_source; }
G_DEFINE_TYPE_WITH_CODE (VsRes, vs_res, G_TYPE_OBJECT, G_IMPLEMENT_INTERFACE (G_TYPE_ASYNC_RESULT, res_iface))
static void vs_res_class_init (VsResClass *k) {}
static void vs_res_init (VsRes *r) {}

static GType enum_type, flags_type;
static void
types_init (void)
{
  static const GEnumValue ev[] = { { -7, "A", "a" }, { 0, "B", "b" }, { 1 << 30, "C", "c" }, { 0 } };
  static const GFlagsValue fv[] = { { 1, "X", "x" }, { 1u << 31, "Y", "y" }, { 0 } };
  if (!enum_type) { enum_type = g_enum_register_static ("VsEnum", ev); flags_type = g_flags_register_static ("VsFlags", fv); }
  g_type_class_unref (g_type_class_ref (vs_inst_get_type ())); g_type_class_unref (g_type_class_ref (vs_res_get_type ()));
}

/* ================= values ================= */
enum { K_BOOL, K_INT, K_UINT, K_INT64, K_UINT64, K_LONG, K_ULONG, K_STRING, K_POINTER, K_OBJECT, K_ENUM, K_FLAGS, K_BYTES, K_STRV, K_NSUP, K_VARIANT = K_NSUP, K_DOUBLE, K_INSTTYPE, NK };
static const char *kname[NK] = { "boolean", "int", "uint", "int64", "uint64", "long", "ulong", "string", "pointer", "object", "enum", "flags", "bytes", "strv", "variant", "double", "object subclass" };
static GType
ktype (int k)
{
  switch (k)
    {
    case K_BOOL: return G_TYPE_BOOLEAN; case K_INT: return G_TYPE_INT; case K_UINT: return G_TYPE_UINT; case K_INT64: return G_TYPE_INT64; case K_UINT64: return G_TYPE_UINT64;
    case K_LONG: return G_TYPE_LONG; case K_ULONG: return G_TYPE_ULONG; case K_STRING: return G_TYPE_STRING; case K_POINTER: return G_TYPE_POINTER; case K_OBJECT: return G_TYPE_OBJECT;
    case K_ENUM: return enum_type; case K_FLAGS: return flags_type; case K_BYTES: return G_TYPE_BYTES; case K_STRV: return G_TYPE_STRV; case K_VARIANT: return G_TYPE_VARIANT; case K_DOUBLE: return G_TYPE_DOUBLE;
    default: return vs_inst_get_type ();
    }
}
static guint64
gen_bits (void)
{
  static const guint64 e[] = { 0, 1, (guint64)-1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, G_MAXINT64, 0x8000000000000000ull, 255, 256, 65536 };
  return vs_draw (2) ? vs_draw64 () : e[vs_draw (G_N_ELEMENTS (e))];
}
static guint32 ebits (int k, guint64 b) { static const int ev[] = { 0, -7, 1 << 30 }; return k == K_ENUM ? (guint32)ev[b % 3] : (guint32)b & 0x80000001u; }
static char *str_of (guint64 b) { return b % 5 == 4 ? NULL : g_strdup_printf ("%lx", (long)b); }
static char **strv_of (guint64 b) { if (b % 5 == 4) return NULL; char **v = g_new0 (char *, 4); for (guint i = 0; i < b % 4; i++) v[i] = g_strdup_printf ("%lx", (long)b + i); return v; }
static GBytes *bytes_of (guint64 b) { return b % 5 == 4 ? NULL : g_bytes_new (&b, 1 + b % 8); }
static void
check_value (const GValue *v, int k, guint64 b, GObject *obj, const char *what, int i)
{
  GType want = ktype (k);
  vs_check (G_VALUE_TYPE (v) == want || ((k == K_OBJECT || k == K_INSTTYPE) && G_VALUE_HOLDS_OBJECT (v)), "type", "%s %d holds a %s instead of a %s", what, i, G_VALUE_TYPE_NAME (v), g_type_name (want));
  bool ok = true;
  switch (k)
    {
    case K_BOOL: ok = g_value_get_boolean (v) == (gboolean)(b & 1); break;
    case K_INT: ok = g_value_get_int (v) == (int)b; break;
    case K_UINT: ok = g_value_get_uint (v) == (guint)b; break;
    case K_INT64: ok = g_value_get_int64 (v) == (gint64)b; break;
    case K_UINT64: ok = g_value_get_uint64 (v) == b; break;
    case K_LONG: ok = g_value_get_long (v) == (glong)b; break;
    case K_ULONG: ok = g_value_get_ulong (v) == (gulong)b; break;
    case K_STRING: { char *s = str_of (b); ok = !g_strcmp0 (g_value_get_string (v), s); g_free (s); break; }
    case K_POINTER: ok = g_value_get_pointer (v) == (gpointer)b; break;
    case K_OBJECT: case K_INSTTYPE: ok = g_value_get_object (v) == (gpointer)obj; break;
    case K_ENUM: ok = (guint32)g_value_get_enum (v) == ebits (k, b); break;
    case K_FLAGS: ok = g_value_get_flags (v) == ebits (k, b); break;
    case K_BYTES: { GBytes *x = bytes_of (b), *y = g_value_get_boxed (v); ok = !x == !y && (!x || g_bytes_equal (x, y)); if (x) g_bytes_unref (x); break; }
    case K_STRV: { char **x = strv_of (b), **y = g_value_get_boxed (v); ok = !x == !y && (!x || g_strv_equal ((const char *const *)x, (const char *const *)y)); g_strfreev (x); break; }
    case K_VARIANT: { GVariant *x = g_value_get_variant (v); ok = x && g_variant_is_of_type (x, G_VARIANT_TYPE_UINT64) && g_variant_get_uint64 (x) == b; break; }
    case K_DOUBLE: ok = g_value_get_double (v) == (double)(gint64)b; break;
    }
  vs_check (ok, "value", "%s %d of type %s has the wrong value", what, i, kname[k]);
}

/* ================= start/finish pairs ================= */
enum { S_SYNC, S_IDLE, S_THREAD, S_SCRIPT, S_ONCANCEL, S_RETURN, NS_ };
static const char *sname[] = { "inside start", "idle", "thread", "later", "when cancelled", "returning by hand" };
#define NP 6
#define ND 0x5eed
typedef struct
{
  int id, k, mode, code; bool fail; guint64 bits; VsInst *inst; bool null_inst, inst_held; GObject *obj;
  GAsyncReadyCallback cb; gpointer data; GCancellable *c; gulong handler; GThread *th; VsRes *res; guint idle;
  int started, finished, called; bool cancelled_at_call;
  DexFuture *f, *aw[2], *setp; int live; bool awlive[2]; int blk; bool keep, may_cancel, must_cancel, user_cancel, racy, blkdrop;
} Pair;
static struct { Pair p[NP]; int n; bool threads; } Q;
static __thread Pair *starting;
static bool complete (Pair *p) { return p->called > 0; }

static void
finish_common (Pair *p, gpointer inst, GAsyncResult *r, GError **error)
{
  p->finished++;
  vs_check (inst == (p->null_inst ? NULL : (gpointer)p->inst), "instance", "finish of operation %d got another instance", p->id);
  vs_check (r == (GAsyncResult *)p->res, "result", "finish of operation %d got another result", p->id);
  vs_check (p->null_inst || !inst_dead[p->id], "instance-dead", "the instance of operation %d is gone when it finishes", p->id);
  if (p->fail) g_set_error (error, ND, p->code, "planned %d", p->code);
}
#define FIN(name, type, expr) static type name (gpointer i, GAsyncResult *r, GError **e) { Pair *p = ((VsRes *)r)->op; finish_common (p, i, r, e); guint64 b = p->bits; if (p->fail) return (type)0; return expr; }
FIN (fin_bool, gboolean, (gboolean)(b & 1))
FIN (fin_int, int, (int)b)
FIN (fin_uint, guint, (guint)b)
FIN (fin_int64, gint64, (gint64)b)
FIN (fin_uint64, guint64, b)
FIN (fin_long, glong, (glong)b)
FIN (fin_ulong, gulong, (gulong)b)
FIN (fin_string, char *, str_of (b))
FIN (fin_pointer, gpointer, (gpointer)b)
FIN (fin_object, gpointer, p->obj ? g_object_ref (p->obj) : NULL)
FIN (fin_enum, guint, ebits (K_ENUM, b))
FIN (fin_flags, guint, ebits (K_FLAGS, b))
FIN (fin_bytes, gpointer, bytes_of (b))
FIN (fin_strv, gpointer, strv_of (b))
FIN (fin_double, double, (double)(gint64)b)
static gpointer finishers[NK] = { fin_bool, fin_int, fin_uint, fin_int64, fin_uint64, fin_long, fin_ulong, fin_string, fin_pointer, fin_object, fin_enum, fin_flags, fin_bytes, fin_strv, fin_pointer, fin_double, fin_object };

static GQuark g_nd;
static void
fire (Pair *p)
{
  if (p->called) return;
  p->called = 1;
  p->cancelled_at_call = g_cancellable_is_cancelled (p->c);
  vs_log ("operation %d ends (%s)%s", p->id, sname[p->mode], p->cancelled_at_call ? " after it was cancelled" : "");
  if (p->mode == S_RETURN)
    {
      DexAsyncPair *ap = p->data; guint64 b = p->bits;
      if (p->fail) dex_async_pair_return_error (ap, g_error_new (ND, p->code, "planned"));
      else switch (p->k)
        {
        case K_BOOL: dex_async_pair_return_boolean (ap, b & 1); break;
        case K_INT64: dex_async_pair_return_int64 (ap, b); break;
        case K_UINT64: dex_async_pair_return_uint64 (ap, b); break;
        case K_STRING: dex_async_pair_return_string (ap, str_of (b)); break;
        case K_BYTES: dex_async_pair_return_boxed (ap, G_TYPE_BYTES, bytes_of (b)); break;
        case K_STRV: dex_async_pair_return_boxed (ap, G_TYPE_STRV, strv_of (b)); break;
        case K_VARIANT: dex_async_pair_return_variant (ap, g_variant_ref_sink (g_variant_new_uint64 (b))); break;
        default: dex_async_pair_return_object (ap, g_object_ref (p->obj)); break;
        }
      dex_unref (ap);
      return;
    }
  VsRes *r = p->res = g_object_new (vs_res_get_type (), NULL);
  r->op = p;
  p->cb (p->null_inst ? NULL : (GObject *)p->inst, (GAsyncResult *)r, p->data);
  p->res = NULL;
  g_object_unref (r);
}
static gboolean idle_fire (gpointer u) { Pair *p = u; p->idle = 0; fire (p); return G_SOURCE_REMOVE; }
static gpointer thread_fire (gpointer u) { vs_point (); fire (u); return NULL; }
static void on_cancel (GCancellable *c, gpointer u) { Pair *p = u; vs_log ("operation %d sees the cancellation", p->id); fire (p); }
static void
start_fn (gpointer inst, GCancellable *c, GAsyncReadyCallback cb, gpointer data)
{
  Pair *p = starting;
  vs_check (p && !p->started++, "start", "start called twice");
  vs_check (inst == (p->null_inst ? NULL : (gpointer)p->inst), "instance", "start of operation %d got another instance", p->id);
  vs_check (G_IS_CANCELLABLE (c) && !g_cancellable_is_cancelled (c), "cancellable", "operation %d started with a cancelled or no cancellable", p->id);
  p->cb = cb; p->data = data; p->c = g_object_ref (c);
  switch (p->mode)
    {
    case S_SYNC: fire (p); break;
    case S_IDLE: p->idle = g_idle_add (idle_fire, p); break;
    case S_ONCANCEL: p->handler = g_signal_connect (c, "cancelled", G_CALLBACK (on_cancel), p); break;
    default: break;
    }
}
static DexFuture *pair_blk (DexFuture *f, gpointer u) { Pair *p = u; p->blk++; vs_check (!dex_future_is_pending (f), "pending", "callback of operation %d ran with a pending future", p->id); return NULL; }
static void
new_pair (void)
{
  int i = Q.n++; Pair *p = &Q.p[i]; memset (p, 0, sizeof *p);
  p->id = i; p->mode = vs_draw (NS_); p->k = vs_draw (NK); p->fail = vs_draw (3) == 2; p->code = vs_draw (3) ? vs_draw (100) : (int)vs_draw64 (); p->bits = gen_bits (); p->null_inst = vs_draw (6) == 5;
  if (p->mode == S_THREAD && !Q.threads) p->mode = S_SCRIPT;
  if (p->mode == S_RETURN && (p->k == K_INT || p->k == K_UINT || p->k == K_LONG || p->k == K_ULONG || p->k == K_POINTER || p->k == K_ENUM || p->k == K_FLAGS || p->k == K_DOUBLE)) p->k = K_INT64;
  inst_dead[i] = false;
  if (!p->null_inst) { p->inst = g_object_new (vs_inst_get_type (), NULL); p->inst->id = i; p->inst_held = true; }
  if (p->k == K_OBJECT || p->k == K_INSTTYPE) if (p->mode == S_RETURN || p->bits % 5 != 4) p->obj = g_object_new (vs_inst_get_type (), NULL);
  DexAsyncPairInfo info = DEX_ASYNC_PAIR_INFO (start_fn, finishers[p->k], ktype (p->k));
  vs_log ("operation %d: %s%s ends %s%s", i, p->fail ? "failing " : "", kname[p->k], sname[p->mode], p->null_inst ? ", no instance" : "");
  starting = p;
  p->f = dex_async_pair_new (p->inst, &info);
  starting = NULL;
  memset (&info, 0x5a, sizeof info);
  vs_check (p->f && p->started == 1, "start", "operation %d was started %d times", i, p->started);
  vs_check (dex_async_pair_get_cancellable ((DexAsyncPair *)p->f) == p->c, "cancellable", "operation %d has another cancellable", i);
  vs_check (dex_future_is_pending (p->f) == !complete (p), "state", "operation %d is %s right after start", i, complete (p) ? "pending although it ended" : "complete although it did not end");
  p->keep = true;
  if (vs_draw (4) == 3) { p->keep = false; vs_log ("keep %d going when discarded", i); dex_async_pair_set_cancel_on_discard ((DexAsyncPair *)p->f, FALSE); if (vs_draw (3) == 2) { p->keep = true; dex_async_pair_set_cancel_on_discard ((DexAsyncPair *)p->f, TRUE); } }
  int w = vs_draw (4);
  if (w & 1) { p->aw[0] = dex_future_finally (dex_ref (p->f), pair_blk, p, NULL); }
  if (w & 2) { p->setp = (DexFuture *)dex_promise_new (); p->aw[1] = vs_draw (2) ? dex_future_first (dex_ref (p->f), dex_ref (p->setp), NULL) : dex_future_any (dex_ref (p->f), dex_ref (p->setp), NULL); }
  for (int k = 0; k < 2; k++) if (p->aw[k]) { p->awlive[k] = !complete (p); p->live += p->awlive[k]; }
  if (!p->null_inst && vs_draw (2)) { p->inst_held = false; g_object_unref (p->inst); vs_check (!inst_dead[i] || complete (p), "instance-dead", "the instance of operation %d is gone while it runs", i); }
}
static void
lose (Pair *p, int k)
{
  if (!p->awlive[k]) return;
  p->awlive[k] = false;
  if (--p->live == 0) { if (p->keep) { p->may_cancel = true; if (!complete (p) && !Q.threads) p->must_cancel = true; } vs_log ("nobody awaits %d any more", p->id); }
}
static void drop_aw (Pair *p, int k) { if (!p->aw[k]) return; vs_log ("drop awaiter %d of %d", k, p->id); if (k == 0) p->blkdrop = true; DexFuture *f = p->aw[k]; p->aw[k] = NULL; lose (p, k); dex_unref (f); }
static void
step_pair (int what, Pair *p)
{
  switch (what)
    {
    case 0: if (p->mode != S_IDLE && p->mode != S_THREAD && p->mode != S_SYNC) fire (p); break;
    case 1: drop_aw (p, 0); break;
    case 2: drop_aw (p, 1); break;
    case 3: if (p->setp && dex_future_is_pending (p->setp)) { vs_log ("promise of %d", p->id); lose (p, 1); dex_promise_resolve_boolean ((DexPromise *)p->setp, TRUE); } break;
    case 4: if (p->f) { vs_log ("drop future %d", p->id); DexFuture *f = p->f; p->f = NULL; dex_unref (f); } break;
    case 5: if (p->f) { vs_log ("cancel %d by hand", p->id); p->user_cancel = p->may_cancel = true; if (!Q.threads) p->must_cancel = true; g_cancellable_cancel (p->c); } break;
    case 6: if (p->f) { p->keep = !p->keep; vs_log ("cancel on discard of %d: %d", p->id, p->keep); dex_async_pair_set_cancel_on_discard ((DexAsyncPair *)p->f, p->keep); } break;
    default: break;
    }
}
static void
check_pair (Pair *p, bool settled)
{
  bool canc = g_cancellable_is_cancelled (p->c);
  if (p->must_cancel) vs_check (canc, "not-cancelled", "operation %d was not cancelled although nobody awaits it", p->id);
  if (!p->may_cancel) vs_check (!canc, "cancelled", "operation %d was cancelled although %s", p->id, p->live ? "it is still awaited" : "cancel-on-discard was off or nobody had awaited it");
  if (!complete (p) && !p->null_inst) vs_check (!inst_dead[p->id], "instance-dead", "the instance of operation %d is gone while it runs", p->id);
  if (!p->f) return;
  vs_check (dex_future_is_pending (p->f) == !complete (p), "state", "the future of operation %d is %s", p->id, complete (p) ? "pending although it ended" : "complete although it did not end");
  if (complete (p))
    {
      GError *e = NULL; const GValue *v = dex_future_get_value (p->f, &e);
      if (p->mode != S_RETURN && (p->cancelled_at_call || p->racy) && !(v || (e->domain == ND)))
        {
          if (!p->cancelled_at_call && canc) ;
          else vs_check (p->cancelled_at_call || p->k >= K_NSUP, "outcome", "operation %d ended with %s", p->id, e->message);
        }
      if (p->mode != S_RETURN && p->cancelled_at_call)
        vs_check (!v && e->domain == G_IO_ERROR && e->code == G_IO_ERROR_CANCELLED, "outcome", "operation %d ended after a cancellation but its future has %s", p->id, v ? "a value" : e->message);
      else if (p->mode != S_RETURN && p->k >= K_NSUP)
        vs_check (!v && ((e->domain == DEX_ERROR && e->code == DEX_ERROR_TYPE_NOT_SUPPORTED) || (canc && e->domain == G_IO_ERROR && e->code == G_IO_ERROR_CANCELLED)), "outcome", "operation %d of an unsupported type has %s", p->id, v ? "a value" : e->message);
      else if (canc && p->mode != S_RETURN && Q.threads && !v && e->domain == G_IO_ERROR && e->code == G_IO_ERROR_CANCELLED) ;
      else if (p->fail) vs_check (!v && e->domain == ND && e->code == p->code, "outcome", "operation %d failed with code %d but its future has %s", p->id, p->code, v ? "a value" : e->message);
      else { vs_check (v != NULL, "outcome", "operation %d succeeded but its future has %s", p->id, e->message); check_value (v, p->k, p->bits, p->obj, "operation", p->id); }
      g_clear_error (&e);
      if (settled && p->aw[0]) vs_check (p->blk == 1 && !dex_future_is_pending (p->aw[0]), "callback", "callback on operation %d ran %d times", p->id, p->blk);
    }
}
static void
end_pairs (void)
{
  int n[3] = { 0 };
  for (int i = 0; i < Q.n; i++) { Pair *p = &Q.p[i]; if (!complete (p) && p->mode != S_IDLE && p->mode != S_THREAD) fire (p); }
  vs_run_idle ();
  for (int i = 0; i < Q.n; i++)
    {
      Pair *p = &Q.p[i];
      vs_check (p->called == 1 || p->mode == S_ONCANCEL, "harness", "operation %d ended %d times", i, p->called);
      check_pair (p, true);
      if (!Q.threads) vs_check (p->finished == (p->mode != S_RETURN && !p->cancelled_at_call && p->k < K_NSUP), "finish", "finish of operation %d was called %d times", i, p->finished);
      vs_check (p->finished <= 1, "finish", "finish of operation %d was called %d times", i, p->finished);
      n[0] += p->cancelled_at_call; n[1] += p->mode == S_SYNC; n[2] += p->live > 0 || p->blk;
      if (p->handler) g_signal_handler_disconnect (p->c, p->handler);
      for (int k = 0; k < 2; k++) dex_clear (&p->aw[k]);
      dex_clear (&p->setp); dex_clear (&p->f);
    }
  vs_run_idle ();
  vs_objects_check ("after dropping the futures");
  for (int i = 0; i < Q.n; i++)
    {
      Pair *p = &Q.p[i];
      if (p->inst_held) { vs_check (G_OBJECT (p->inst)->ref_count == 1, "leak", "the instance of operation %d has %d references", i, G_OBJECT (p->inst)->ref_count); g_object_unref (p->inst); }
      if (p->obj) { vs_check (p->obj->ref_count == 1, "leak", "the result of operation %d has %d references", i, p->obj->ref_count); g_object_unref (p->obj); }
      vs_check (G_OBJECT (p->c)->ref_count == 1, "leak", "the cancellable of operation %d has %d references", i, G_OBJECT (p->c)->ref_count);
      g_object_unref (p->c);
    }
  vs_check (inst_alive == 0, "leak", "%d objects left", inst_alive);
  if (n[0]) vs_label ("ended after a cancellation"); if (n[1]) vs_label ("ended inside start"); if (Q.n > 1 && n[2]) vs_nontrivial ();
}
static void
run_pairs (void)
{
  types_init (); g_nd = ND; inst_alive = 0;
  vs_begin (VS_PREEMPT_NONE);
  vs_objects_mark ();
  size_t h[6] = { 0 }; uint32_t pos = vs_tape_pos ();
  for (int r = 0; VS_ROUNDS (h, r); r++)
    {
      vs_log ("round %d", r);
      vs_tape_rewind (pos);
      memset (&Q, 0, sizeof Q);
      int steps = 2 + vs_draw (24);
      for (int s = 0; s < steps; s++)
        {
          int what = vs_draw (10);
          if (what > 7 || !Q.n) { if (Q.n < NP) new_pair (); }
          else if (what == 7) vs_run_idle ();
          else step_pair (what, &Q.p[vs_draw (Q.n)]);
          for (int i = 0; i < Q.n; i++) check_pair (&Q.p[i], false);
        }
      end_pairs ();
      h[r] = vs_heap_bytes ();
    }
  VS_ROUNDS_CHECK (h);
  vs_end ();
}
typedef struct { int n, what[8], who[8]; } PHelp;
static gpointer pair_helper (gpointer u) { PHelp *h = u; for (int i = 0; i < h->n; i++) step_pair (h->what[i], &Q.p[h->who[i]]); return NULL; }
static void
run_pairs_threads (void)
{
  types_init (); inst_alive = 0;
  memset (&Q, 0, sizeof Q); Q.threads = true;
  vs_begin (VS_PREEMPT_AUTO);
  vs_objects_mark ();
  int n = 1 + vs_draw (3);
  for (int i = 0; i < n; i++) new_pair ();
  int nh = 1 + vs_draw (2); PHelp h[2]; GThread *t[2];
  /* each thread drops what is its own */
  static const int mine[3][5] = { { 1, 4, 6, 5, 0 }, { 2, 2, 3, 0, 0 }, { 3, 0, 3, 0, 0 } };
  for (int k = 0; k < nh; k++) { h[k].n = 1 + vs_draw (5); for (int j = 0; j < h[k].n; j++) { h[k].what[j] = mine[1 + k][vs_draw (3)]; h[k].who[j] = vs_draw (n); } }
  for (int k = 0; k < n; k++) { Q.p[k].racy = true; if (Q.p[k].aw[0] || Q.p[k].aw[1]) Q.p[k].may_cancel = true; if (Q.p[k].mode == S_THREAD) Q.p[k].th = g_thread_new ("op", thread_fire, &Q.p[k]); }
  for (int k = 0; k < nh; k++) t[k] = g_thread_new ("helper", pair_helper, &h[k]);
  for (int s = vs_draw (6); s > 0; s--) { int w = vs_draw (6); if (w == 5) vs_run_idle (); else step_pair (mine[0][w % 3], &Q.p[vs_draw (n)]); }
  for (int k = 0; k < nh; k++) g_thread_join (t[k]);
  for (int k = 0; k < n; k++) if (Q.p[k].th) g_thread_join (Q.p[k].th);
  /* who lost every awaiter before it ended must have been cancelled; which it was is not known here */
  end_pairs ();
  vs_end ();
}

/* ================= asynchronous results ================= */
#define NR 5
enum { A_INT, A_UINT, A_INT64, A_UINT64, A_LONG, A_ULONG, A_DOUBLE, A_FLOAT, A_BOOL, A_OBJECT, A_BYTES, A_VARIANT, A_POINTER, A_ERROR, A_NULLOBJ, NA };
static const char *aname[] = { "int", "uint", "int64", "uint64", "long", "ulong", "double", "float", "boolean", "object", "bytes", "variant", "pointer", "error", "no object" };
typedef struct
{
  int id, creator, k, code, awaiter, resolver; bool pre, has_src, has_canc, cancel_it, nocb, keep; guint64 bits;
  DexAsyncResult *res; VsInst *src; GCancellable *canc; DexPromise *p; GObject *obj; GMainContext *ctx;
  int calls, in_await; bool due, awaited, resolved, cancelled, got_cancelled, must_cancel, drop_early; GAsyncResult *kept; int prio; char *name; int freed; bool owns; guint64 mem;
} Res;
static struct { Res r[NR]; int n; bool ready, helped, one; int nt1; } W;
static void
check_outcome (Res *r, GAsyncResult *res, const char *when)
{
  DexAsyncResult *d = (DexAsyncResult *)res; GError *e = NULL; guint64 b = r->bits; bool ok = true; char what[64] = "";
  int k = r->k;
  switch (k)
    {
    case A_INT: case A_UINT: case A_INT64: case A_UINT64: case A_LONG: case A_ULONG: { gssize v = dex_async_result_propagate_int (d, &e), w = k == A_INT ? (gssize)(int)b : k == A_UINT ? (gssize)(guint)b : (gssize)b; if (!e) { ok = v == w; g_snprintf (what, sizeof what, "%ld instead of %ld", (long)v, (long)w); } else ok = !v; break; }
    case A_DOUBLE: case A_FLOAT: { double v = dex_async_result_propagate_double (d, &e), w = k == A_DOUBLE ? (double)(gint64)b : (double)(float)(gint64)b; ok = e ? v == 0 : v == w; break; }
    case A_BOOL: { gboolean v = dex_async_result_propagate_boolean (d, &e); ok = e ? !v : v == (gboolean)(b & 1); break; }
    case A_ERROR: { if (b & 1) ok = !dex_async_result_propagate_boolean (d, &e); else ok = !dex_async_result_propagate_pointer (d, &e); break; }
    default:
      {
        gpointer v = dex_async_result_propagate_pointer (d, &e);
        if (e) ok = !v;
        else if (k == A_OBJECT) { ok = v == r->obj; if (v) g_object_unref (v); }
        else if (k == A_NULLOBJ) ok = v == NULL;
        else if (k == A_BYTES) { GBytes *x = g_bytes_new (&b, sizeof b); ok = v && g_bytes_equal (v, x); g_bytes_unref (x); if (v) g_bytes_unref (v); }
        else if (k == A_VARIANT) { ok = v && g_variant_get_uint64 (v) == b; if (v) g_variant_unref (v); }
        else ok = v == (gpointer)b;
      }
    }
  if (e)
    {
      bool canc = r->cancelled && e->domain == G_IO_ERROR && e->code == G_IO_ERROR_CANCELLED;
      if (canc) r->got_cancelled = true;
      else vs_check (k == A_ERROR && e->domain == ND && e->code == r->code, "outcome", "result %d (%s) gives the error %s %d %s", r->id, aname[k], g_quark_to_string (e->domain), e->code, when);
      vs_check (ok, "outcome", "result %d gives a value and an error %s", r->id, when);
      vs_check (canc || r->resolved, "early", "result %d gives an error before its future ended", r->id);
      g_error_free (e);
    }
  else
    {
      vs_check (k != A_ERROR && !r->got_cancelled, "outcome", "result %d gives no error %s", r->id, when);
      vs_check (ok, "outcome", "result %d (%s) gives the wrong value %s %s", r->id, aname[k], when, what);
      vs_check (r->resolved, "early", "result %d gives a value before its future ended", r->id);
    }
}
static void
result_cb (GObject *src, GAsyncResult *res, gpointer u)
{
  Res *r = u;
  vs_log ("callback of result %d", r->id);
  vs_check (++r->calls == 1, "twice", "callback of result %d called %d times", r->id, r->calls);
  vs_check (res == (GAsyncResult *)r->res || r->drop_early, "result", "callback of result %d got another result", r->id);
  vs_check (src == (GObject *)r->src, "source", "callback of result %d got another source object", r->id);
  if (src) vs_check (((VsInst *)src)->id == r->id && !inst_dead[r->id], "source", "source object of result %d is gone", r->id);
  GObject *s = g_async_result_get_source_object (res); vs_check (s == src, "source", "result %d has another source object", r->id); g_clear_object (&s);
  vs_check (vs_self_id () == r->creator, "thread", "callback of result %d on thread %d, created on %d", r->id, vs_self_id (), r->creator);
  vs_check (g_main_context_is_owner (r->ctx), "context", "callback of result %d outside its loop", r->id);
  vs_check (!(r->in_await && r->awaiter == r->creator), "reentrant", "callback of result %d inside the call which awaits", r->id);
  if (W.one)
    {
      vs_check (r->due || r->resolved || r->cancelled, "early", "callback of result %d before its future ended", r->id);
      for (int i = 0; i < W.n; i++) vs_check (!(W.r[i].due && !W.r[i].nocb && !W.r[i].calls && W.r[i].prio < r->prio), "priority", "callback of result %d (priority %d) before that of %d (priority %d)", r->id, r->prio, i, W.r[i].prio);
    }
  check_outcome (r, res, "in the callback");
  if (r->keep) r->kept = g_object_ref (res);
}
static void
new_result (int creator)
{
  int i = W.n++; Res *r = &W.r[i]; memset (r, 0, sizeof *r);
  r->id = i; r->creator = creator; r->k = vs_draw (NA); r->bits = gen_bits (); r->code = vs_draw (1000); r->pre = vs_draw (4) == 3; r->has_src = vs_draw (3); r->has_canc = creator == 0 && vs_draw (3) == 2; r->cancel_it = vs_draw (2); r->nocb = vs_draw (8) == 7; r->keep = vs_draw (2); r->drop_early = vs_draw (2); r->prio = vs_draw (3) ? 0 : vs_range (-200, 300);
  r->awaiter = vs_draw (3) ? creator : 2; r->resolver = vs_draw (3);
  if (r->has_canc) r->awaiter = 0;
}
static void
make_result (Res *r)
{
  int i = r->id;
  inst_dead[i] = false;
  if (r->has_src) { r->src = g_object_new (vs_inst_get_type (), NULL); r->src->id = i; }
  if (r->has_canc) r->canc = g_cancellable_new ();
  if (r->k == A_OBJECT) r->obj = g_object_new (vs_inst_get_type (), NULL);
  r->p = dex_promise_new (); r->ctx = g_main_context_ref_thread_default ();
  r->res = dex_async_result_new (r->src, r->canc, r->nocb ? NULL : result_cb, r);
  if (r->prio) dex_async_result_set_priority (r->res, r->prio);
  switch (vs_draw (3)) { case 1: dex_async_result_set_static_name (r->res, "static"); r->name = "static"; break; case 2: { char *s = g_strdup ("dynamic"); dex_async_result_set_name (r->res, s); memset (s, 'x', 7); g_free (s); r->name = "dynamic"; break; } default: break; }
  vs_check (!g_strcmp0 (dex_async_result_get_name (r->res), r->name), "name", "result %d has another name", i);
  GError *e = NULL;
  if (vs_draw (4) == 3)
    {
      vs_check (g_async_result_get_user_data ((GAsyncResult *)r->res) == r, "user-data", "result %d has other user data", i);
      vs_check (!g_async_result_is_tagged ((GAsyncResult *)r->res, (gpointer)make_result), "tag", "result %d has the tag of somebody else", i);
    }
  vs_check (!dex_async_result_dup_future (r->res), "future", "result %d has a future before it awaits one", i);
  if (vs_draw (4) == 3) { dex_async_result_propagate_boolean (r->res, &e); vs_check (g_error_matches (e, DEX_ERROR, DEX_ERROR_PENDING), "pending", "result %d is not pending", i); g_clear_error (&e); }
  vs_log ("result %d (%s) made by %d, awaited by %d, ended by %d%s", i, aname[r->k], r->creator, r->awaiter, r->pre ? -1 : r->resolver, r->has_canc ? ", cancellable" : "");
}
static void value_freed (gpointer u) { Res *r = u; vs_check (!r->freed++, "double-free", "the value of result %d was released twice", r->id); }
static void
resolve (Res *r)
{
  if (r->resolved) return;
  r->resolved = true; guint64 b = r->bits;
  vs_log ("end future %d", r->id);
  if (r->k == A_ERROR) { dex_promise_reject (r->p, g_error_new (ND, r->code, "planned")); return; }
  GValue v = G_VALUE_INIT;
  switch (r->k)
    {
    case A_INT: g_value_init (&v, G_TYPE_INT); g_value_set_int (&v, (int)b); break;
    case A_UINT: g_value_init (&v, G_TYPE_UINT); g_value_set_uint (&v, (guint)b); break;
    case A_INT64: g_value_init (&v, G_TYPE_INT64); g_value_set_int64 (&v, b); break;
    case A_UINT64: g_value_init (&v, G_TYPE_UINT64); g_value_set_uint64 (&v, b); break;
    case A_LONG: g_value_init (&v, G_TYPE_LONG); g_value_set_long (&v, b); break;
    case A_ULONG: g_value_init (&v, G_TYPE_ULONG); g_value_set_ulong (&v, b); break;
    case A_DOUBLE: g_value_init (&v, G_TYPE_DOUBLE); g_value_set_double (&v, (double)(gint64)b); break;
    case A_FLOAT: g_value_init (&v, G_TYPE_FLOAT); g_value_set_float (&v, (float)(gint64)b); break;
    case A_BOOL: g_value_init (&v, G_TYPE_BOOLEAN); g_value_set_boolean (&v, b & 1); break;
    case A_OBJECT: g_value_init (&v, b & 1 ? G_TYPE_OBJECT : vs_inst_get_type ()); g_value_set_object (&v, r->obj); break;
    case A_NULLOBJ: g_value_init (&v, b & 1 ? G_TYPE_OBJECT : G_TYPE_BYTES); break;
    case A_BYTES: r->owns = true; r->mem = b; g_value_init (&v, G_TYPE_BYTES); g_value_take_boxed (&v, g_bytes_new_with_free_func (&r->mem, sizeof b, value_freed, r)); break;
    case A_VARIANT: r->owns = true; r->mem = b; g_value_init (&v, G_TYPE_VARIANT); g_value_take_variant (&v, g_variant_ref_sink (g_variant_new_from_data (G_VARIANT_TYPE_UINT64, &r->mem, sizeof b, TRUE, value_freed, r))); break;
    default: g_value_init (&v, G_TYPE_POINTER); g_value_set_pointer (&v, (gpointer)b); break;
    }
  dex_promise_resolve (r->p, &v);
  g_value_unset (&v);
}
static void
await (Res *r)
{
  if (r->pre) resolve (r);
  DexAsyncResult *res = g_object_ref (r->res);
  r->in_await = 1; r->awaited = true;
  vs_log ("await %d", r->id);
  dex_async_result_await (res, dex_ref (r->p));
  r->in_await = 0;
  g_object_unref (res);
  if (r->drop_early && !r->keep) { DexAsyncResult *x = r->res; r->res = NULL; g_object_unref (x); }
}
static bool t1_ready (gpointer u) { return W.ready; }
static bool all_awaited (gpointer u) { for (int i = 0; i < W.n; i++) if (!W.r[i].awaited) return false; return true; }
static gpointer
loop_thread (gpointer u)
{
  GMainContext *c = g_main_context_new ();
  g_main_context_push_thread_default (c);
  for (int i = 0; i < W.n; i++) if (W.r[i].creator == 1) make_result (&W.r[i]);
  W.ready = true;
  for (int i = 0; i < W.n; i++) if (W.r[i].awaiter == 1) await (&W.r[i]);
  for (int i = 0; i < W.n; i++) if (W.r[i].resolver == 1 && W.r[i].awaited) resolve (&W.r[i]);
  for (;;)
    {
      bool left = false;
      for (int i = 0; i < W.n; i++) if (W.r[i].creator == 1 && !W.r[i].nocb && !W.r[i].calls) left = true;
      if (!left) break;
      g_main_context_iteration (c, TRUE);
    }
  while (g_main_context_iteration (c, FALSE)) ;
  g_main_context_pop_thread_default (c);
  g_main_context_unref (c);
  return NULL;
}
static gpointer
helper_thread (gpointer u)
{
  vs_wait_until (t1_ready, NULL, "the other loop");
  for (int i = 0; i < W.n; i++) if (W.r[i].awaiter == 2) await (&W.r[i]);
  for (int i = 0; i < W.n; i++) if (W.r[i].resolver == 2) { vs_point (); resolve (&W.r[i]); }
  return NULL;
}
static void run_results_loop (void) { for (int i = 0; i < W.n; i++) W.r[i].due = W.one && W.r[i].awaited && (W.r[i].resolved || W.r[i].cancelled); vs_run_idle (); }
static void
results_once (bool threads)
{
  types_init (); inst_alive = 0; memset (&W, 0, sizeof W);
  vs_objects_mark ();
  W.one = !threads; int fds = vs_count_fds ();
  int n = 1 + vs_draw (NR - 1); bool two = threads && vs_draw (2);
  for (int i = 0; i < n; i++) new_result (two && vs_draw (2));
  if (!two) for (int i = 0; i < n; i++) if (W.r[i].resolver == 1) W.r[i].resolver = 0;
  if (!threads) for (int i = 0; i < n; i++) W.r[i].awaiter = W.r[i].resolver = 0;
  GThread *t1 = NULL, *t2 = NULL;
  W.ready = !two;
  for (int i = 0; i < n; i++) if (W.r[i].creator == 0) make_result (&W.r[i]);
  if (two) { t1 = g_thread_new ("loop", loop_thread, NULL); vs_wait_until (t1_ready, NULL, "the other loop"); }
  if (threads) t2 = g_thread_new ("helper", helper_thread, NULL);
  for (int i = 0; i < n; i++) if (W.r[i].awaiter == 0) await (&W.r[i]);
  for (int k = vs_draw (8); k > 0; k--)
    {
      int i = vs_draw (n); Res *r = &W.r[i];
      switch (vs_draw (3))
        {
        case 0: run_results_loop (); break;
        case 1: if (r->resolver == 0 || r->creator == 0) resolve (r); break;
        case 2: if (r->has_canc && r->cancel_it) { vs_log ("cancel %d", i); r->cancelled = true; g_cancellable_cancel (r->canc); if (!r->resolved && r->awaited) r->must_cancel = true; } break;
        }
    }
  vs_wait_until (all_awaited, NULL, "all to be awaited");
  for (int i = 0; i < n; i++) if (!W.r[i].resolved) resolve (&W.r[i]);
  if (t2) g_thread_join (t2);
  run_results_loop ();
  if (t1) g_thread_join (t1);
  vs_run_idle ();
  int cross = 0, canc = 0;
  for (int i = 0; i < n; i++)
    {
      Res *r = &W.r[i];
      vs_check (r->calls == !r->nocb, "callback", "callback of result %d called %d times", i, r->calls);
      if (r->kept) { check_outcome (r, r->kept, "after the callback"); g_object_unref (r->kept); }
      else if (r->nocb && r->res) check_outcome (r, (GAsyncResult *)r->res, "without a callback");
      if (r->must_cancel && (!r->nocb || r->res)) vs_check (r->got_cancelled, "not-cancelled", "result %d was cancelled before its future ended but gives the outcome of the future", i);
      cross += r->creator != r->awaiter; canc += r->got_cancelled;
      vs_check (!r->freed, "use-after-free", "the value of result %d was released while its future was alive", i);
      dex_clear (&r->p);
      if (r->res) { vs_check (G_OBJECT (r->res)->ref_count == 1, "leak", "result %d has %d references", i, G_OBJECT (r->res)->ref_count); g_clear_object (&r->res); }
      if (r->src) { vs_check (G_OBJECT (r->src)->ref_count == 1, "leak", "source of result %d has %d references", i, G_OBJECT (r->src)->ref_count); g_object_unref (r->src); }
      if (r->obj) { vs_check (r->obj->ref_count == 1, "leak", "value of result %d has %d references", i, r->obj->ref_count); g_object_unref (r->obj); }
      if (r->canc) { vs_check (G_OBJECT (r->canc)->ref_count == 1, "leak", "cancellable of result %d has %d references", i, G_OBJECT (r->canc)->ref_count); g_object_unref (r->canc); }
      g_main_context_unref (r->ctx);
    }
  vs_run_idle ();
  vs_objects_check ("after dropping the results");
  for (int i = 0; i < n; i++) vs_check (W.r[i].freed == W.r[i].owns, "leak", "the value of result %d was released %d times", i, W.r[i].freed);
  vs_check (inst_alive == 0, "leak", "%d objects left", inst_alive);
  vs_check (vs_count_fds () == fds, "fd-leak", "%d descriptors open, %d at the start: a main context was not released", vs_count_fds (), fds);
  if (cross) vs_label ("awaited by another thread"); if (two) vs_label ("two loops"); if (canc) vs_label ("cancelled");
  if (n > 1 || cross) vs_nontrivial ();
}
static void run_results (void) { if (vs_draw (6) == 5) VS_RUN_ROUNDS (results_once (false)); else { vs_begin (VS_PREEMPT_AUTO); results_once (true); vs_end (); } }

VS_HARNESS (a1) = { "async-pair", "histories of start/finish pairs of every result type, ended inside start, later, on cancellation or by hand, awaited, dropped and discarded; three identical rounds; non-trivial: two operations, one awaited", run_pairs, 60 };
VS_HARNESS (a2) = { "async-pair-threads", "start/finish pairs which end on other threads while their futures are dropped and discarded by others; non-trivial: two operations, one awaited", run_pairs_threads, 60 };
VS_HARNESS (a3) = { "async-result", "asynchronous results made, awaited and ended on up to three threads with two loops; non-trivial: two results, or one awaited on another thread", run_results, 60 };
