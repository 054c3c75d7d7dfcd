/* Futures on their own: completion races, typed values, long chains,
 * delayed futures, thread affinity of callbacks. */
#include "vs.h"
#include <libdex.h>
#include <string.h>
#include <math.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

static GQuark quark;

/* ------------------------------------------------------------------ */
/* C01: concurrent completion and observation                          */
#define NP 3
typedef struct {
  DexFuture *f; bool promise;
  struct { int code; long start, end; int tid; } w[24]; int nw;   /* completion attempts */
  bool seen; int seen_out; const void *seen_ptr;                    /* first completed observation that ended */
  long first_end;
} Pr;
static Pr pr[NP]; static int npr; static long tick; static int nreads, nlate;

/* outcome code: odd = string, even = int, +1000 = rejected; 0 pending */
static int
read_future (DexFuture *f, const void **ptr)
{
  GError *e = NULL; int code = 0;
  switch (vs_draw (3))
    {
    case 1: if (dex_future_is_pending (f)) return 0; break;
    case 2: { bool a = dex_future_is_resolved (f), b = dex_future_is_rejected (f); vs_check (!(a && b), "status", "both resolved and rejected"); if (!a && !b) return 0; } break;
    default: if (dex_future_get_status (f) == DEX_FUTURE_STATUS_PENDING) return 0;
    }
  DexFutureStatus st = dex_future_get_status (f);
  vs_check (st != DEX_FUTURE_STATUS_PENDING, "changed", "a completed future became pending again");
  bool res = dex_future_is_resolved (f), rej = dex_future_is_rejected (f), pen = dex_future_is_pending (f);
  vs_check (!pen && res != rej && res == (st == DEX_FUTURE_STATUS_RESOLVED), "status", "predicates disagree: status %d pending %d resolved %d rejected %d", st, pen, res, rej);
  const GValue *v = dex_future_get_value (f, &e);
  vs_check (!!v == res && !!e == rej, "status", "status %d but value %p error %p", st, v, e);
  if (v)
    {
      *ptr = v;
      if (G_VALUE_HOLDS_INT (v)) code = g_value_get_int (v);
      else if (G_VALUE_HOLDS_STRING (v)) code = atoi (g_value_get_string (v) + 1);
      else vs_fail ("value", "value of type %s", G_VALUE_TYPE_NAME (v));
    }
  else
    {
      *ptr = NULL;
      bool set_error = e->domain == DEX_ERROR && e->code == DEX_ERROR_DEPENDENCY_FAILED;
      vs_check (set_error || (e->domain == quark && atoi (e->message + 1) == e->code), "value", "error %s %d %s", g_quark_to_string (e->domain), e->code, e->message);
      code = set_error ? 5000 : 1000 + e->code;
      g_error_free (e);
    }
  return code;
}
static void
observe (Pr *p)
{
  bool was = p->seen; int o = p->seen_out; const void *sp = p->seen_ptr, *ptr = NULL;
  int c = read_future (p->f, &ptr);
  nreads++;
  if (was)
    {
      nlate++;
      vs_check (c != 0, "changed", "a future seen completed reads as pending");
      vs_check (c == o, "changed", "a future seen completed with %d now reads %d", o, c);
      vs_check (!sp || sp == ptr, "changed", "the value moved");
    }
  if (c && !p->seen) { p->seen = true; p->seen_out = c; p->seen_ptr = ptr; }
}
static void
attempt (Pr *p)
{
  if (!p->promise || p->nw >= 24) return;
  int i = p->nw++, k = 1 + i, kind = vs_draw (3);
  p->w[i].start = ++tick; p->w[i].end = 1L << 60; p->w[i].tid = vs_self_id ();
  if (kind == 0) { p->w[i].code = 2 * k; dex_promise_resolve_int (DEX_PROMISE (p->f), 2 * k); }
  else if (kind == 1) { p->w[i].code = 2 * k + 1; dex_promise_resolve_string (DEX_PROMISE (p->f), g_strdup_printf ("s%d", 2 * k + 1)); }
  else { p->w[i].code = 1000 + k; dex_promise_reject (DEX_PROMISE (p->f), g_error_new (quark, k, "e%d", k)); }
  p->w[i].end = ++tick;
  if (p->first_end == 0) p->first_end = tick;
  observe (p);
}
static void
race_ops (int n)
{
  for (int i = 0; i < n; i++)
    {
      Pr *p = &pr[vs_draw (npr)];
      switch (vs_draw (4)) { case 0: attempt (p); break; case 3: vs_point (); break; default: observe (p); }
    }
}
static gpointer race_thread (gpointer u) { race_ops (2 + vs_draw (8)); return NULL; }
static DexFuture *nop_cb (DexFuture *f, gpointer u) { return NULL; }
static DexFuture *ret_cb (DexFuture *f, gpointer u) { return dex_ref (u); }
static void
run_races (void)
{
  quark = g_quark_from_static_string ("vs-error");
  memset (pr, 0, sizeof pr); tick = 0; nreads = nlate = 0;
  vs_begin (VS_PREEMPT_AUTO);
  vs_objects_mark ();
  npr = 1;
  pr[0].promise = true; pr[0].f = DEX_FUTURE (vs_draw (2) ? dex_promise_new () : dex_promise_new_cancellable ());
  if (vs_draw (2)) { pr[npr].promise = true; pr[npr++].f = DEX_FUTURE (dex_promise_new ()); }
  if (vs_draw (2))
    {
      DexFuture *a = pr[0].f, *b = pr[npr - 1].f;
      switch (vs_draw (4))
        {
        case 0: pr[npr].f = dex_future_then (dex_ref (a), nop_cb, NULL, NULL); break;
        case 1: pr[npr].f = dex_future_any (dex_ref (a), dex_ref (a), NULL); break;
        case 2: pr[npr].f = dex_future_first (dex_ref (a), dex_ref (b), NULL); break;
        default: pr[npr].f = dex_future_finally (dex_ref (a), ret_cb, dex_ref (b), dex_unref); break;
        }
      if (!pr[npr].f) vs_fail ("null", "constructor returned NULL");
      npr++;
    }
  bool derived = !pr[npr - 1].promise;
  int nt = 1 + vs_draw (3); GThread *t[4];
  if (derived) pr[npr - 1].seen = false;
  for (int i = 0; i < nt; i++) t[i] = g_thread_new ("race", race_thread, NULL);
  race_ops (1 + vs_draw (6));
  for (int i = 0; i < nt; i++) g_thread_join (t[i]);
  vs_run_idle ();
  int most = 0;
  for (int i = 0; i < npr; i++)
    {
      Pr *p = &pr[i]; const void *ptr = NULL;
      if (!p->promise) { observe (p); continue; }
      int c = read_future (p->f, &ptr); bool found = false;
      if (p->nw > most) most = p->nw;
      if (p->seen) vs_check (c == p->seen_out, "changed", "promise ended as %d, was seen as %d", c, p->seen_out);
      if (p->nw == 0) { vs_check (c == 0, "invented", "promise completed by nobody reads %d", c); continue; }
      for (int j = 0; j < p->nw; j++)
        if (p->w[j].code == c) { found = true; vs_check (p->w[j].start <= p->first_end, "late-winner", "promise ended as %d, an attempt made only after another one had returned", c); }
      vs_check (found, "invented", "promise ended as %d which nobody gave it", c);
    }
  for (int i = 0; i < npr; i++) dex_clear (&pr[npr - 1 - i].f);
  vs_run_idle ();
  vs_objects_check ("after dropping everything");
  if (most > 1) vs_label ("contended completion");
  if (nlate) vs_label ("read after completion");
  if (most > 1 && nlate) vs_nontrivial ();
  vs_end ();
}

/* ------------------------------------------------------------------ */
/* C03: typed values                                                   */
enum { T_BOOL, T_INT, T_UINT, T_INT64, T_UINT64, T_LONG, T_ULONG, T_FLOAT, T_DOUBLE, T_STRING, T_POINTER, T_OBJECT, T_VARIANT, T_BOXED, T_ENUM, T_FLAGS, T_FD, T_ERROR, N_T };
static const char *tn[] = { "boolean", "int", "uint", "int64", "uint64", "long", "ulong", "float", "double", "string", "pointer", "object", "variant", "boxed", "enum", "flags", "fd", "error" };
static int live_objects;
static void obj_gone (gpointer u, GObject *o) { live_objects--; }
/* values which notice when they are released */
typedef struct { char *s; int freed; } Owned;
static Owned owned[64]; static int n_owned;
static void owned_gone (gpointer u) { Owned *o = u; vs_check (!o->freed++, "double-free", "a value was released twice"); g_free (o->s); o->s = NULL; }
static Owned *own (char *s) { g_assert (n_owned < (int)G_N_ELEMENTS (owned)); owned[n_owned] = (Owned){ s, 0 }; return &owned[n_owned++]; }
static char *
rnd_string (void)
{
  static const char *pieces[] = { "a", "", "%s", "\xc3\xa9", "\n", "0", "\xe2\x82\xac", "long long text ", "\"", "%d%n" };
  GString *s = g_string_new (NULL);
  for (int n = vs_draw (2) ? vs_draw (6) : vs_draw (60); n > 0; n--) g_string_append (s, pieces[vs_draw (G_N_ELEMENTS (pieces))]);
  return g_string_free (s, FALSE);
}
static int64_t
rnd_int (int64_t lo, uint64_t hi)
{
  switch (vs_draw (6))
    {
    case 0: return 0; case 1: return 1; case 2: return lo; case 3: return (int64_t)hi;
    case 4: return lo ? -1 : (int64_t)(hi / 2 + 1);
    default: return (int64_t)vs_draw64 ();
    }
}
static void
gen_value (GValue *v, int t)
{
  switch (t)
    {
    case T_BOOL: g_value_init (v, G_TYPE_BOOLEAN); g_value_set_boolean (v, vs_draw (2)); break;
    case T_INT: g_value_init (v, G_TYPE_INT); g_value_set_int (v, (int)rnd_int (G_MININT, G_MAXINT)); break;
    case T_UINT: g_value_init (v, G_TYPE_UINT); g_value_set_uint (v, (guint)rnd_int (0, G_MAXUINT)); break;
    case T_INT64: g_value_init (v, G_TYPE_INT64); g_value_set_int64 (v, rnd_int (G_MININT64, G_MAXINT64)); break;
    case T_UINT64: g_value_init (v, G_TYPE_UINT64); g_value_set_uint64 (v, (guint64)rnd_int (0, G_MAXUINT64)); break;
    case T_LONG: g_value_init (v, G_TYPE_LONG); g_value_set_long (v, (glong)rnd_int (G_MINLONG, G_MAXLONG)); break;
    case T_ULONG: g_value_init (v, G_TYPE_ULONG); g_value_set_ulong (v, (gulong)rnd_int (0, G_MAXULONG)); break;
    case T_FLOAT: { static const float fs[] = { 0, -0.0f, 1.5f, 3.4e38f, -1e-40f, INFINITY, 0.1f }; g_value_init (v, G_TYPE_FLOAT); g_value_set_float (v, fs[vs_draw (7)]); } break;
    case T_DOUBLE: { static const double ds[] = { 0, -0.0, 1.5, 1.7e308, -4e-320, -INFINITY, 0.1, 16777217.0 }; g_value_init (v, G_TYPE_DOUBLE); g_value_set_double (v, ds[vs_draw (8)]); } break;
    case T_STRING: g_value_init (v, G_TYPE_STRING); if (vs_draw (8) != 7) g_value_take_string (v, rnd_string ()); break;
    case T_POINTER: g_value_init (v, G_TYPE_POINTER); g_value_set_pointer (v, GSIZE_TO_POINTER (rnd_int (0, G_MAXUINT64))); break;
    case T_OBJECT:
      {
        GObject *o = vs_draw (2) ? g_object_new (G_TYPE_OBJECT, NULL) : G_OBJECT (g_memory_input_stream_new ());
        live_objects++; g_object_weak_ref (o, obj_gone, NULL);
        g_value_init (v, G_OBJECT_TYPE (o)); g_value_take_object (v, o);
      }
      break;
    case T_VARIANT:
      {
        char *s = rnd_string (); GVariant *x;
        switch (vs_draw (4)) { case 0: x = g_variant_new_int32 (7); break; case 1: { Owned *o = own (s); x = g_variant_new_from_data (G_VARIANT_TYPE_STRING, s, strlen (s) + 1, TRUE, owned_gone, o); s = NULL; break; } case 2: x = g_variant_new ("(sb)", s, TRUE); break; default: x = g_variant_new ("a{sv}", NULL); }
        g_free (s);
        g_value_init (v, G_TYPE_VARIANT); g_value_take_variant (v, g_variant_ref_sink (x));
      }
      break;
    case T_BOXED:
      if (vs_draw (2)) { char *s = rnd_string (); g_value_init (v, G_TYPE_BYTES); g_value_take_boxed (v, g_bytes_new_with_free_func (s, strlen (s), owned_gone, own (s))); }
      else { char **sv = g_new0 (char *, 4); for (int i = 0, n = vs_draw (4); i < n; i++) sv[i] = rnd_string (); g_value_init (v, G_TYPE_STRV); g_value_take_boxed (v, sv); }
      break;
    case T_ENUM: g_value_init (v, G_TYPE_FILE_TYPE); g_value_set_enum (v, vs_draw (7)); break;
    case T_FLAGS: g_value_init (v, G_TYPE_FILE_COPY_FLAGS); g_value_set_flags (v, vs_draw (64)); break;
    default: g_assert_not_reached ();
    }
}
static bool
same_value (const GValue *a, const GValue *b)
{
  if (G_VALUE_TYPE (a) != G_VALUE_TYPE (b)) return false;
  switch (G_TYPE_FUNDAMENTAL (G_VALUE_TYPE (a)))
    {
    case G_TYPE_BOOLEAN: return g_value_get_boolean (a) == g_value_get_boolean (b);
    case G_TYPE_INT: return g_value_get_int (a) == g_value_get_int (b);
    case G_TYPE_UINT: return g_value_get_uint (a) == g_value_get_uint (b);
    case G_TYPE_INT64: return g_value_get_int64 (a) == g_value_get_int64 (b);
    case G_TYPE_UINT64: return g_value_get_uint64 (a) == g_value_get_uint64 (b);
    case G_TYPE_LONG: return g_value_get_long (a) == g_value_get_long (b);
    case G_TYPE_ULONG: return g_value_get_ulong (a) == g_value_get_ulong (b);
    case G_TYPE_FLOAT: { float x = g_value_get_float (a), y = g_value_get_float (b); return !memcmp (&x, &y, sizeof x); }
    case G_TYPE_DOUBLE: { double x = g_value_get_double (a), y = g_value_get_double (b); return !memcmp (&x, &y, sizeof x); }
    case G_TYPE_STRING: return !g_strcmp0 (g_value_get_string (a), g_value_get_string (b)) && !g_value_get_string (a) == !g_value_get_string (b);
    case G_TYPE_POINTER: return g_value_get_pointer (a) == g_value_get_pointer (b);
    case G_TYPE_OBJECT: return g_value_get_object (a) == g_value_get_object (b);
    case G_TYPE_VARIANT: return g_variant_equal (g_value_get_variant (a), g_value_get_variant (b));
    case G_TYPE_ENUM: return g_value_get_enum (a) == g_value_get_enum (b);
    case G_TYPE_FLAGS: return g_value_get_flags (a) == g_value_get_flags (b);
    case G_TYPE_BOXED:
      if (G_VALUE_TYPE (a) == G_TYPE_BYTES) return g_bytes_equal (g_value_get_boxed (a), g_value_get_boxed (b));
      return g_strv_equal (g_value_get_boxed (a), g_value_get_boxed (b));
    default: return false;
    }
}
typedef struct { int t; GValue v; GError *err; int fd; ino_t ino; DexFuture *f; DexPromise *late; int how; int wrap; } Item;
static void
send_to (DexPromise *p, Item *it)
{
  const GValue *v = &it->v;
  if (it->t == T_ERROR) { dex_promise_reject (p, g_error_copy (it->err)); return; }
  if (it->t == T_FD) { dex_promise_resolve_fd (p, it->fd); return; }
  if (vs_draw (3) == 2) { dex_promise_resolve (p, v); return; }
  switch (it->t)
    {
    case T_BOOL: dex_promise_resolve_boolean (p, g_value_get_boolean (v)); break;
    case T_INT: dex_promise_resolve_int (p, g_value_get_int (v)); break;
    case T_UINT: dex_promise_resolve_uint (p, g_value_get_uint (v)); break;
    case T_INT64: dex_promise_resolve_int64 (p, g_value_get_int64 (v)); break;
    case T_UINT64: dex_promise_resolve_uint64 (p, g_value_get_uint64 (v)); break;
    case T_LONG: dex_promise_resolve_long (p, g_value_get_long (v)); break;
    case T_ULONG: dex_promise_resolve_ulong (p, g_value_get_ulong (v)); break;
    case T_FLOAT: dex_promise_resolve_float (p, g_value_get_float (v)); break;
    case T_DOUBLE: dex_promise_resolve_double (p, g_value_get_double (v)); break;
    case T_STRING: dex_promise_resolve_string (p, g_value_dup_string (v)); break;
    case T_OBJECT: dex_promise_resolve_object (p, g_value_dup_object (v)); break;
    case T_VARIANT: dex_promise_resolve_variant (p, g_variant_ref (g_value_get_variant (v))); break;
    default: dex_promise_resolve (p, v); break;
    }
}
static DexFuture *
make_static (Item *it)
{
  const GValue *v = &it->v;
  if (it->t == T_ERROR)
    {
      switch (vs_draw (3))
        {
        case 0: return dex_future_new_for_error (g_error_copy (it->err));
        case 1: return dex_future_new_reject (it->err->domain, it->err->code, "%s", it->err->message);
        default:
          {
            static const int en[] = { ENOENT, EACCES, EINVAL, EAGAIN, EPIPE, 0, 9999, EISDIR };
            int e = en[vs_draw (8)];
            g_error_free (it->err);
            it->err = g_error_new_literal (G_IO_ERROR, g_io_error_from_errno (e), g_strerror (e));
            return dex_future_new_for_errno (e);
          }
        }
    }
  if (vs_draw (3) == 2) return dex_future_new_for_value (v);
  switch (it->t)
    {
    case T_BOOL: return dex_future_new_for_boolean (g_value_get_boolean (v));
    case T_INT: return dex_future_new_for_int (g_value_get_int (v));
    case T_UINT: return dex_future_new_for_uint (g_value_get_uint (v));
    case T_INT64: return dex_future_new_for_int64 (g_value_get_int64 (v));
    case T_UINT64: return dex_future_new_for_uint64 (g_value_get_uint64 (v));
    case T_FLOAT: return dex_future_new_for_float (g_value_get_float (v));
    case T_DOUBLE: return dex_future_new_for_double (g_value_get_double (v));
    case T_STRING: return vs_draw (2) ? dex_future_new_for_string (g_value_get_string (v)) : dex_future_new_take_string (g_value_dup_string (v));
    case T_POINTER: return dex_future_new_for_pointer (g_value_get_pointer (v));
    case T_OBJECT: return vs_draw (2) ? dex_future_new_for_object (g_value_get_object (v)) : dex_future_new_take_object (g_value_dup_object (v));
    case T_VARIANT: return dex_future_new_take_variant (g_variant_ref (g_value_get_variant (v)));
    case T_BOXED: return dex_future_new_take_boxed (G_VALUE_TYPE (v), g_value_dup_boxed (v));
    default: return dex_future_new_for_value (v);
    }
}
/* can a value of type t be read by await kind k? */
static bool compat (int t, int k) { return t == k || (t == T_FD && k == T_BOXED); }
static void
check_error (Item *it, int k, GError *e, bool in_time)
{
  vs_check (e != NULL, "no-error", "await as %s of a %s gave no error", tn[k], tn[it->t]);
  if (!in_time) vs_check (g_error_matches (e, DEX_ERROR, DEX_ERROR_NO_FIBER) || g_error_matches (e, DEX_ERROR, DEX_ERROR_PENDING), "wrong-error", "await of a pending future outside a fiber: %s", e->message);
  else if (it->t == T_ERROR) vs_check (e->domain == it->err->domain && e->code == it->err->code && !strcmp (e->message, it->err->message), "wrong-error", "rejected with %s %d '%s', read back %s %d '%s'", g_quark_to_string (it->err->domain), it->err->code, it->err->message, g_quark_to_string (e->domain), e->code, e->message);
  else vs_check (g_error_matches (e, DEX_ERROR, DEX_ERROR_TYPE_MISMATCH), "wrong-error", "await as %s of a %s: %s %d %s", tn[k], tn[it->t], g_quark_to_string (e->domain), e->code, e->message);
}
#define BAD(k) vs_fail ("wrong-value", "await as %s gave another value than the %s sent", tn[k], tn[it->t])
#define NUM(k, fn, get, T) { T r = fn (f, &e); if (good) { if (e || r != get (v)) BAD (k); } else { vs_check (r == 0, "wrong-value", "failed await as %s returned %g", tn[k], (double)r); check_error (it, k, e, in_time); } break; }
static void
await_as (Item *it, DexFuture *f /* full */, int k, bool in_time)
{
  GError *e = NULL; const GValue *v = &it->v;
  bool good = in_time && compat (it->t, k);
  vs_label (good ? "matching await" : !in_time ? "pending await" : it->t == T_ERROR ? "rejected await" : "mismatched await");
  switch (k)
    {
    case T_BOOL: NUM (k, dex_await_boolean, g_value_get_boolean, gboolean)
    case T_INT: NUM (k, dex_await_int, g_value_get_int, int)
    case T_UINT: NUM (k, dex_await_uint, g_value_get_uint, guint)
    case T_INT64: NUM (k, dex_await_int64, g_value_get_int64, gint64)
    case T_UINT64: NUM (k, dex_await_uint64, g_value_get_uint64, guint64)
    case T_FLOAT: NUM (k, dex_await_float, g_value_get_float, float)
    case T_DOUBLE: NUM (k, dex_await_double, g_value_get_double, double)
    case T_ENUM: NUM (k, dex_await_enum, (guint)g_value_get_enum, guint)
    case T_FLAGS: NUM (k, dex_await_flags, g_value_get_flags, guint)
    case T_POINTER: { gpointer r = dex_await_pointer (f, &e); if (good) { if (e || r != g_value_get_pointer (v)) BAD (k); } else { if (r) BAD (k); check_error (it, k, e, in_time); } } break;
    case T_STRING: { char *r = dex_await_string (f, &e); if (good) { if (e || g_strcmp0 (r, g_value_get_string (v)) || !r != !g_value_get_string (v)) BAD (k); } else { if (r) BAD (k); check_error (it, k, e, in_time); } g_free (r); } break;
    case T_OBJECT: { gpointer r = dex_await_object (f, &e); if (good) { if (e || r != g_value_get_object (v)) BAD (k); } else { if (r) BAD (k); check_error (it, k, e, in_time); } if (r) g_object_unref (r); } break;
    case T_VARIANT: { GVariant *r = dex_await_variant (f, &e); if (good) { if (e || !r || !g_variant_equal (r, g_value_get_variant (v))) BAD (k); } else { if (r) BAD (k); check_error (it, k, e, in_time); } g_clear_pointer (&r, g_variant_unref); } break;
    case T_BOXED:
      {
        gpointer r = dex_await_boxed (f, &e);
        if (it->t == T_FD && good) { if (e || !r) BAD (k); g_boxed_free (g_type_from_name ("DexFD"), r); }
        else if (good) { GValue w = G_VALUE_INIT; g_value_init (&w, G_VALUE_TYPE (v)); g_value_take_boxed (&w, r); if (e || !same_value (&w, v)) BAD (k); g_value_unset (&w); }
        else { if (r) BAD (k); check_error (it, k, e, in_time); }
      }
      break;
    case T_FD:
      {
        int r = dex_await_fd (f, &e); struct stat st;
        if (good) { if (e || r < 0 || fstat (r, &st) != 0 || st.st_ino != it->ino) BAD (k); close (r); }
        else { if (r != -1) BAD (k); check_error (it, k, e, in_time); }
      }
      break;
    default: /* plain dex_await */
      {
        gboolean r = dex_await (f, &e);
        if (in_time && it->t != T_ERROR) vs_check (r && !e, "wrong-value", "dex_await of a resolved future failed");
        else { vs_check (!r, "wrong-value", "dex_await returned TRUE"); check_error (it, k, e, in_time); }
      }
    }
  g_clear_error (&e);
}
static void
check_generic (Item *it, DexFuture *f)
{
  GError *e = NULL;
  const GValue *v = dex_future_get_value (f, &e);
  if (it->t == T_ERROR) { vs_check (!v, "wrong-value", "rejected future has a value"); check_error (it, T_ERROR, e, true); }
  else if (it->t == T_FD) vs_check (v && !e && !strcmp (G_VALUE_TYPE_NAME (v), "DexFD"), "wrong-value", "fd future gives another type");
  else
    {
      vs_check (v && !e, "wrong-value", "resolved %s future gives no value", tn[it->t]);
      vs_check (same_value (v, &it->v), "wrong-value", "%s future holds another value than sent (%s for %s)", tn[it->t], G_VALUE_TYPE_NAME (v), G_VALUE_TYPE_NAME (&it->v));
    }
  g_clear_error (&e);
}
static Item items[6]; static int nitems;
static DexFuture *
typed_fiber (gpointer u)
{
  for (int i = 0; i < nitems; i++)
    {
      Item *it = &items[i];
      int k = vs_draw (3) ? it->t : (int)vs_draw (N_T);
      if (k == T_LONG || k == T_ULONG) k = T_ERROR;
      await_as (it, dex_ref (it->f), k, true);
      if (it->t != T_FD) check_generic (it, it->f);
    }
  return dex_future_new_for_int (17);
}
static void
typed_case (void)
{
  live_objects = 0; n_owned = 0;
  nitems = 1 + vs_draw (4);
  bool fiber = vs_draw (2); int nfd = 0;
  for (int i = 0; i < nitems; i++)
    {
      Item *it = &items[i]; memset (it, 0, sizeof *it);
      it->t = vs_draw (N_T); it->fd = -1;
      it->how = vs_draw (3); it->wrap = vs_draw (6);
      if (it->t == T_ERROR) { char *m = rnd_string (); it->err = g_error_new_literal (vs_draw (2) ? quark : G_IO_ERROR, (int)rnd_int (G_MININT, G_MAXINT), m); g_free (m); }
      else if (it->t == T_FD) { struct stat st; it->fd = open (vs_draw (2) ? "/proc/self/stat" : "/dev/null", O_RDONLY); fstat (it->fd, &st); it->ino = st.st_ino; nfd++; if (it->how == 0) it->how = 1; if (it->wrap == 2) it->wrap = 0; }
      else gen_value (&it->v, it->t);
      if (it->how == 0) it->f = make_static (it);
      else { it->late = dex_promise_new (); it->f = DEX_FUTURE (dex_ref (it->late)); if (it->how == 1) send_to (it->late, it); }
      if (it->t == T_ERROR && (it->wrap == 2)) it->wrap = 0;
      switch (it->wrap)
        {
        case 1: it->f = dex_future_finally (it->f, nop_cb, NULL, NULL); break;
        case 2: it->f = dex_future_any (it->f, dex_future_new_infinite (), NULL); break;
        case 3: { DexFuture *g = it->f; it->f = dex_future_then (dex_future_new_true (), ret_cb, g, dex_unref); } break;
        case 4: it->f = dex_future_first (dex_future_new_infinite (), it->f, NULL); break;
        case 5: it->f = it->t == T_ERROR ? dex_future_then (it->f, nop_cb, NULL, NULL) : dex_future_catch (it->f, nop_cb, NULL, NULL); break;
        default: break;
        }
      vs_log ("item %d: %s how %d wrap %d", i, tn[it->t], it->how, it->wrap);
    }
  vs_run_idle ();
  if (!fiber)
    for (int i = 0; i < nitems; i++)
      if (items[i].how == 2)
        {
          int k = vs_draw (N_T); GError *e = NULL;
          if (k == T_LONG || k == T_ULONG) k = T_ERROR;
          vs_check (!dex_future_get_value (items[i].f, &e) && g_error_matches (e, DEX_ERROR, DEX_ERROR_PENDING), "wrong-error", "value of a pending future");
          g_clear_error (&e);
          await_as (&items[i], dex_ref (items[i].f), k, false);
        }
  DexFuture *fb = NULL;
  if (fiber) { fb = dex_scheduler_spawn (NULL, 0, typed_fiber, NULL, NULL); if (vs_draw (2)) vs_run_idle (); }
  for (int i = nitems - 1; i >= 0; i--) if (items[i].late) { if (items[i].how == 2) send_to (items[i].late, &items[i]); dex_clear (&items[i].late); }
  vs_run_idle ();
  if (fiber) { vs_check (dex_await_int (fb, NULL) == 17, "fiber", "fiber result"); }
  else dex_unref (typed_fiber (NULL));
  vs_run_idle ();
  for (int i = 0; i < nitems; i++) dex_clear (&items[i].f);
  vs_run_idle ();
  /* the values made above are still here, each with its own reference */
  for (int i = 0; i < n_owned; i++) vs_check (!owned[i].freed, "use-after-free", "a boxed or variant value was released while it was in use");
  for (int i = 0; i < nitems; i++)
    {
      Item *it = &items[i];
      if (G_IS_VALUE (&it->v)) g_value_unset (&it->v);
      g_clear_error (&it->err);
      if (it->fd >= 0) { vs_check (fcntl (it->fd, F_GETFD) >= 0, "fd-closed", "the descriptor given was closed"); close (it->fd); }
    }
  vs_run_idle ();
  vs_check (live_objects == 0, "leak", "%d object values leaked", live_objects);
  for (int i = 0; i < n_owned; i++) vs_check (owned[i].freed == 1, "leak", "a boxed or variant value was not released");
}
static DexFuture *leak_result;
static void
run_typed (void)
{
  quark = g_quark_from_static_string ("vs-error");
  vs_begin (VS_PREEMPT_NONE);
  uint32_t pos = vs_tape_pos (); size_t after[6] = { 0 }; (void)leak_result;
  int fds = 0;
  for (int r = 0; VS_ROUNDS (after, r); r++)
    {
      if (r) vs_tape_rewind (pos);
      else { dex_unref (dex_future_new_true ()); dex_unref (dex_future_new_false ()); }
      typed_case ();
      after[r] = vs_heap_bytes ();
      if (r == 0) fds = vs_count_fds ();
      else vs_check (vs_count_fds () == fds, "fd-leak", "descriptors leak");
    }
  if (nitems > 1) vs_nontrivial ();
  VS_ROUNDS_CHECK (after);
  vs_end ();
}

/* ------------------------------------------------------------------ */
/* B04: long chains and loops                                          */
static struct { long ran, want; int order_bad; long next; void *lo, *hi; DexFuture *give[3]; int ngive; int fib_ret; } L;
static void note_stack (void) { char c; void *p = &c; if (!L.lo || p < L.lo) L.lo = p; if (!L.hi || p > L.hi) L.hi = p; }
static DexFuture *
link_cb (DexFuture *f, gpointer u)
{
  note_stack ();
  if (GPOINTER_TO_SIZE (u) != (gsize)L.next) L.order_bad++;
  L.next++; L.ran++;
  switch (L.ngive) { case 0: return NULL; default: return dex_ref (L.give[GPOINTER_TO_SIZE (u) % L.ngive]); }
}
static DexFuture *
loop_cb (DexFuture *f, gpointer u)
{
  note_stack ();
  L.ran++;
  if (L.ran < L.want) return L.ngive ? dex_ref (L.give[L.ran % L.ngive]) : dex_future_new_for_int (L.ran);
  return L.ran & 1 ? NULL : dex_future_new_reject (quark, 1, "stop");
}
static void
run_long (void)
{
  quark = g_quark_from_static_string ("vs-error");
  memset (&L, 0, sizeof L);
  vs_begin (VS_PREEMPT_NONE);
  vs_objects_mark ();
  static const int sizes[] = { 3, 5, 9, 17, 100, 1000, 3000, 9000 };
  int n = sizes[vs_draw (8)] + vs_draw (4), mode = vs_draw (4);
  if (n > 100) vs_nontrivial ();
  L.want = n;
  L.ngive = vs_draw (3);
  for (int i = 0; i < L.ngive; i++) L.give[i] = vs_draw (2) ? dex_future_new_for_int (5) : dex_future_new_for_string ("x");
  vs_log ("mode %d n %d ngive %d", mode, n, L.ngive);
  if (mode == 0 || mode == 3)
    {
      DexPromise *p = dex_promise_new ();
      DexFuture *f = DEX_FUTURE (dex_ref (p));
      bool early = mode == 3; int dir = vs_draw (3);
      if (early) dex_promise_resolve_int (p, 1);
      for (long i = 0; i < n; i++)
        f = dir == 0 ? dex_future_then (f, link_cb, GSIZE_TO_POINTER (i), NULL) : dir == 1 ? dex_future_finally (f, link_cb, GSIZE_TO_POINTER (i), NULL) :
            (i & 1) ? dex_future_then (f, link_cb, GSIZE_TO_POINTER (i), NULL) : dex_future_finally (f, link_cb, GSIZE_TO_POINTER (i), NULL);
      if (!early) dex_promise_resolve_int (p, 1);
      vs_run_idle ();
      vs_check (L.ran == n, "lost-callback", "chain of %d callbacks: %ld ran", n, L.ran);
      vs_check (!L.order_bad, "order", "%d callbacks of a chain out of order", L.order_bad);
      vs_check (dex_future_is_resolved (f), "not-completed", "end of the chain is not resolved");
      dex_unref (f); dex_unref (p);
    }
  else if (mode == 1)
    {
      DexFuture *f = (vs_draw (2) ? dex_future_then_loop : dex_future_finally_loop) (dex_future_new_for_int (1), loop_cb, NULL, NULL);
      vs_run_idle ();
      /* a rejecting last turn runs a finally loop once more */
      vs_check (L.ran == n || L.ran == n + 1, "turns", "loop of %d turns ran %ld", n, L.ran);
      vs_check (!dex_future_is_pending (f), "not-completed", "loop did not end");
      dex_unref (f);
    }
  else
    {
      /* nested sets/callbacks over one promise, all dropped at the end */
      DexPromise *p = dex_promise_new ();
      DexFuture *f = DEX_FUTURE (dex_ref (p));
      int m = MIN (n, 1000);
      for (long i = 0; i < m; i++)
        f = (i % 3) ? dex_future_then (f, link_cb, GSIZE_TO_POINTER (i - i / 3 - 1), NULL) : dex_future_all (f, NULL);
      dex_promise_resolve_int (p, 1);
      vs_run_idle ();
      vs_check (L.ran == m - (m + 2) / 3, "lost-callback", "%ld callbacks ran of %d", L.ran, m - (m + 2) / 3);
      vs_check (!dex_future_is_pending (f), "not-completed", "end is pending");
      dex_unref (f); dex_unref (p);
    }
  vs_log ("stack used %ld", (long)((char *)L.hi - (char *)L.lo));
  /* links that return nothing pass the completion on recursively, a small
   * frame pair each; turns and returned futures must not add up */
  long allowed = 64 * 1024 + (mode == 2 || (mode == 0 && !L.ngive) ? 1200L * n : 0);
  vs_check ((char *)L.hi - (char *)L.lo < allowed, "stack", "callbacks of a run of %d used %ld bytes of stack", n, (long)((char *)L.hi - (char *)L.lo));
  while (L.ngive) dex_unref (L.give[--L.ngive]);
  vs_run_idle ();
  vs_objects_check ("after a long run");
  vs_end ();
}

/* ------------------------------------------------------------------ */
/* D01: delayed                                                        */
static struct { DexFuture *d[4]; int nd; DexPromise *p[3]; int np; int in[4]; bool released[4], discarded[4]; int out[3]; int cb[4], cbout[4]; bool rel_done[4], comp_done[3]; } D;
static int
code_of (DexFuture *f)
{
  GError *e = NULL;
  if (dex_future_is_pending (f)) return 0;
  const GValue *v = dex_future_get_value (f, &e);
  if (v) { vs_check (G_VALUE_HOLDS_INT (v), "value", "type %s", G_VALUE_TYPE_NAME (v)); return g_value_get_int (v); }
  vs_check (e->domain == quark, "value", "error %s", e->message);
  int c = -e->code; g_error_free (e); return c;
}
static DexFuture *delayed_cb (DexFuture *f, gpointer u) { int i = GPOINTER_TO_INT (u); D.cb[i]++; D.cbout[i] = code_of (f); vs_check (D.cbout[i] != 0, "early", "callback on a pending delayed future"); return NULL; }
static void
d_release (int i)
{
  D.released[i] = true;
  vs_log ("release %d", i);
  dex_delayed_release (DEX_DELAYED (D.d[i]));
  D.rel_done[i] = true;
}
static void
d_complete (int i)
{
  int c = D.out[i];
  if (c) return;
  D.out[i] = c = vs_draw (2) ? 10 + i : -10 - i;
  vs_log ("complete %d with %d", i, c);
  if (c > 0) dex_promise_resolve_int (D.p[i], c); else dex_promise_reject (D.p[i], g_error_new (quark, -c, "x"));
  D.comp_done[i] = true;
}
static void
d_check (bool quiet)
{
  for (int i = 0; i < D.nd; i++)
    {
      bool rel_done = D.rel_done[i], comp_done = D.in[i] < 0 || D.comp_done[D.in[i]];
      int c = code_of (D.d[i]); int want = D.in[i] < 0 ? D.in[i] == -2 ? -99 : 99 : D.out[D.in[i]];
      if (c)
        {
          vs_check (D.released[i], "early", "delayed %d completed before it was released", i);
          vs_check (want != 0, "early", "delayed %d completed with %d before its input did", i, c);
          vs_check (c == want, "wrong-outcome", "delayed %d completed with %d, its input with %d", i, c, want);
        }
      else if (quiet) vs_check (!(rel_done && comp_done), "lost", "delayed %d is pending although it was released and its input completed", i);
      if (quiet) vs_check (D.cb[i] == (c ? 1 : 0), "callback", "callback on delayed %d ran %d times", i, D.cb[i]);
      DexFuture *dup = dex_delayed_dup_future (DEX_DELAYED (D.d[i]));
      if (dup) { vs_check (!rel_done, "dup-after-release", "delayed %d still gives its input after release", i); if (D.in[i] >= 0) vs_check (dup == DEX_FUTURE (D.p[D.in[i]]), "dup", "wrong input"); dex_unref (dup); }
      else if (quiet) vs_check (D.released[i], "dup", "delayed %d lost its input before release", i);
    }
  for (int i = 0; i < D.np; i++)
    { bool done = D.comp_done[i]; int c = code_of (DEX_FUTURE (D.p[i])); if (done) vs_check (c == D.out[i], "input-changed", "input %d reads %d, completed with %d", i, c, D.out[i]); else if (!D.out[i]) vs_check (c == 0, "input-completed", "input %d was completed with %d by nobody", i, c); }
}
static gpointer
d_thread (gpointer u)
{
  for (int i = 0, n = 1 + vs_draw (4); i < n; i++)
    switch (vs_draw (3)) { case 0: d_release (vs_draw (D.nd)); break; case 1: if (D.np) d_complete (vs_draw (D.np)); break; default: d_check (false); }
  return NULL;
}
static void
delayed_once (bool threads)
{
  memset (&D, 0, sizeof D);
  vs_objects_mark ();
  D.np = vs_draw (3); for (int i = 0; i < D.np; i++) D.p[i] = dex_promise_new ();
  D.nd = 1 + vs_draw (3);
  DexFuture *watch[4];
  for (int i = 0; i < D.nd; i++)
    {
      D.in[i] = D.np && vs_draw (4) != 3 ? (int)vs_draw (D.np) : -1 - (int)vs_draw (2);
      if (D.in[i] >= 0 && vs_draw (3) == 2) d_complete (D.in[i]);
      DexFuture *in = D.in[i] >= 0 ? DEX_FUTURE (dex_ref (D.p[D.in[i]])) : D.in[i] == -1 ? dex_future_new_for_int (99) : dex_future_new_reject (quark, 99, "y");
      vs_log ("delayed %d over %d", i, D.in[i]);
      D.d[i] = dex_delayed_new (in);
      dex_unref (in);
      watch[i] = dex_future_finally (dex_ref (D.d[i]), delayed_cb, GINT_TO_POINTER (i), NULL);
    }
  d_check (false);
  bool mt = threads && vs_draw (2);
  if (mt)
    {
      int nt = 1 + vs_draw (2); GThread *t[2];
      for (int i = 0; i < nt; i++) t[i] = g_thread_new ("d", d_thread, NULL);
      d_thread (NULL);
      for (int i = 0; i < nt; i++) g_thread_join (t[i]);
    }
  else
    for (int i = 0, n = 1 + vs_draw (8); i < n; i++)
      { switch (vs_draw (3)) { case 0: d_release (vs_draw (D.nd)); break; case 1: if (D.np) d_complete (vs_draw (D.np)); break; default: break; } vs_run_idle (); d_check (true); }
  vs_run_idle (); d_check (true);
  int rel_first = 0;
  if (vs_draw (3) != 2)
    {
      for (int i = 0; i < D.nd; i++) d_release (i);
      for (int i = 0; i < D.np; i++) { if (!D.out[i]) rel_first++; d_complete (i); }
      vs_run_idle (); d_check (true);
      for (int i = 0; i < D.nd; i++) vs_check (D.cb[i] == 1, "lost", "delayed %d never completed", i);
    }
  if (rel_first) vs_label ("released before input");
  if (mt) vs_label ("threads");
  if (D.np) vs_nontrivial ();
  int order = vs_draw (3);
  if (order == 0) for (int i = 0; i < D.np; i++) dex_unref (D.p[i]);
  for (int i = 0; i < D.nd; i++) { if (order == 1) { dex_unref (watch[i]); dex_unref (D.d[i]); } else { dex_unref (D.d[i]); dex_unref (watch[i]); } }
  if (order) for (int i = 0; i < D.np; i++) dex_unref (D.p[i]);
  vs_run_idle ();
  vs_objects_check ("after dropping delayed futures");
}
static void run_delayed (void) { quark = g_quark_from_static_string ("vs-error"); if (vs_draw (8) == 7) VS_RUN_ROUNDS (delayed_once (false)); else { vs_begin (VS_PREEMPT_AUTO); delayed_once (true); vs_end (); } }

/* ------------------------------------------------------------------ */
/* B03: callbacks and fibers stay on their thread                      */
#define NA 16
typedef struct { int tid; bool on_pool; int ran; DexFuture *f; DexPromise *mid, *in; bool fiber; int want; bool released; int links, links_ran, links_made; } Aff;
static Aff af[NA]; static int naf; static DexPromise *ap[4]; static int nap; static int n_cross; static int pool_threads_seen;
static bool on_pool_thread (void) { DexScheduler *s = dex_scheduler_get_thread_default (); return vs_self_id () != 0 && s != NULL && s != dex_scheduler_get_default (); }
static void aff_destroy (gpointer u) { Aff *a = u; vs_check (!a->released, "destroy-twice", "released twice"); a->released = true; }
static DexFuture *
aff_cb (DexFuture *f, gpointer u)
{
  Aff *a = u; int me = vs_self_id ();
  vs_check (!dex_future_is_pending (f), "early", "callback got a pending future");
  vs_check (me == a->tid, "wrong-thread", "callback attached on T%d ran on T%d", a->tid, me);
  a->ran++;
  vs_point ();
  if (a->ran == 1 && a->mid) return DEX_FUTURE (dex_ref (a->mid));
  return NULL;
}
static DexFuture *
aff_link_cb (DexFuture *f, gpointer u)
{
  Aff *a = u; int me = vs_self_id ();
  vs_check (me == a->tid, "wrong-thread", "chained callback attached on T%d ran on T%d", a->tid, me);
  a->links_ran++;
  return vs_draw (4) == 3 ? dex_future_new_for_int (8) : NULL;
}
static DexFuture *
aff_fiber (gpointer u)
{
  Aff *a = u; int me = vs_self_id (), n = a->want;
  if (a->on_pool) vs_check (me != 0 && on_pool_thread (), "wrong-thread", "fiber of the pool started on T%d", me);
  else vs_check (me == 0, "wrong-thread", "fiber of the main scheduler started on T%d", me);
  for (int i = 0; i < n; i++)
    {
      DexPromise *p = ap[i % nap];
      dex_await (DEX_FUTURE (dex_ref (p)), NULL);
      vs_check (!dex_future_is_pending (DEX_FUTURE (p)), "early", "fiber resumed before its future completed");
      vs_check (vs_self_id () == me, "wrong-thread", "fiber started on T%d was resumed on T%d", me, vs_self_id ());
    }
  a->ran++;
  return dex_future_new_for_int (1);
}
static void
aff_attach (void)
{
  if (naf >= NA) return;
  Aff *a = &af[naf++];
  a->tid = vs_self_id (); a->on_pool = on_pool_thread ();
  if (!a->on_pool) a->tid = 0;
  if (vs_draw (3) == 2) { vs_nopre_push (); a->mid = dex_promise_new (); vs_nopre_pop (); }
  DexFuture *in = DEX_FUTURE (dex_ref (ap[vs_draw (nap)]));
  vs_log ("attach %d on T%d pool %d", naf - 1, vs_self_id (), a->on_pool);
  bool loop = a->mid && vs_draw (2);
  a->want = loop ? 2 : 1;
  a->f = loop ? dex_future_finally_loop (in, aff_cb, a, aff_destroy) : dex_future_finally (in, aff_cb, a, aff_destroy);
  if (vs_draw (2)) for (a->links = 1 + vs_draw (8); a->links > a->links_made; a->links_made++) a->f = dex_future_finally (a->f, aff_link_cb, a, NULL);
}
static void
aff_attach_item (gpointer u)
{
  for (int n = 1 + vs_draw (2); n > 0; n--) aff_attach ();
  /* complete something here and stay busy, so that what was put off to later waits */
  if (vs_draw (2))
    {
      int k = vs_draw (nap);
      vs_log ("T%d completes %d", vs_self_id (), k);
      dex_promise_resolve_int (ap[k], 9);
      if (vs_draw (2)) g_usleep (1000); else for (int i = vs_draw (12); i > 0; i--) vs_point ();
    }
  g_atomic_int_inc (&pool_threads_seen);
}
static gpointer
aff_completer (gpointer u)
{
  for (int i = 0; i < nap; i++) { vs_point (); if (vs_draw (2)) dex_promise_resolve_int (ap[i], 3); }
  for (int i = 0; i < NA; i++) if (i < naf && af[i].mid && vs_draw (2)) dex_promise_resolve_int (af[i].mid, 4);
  if (vs_draw (3) == 0) aff_attach ();
  return NULL;
}
static void
run_affinity (void)
{
  memset (af, 0, sizeof af); naf = 0; n_cross = 0; pool_threads_seen = 0;
  vs_set_nproc (2 + 2 * vs_draw (4));
  vs_begin (VS_PREEMPT_AUTO);
  DexScheduler *pool = dex_thread_pool_scheduler_get_default ();
  nap = 1 + vs_draw (3);
  for (int i = 0; i < nap; i++) ap[i] = dex_promise_new ();
  int want_items = vs_draw (3), pf = vs_draw (3), mf = vs_draw (3);
  for (int i = 0; i < want_items; i++) dex_scheduler_push (pool, aff_attach_item, NULL);
  for (int i = 0; i < 2; i++) if (vs_draw (2)) aff_attach ();
  for (int i = 0; i < pf + mf && naf < NA; i++)
    { Aff *a = &af[naf++]; a->fiber = true; a->on_pool = i < pf; a->want = 1 + vs_draw (3); a->f = dex_scheduler_spawn (a->on_pool ? pool : NULL, 0, aff_fiber, a, aff_destroy); }
  if (vs_draw (2)) vs_run_idle ();
  int nt = 1 + vs_draw (2); GThread *t[3];
  for (int i = 0; i < nt; i++) t[i] = g_thread_new ("c", aff_completer, NULL);
  for (int i = vs_draw (4); i > 0; i--) { g_main_context_iteration (NULL, FALSE); vs_point (); }
  for (int i = 0; i < nt; i++) g_thread_join (t[i]);
  vs_run_idle ();
  vs_advance (20000); vs_run_idle ();
  vs_check (pool_threads_seen == want_items, "lost-item", "%d of %d items pushed to the pool ran", pool_threads_seen, want_items);
  for (int i = 0; i < nap; i++) dex_promise_resolve_int (ap[i], 5);
  vs_run_idle ();
  for (int i = 0; i < naf; i++) if (af[i].mid) dex_promise_resolve_int (af[i].mid, 6);
  vs_run_idle ();
  int pool_cb = 0, fib = 0;
  for (int i = 0; i < naf; i++)
    {
      vs_check (af[i].f != NULL, "internal", "no future");
      vs_check (!dex_future_is_pending (af[i].f), "not-completed", "observer %d never completed", i);
      vs_check (af[i].ran == (af[i].fiber ? 1 : af[i].want), "runs", "observer %d (%s) ran %d times, %d expected", i, af[i].fiber ? "fiber" : "callback", af[i].ran, af[i].want);
      vs_check (af[i].links_ran == af[i].links, "runs", "%d of %d chained callbacks of observer %d ran", af[i].links_ran, af[i].links, i);
      if (af[i].on_pool && af[i].links > 3) vs_label ("long chain on a pool thread");
      pool_cb += af[i].on_pool && !af[i].fiber; fib += af[i].fiber;
    }
  if (pool_cb) vs_label ("callback on a pool thread");
  if (fib) vs_label ("fiber");
  if (naf > 1 && (pool_cb || fib)) vs_nontrivial ();
  for (int i = 0; i < naf; i++) { dex_clear (&af[i].f); dex_clear (&af[i].mid); }
  for (int i = 0; i < nap; i++) dex_clear (&ap[i]);
  vs_run_idle ();
  for (int i = 0; i < naf; i++) vs_check (af[i].released, "not-destroyed", "data of observer %d not released", i);
  vs_end ();
}

VS_HARNESS (c1) = { "promise-races", "up to 4 threads complete and read shared promises and futures derived from them; non-trivial: some promise got several completion attempts and was read after completion", run_races, 80 };
VS_HARNESS (c2) = { "typed", "values of every type through every constructor, wrapper and await, matching or not; non-trivial: more than one value in the case", run_typed, 60 };
VS_HARNESS (c3) = { "long", "chains and loops of up to 9000 callbacks; non-trivial: more than 100 links or turns", run_long, 40 };
VS_HARNESS (c4) = { "delayed", "delayed futures over pending, completed and static inputs, released and completed in any order by up to 3 threads; non-trivial: a delayed future has a promise as input", run_delayed, 80 };
VS_HARNESS (c5) = { "affinity", "callbacks attached on the main thread, plain threads and pool threads, and fibers of both schedulers; other threads complete; non-trivial: more than one observer, one of them a fiber or on a pool thread", run_affinity, 1 };

/* ------------------------------------------------------------------ */
/* B02: data may be any pointer, NULL included: who is who is told by the functions instead */
#define ND_MAX 8
static struct { int kind, runs, freed, mode; bool gone; gpointer data; DexFuture *f; } nd[ND_MAX];
static DexFuture *nd_other;
static void
nd_free (int i, gpointer d)
{
  vs_log ("data of %d released", i);
  vs_check (d == nd[i].data, "data", "destroy function %d was called with the data of another", i);
  vs_check (++nd[i].freed == 1, "twice", "the data of %d was released %d times", i, nd[i].freed);
}
static DexFuture *
nd_run (int i, gpointer d)
{
  nd[i].runs++;
  vs_log ("function %d runs", i);
  vs_check (d == nd[i].data, "data", "function %d was called with the data of another", i);
  vs_check (!nd[i].freed, "early", "function %d runs although its data was released", i);
  vs_check (nd[i].runs == 1 || (nd[i].kind >= 3 && nd[i].kind < 6), "twice", "function %d ran %d times", i, nd[i].runs);
  switch (nd[i].runs >= 4 ? 0 : nd[i].mode)
    {
    case 1: return dex_future_new_true ();
    case 2: return dex_future_new_reject (DEX_ERROR, DEX_ERROR_UNKNOWN, "planned");
    case 3: return dex_ref (nd_other);
    case 4: if (nd[i].kind >= 6) { dex_await (dex_ref (nd_other), NULL); vs_check (!nd[i].freed, "early", "the data of fiber %d was released while it runs", i); } return NULL;
    default: return NULL;
    }
}
#define ND(i) static DexFuture *nd_cb##i (DexFuture *f, gpointer u) { return nd_run (i, u); } static DexFuture *nd_fn##i (gpointer u) { return nd_run (i, u); } static void nd_free##i (gpointer u) { nd_free (i, u); }
ND(0) ND(1) ND(2) ND(3) ND(4) ND(5) ND(6) ND(7)
static DexFutureCallback nd_cbs[] = { nd_cb0, nd_cb1, nd_cb2, nd_cb3, nd_cb4, nd_cb5, nd_cb6, nd_cb7 };
static DexFiberFunc nd_fns[] = { nd_fn0, nd_fn1, nd_fn2, nd_fn3, nd_fn4, nd_fn5, nd_fn6, nd_fn7 };
static GDestroyNotify nd_frees[] = { nd_free0, nd_free1, nd_free2, nd_free3, nd_free4, nd_free5, nd_free6, nd_free7 };
static DexFuture *nd_nop (gpointer u) { return NULL; }
static void
nd_once (void)
{
  static const char *kn[] = { "then", "catch", "finally", "then-loop", "catch-loop", "finally-loop", "fiber", "fiber of an own stack" };
  memset (nd, 0, sizeof nd); dex_unref (dex_future_new_true ()); dex_unref (dex_future_new_false ()); dex_unref (dex_scheduler_spawn (NULL, 0, nd_nop, NULL, NULL)); vs_run_idle ();
  vs_objects_mark ();
  DexPromise *p[2] = { dex_promise_new (), dex_promise_new () }; nd_other = DEX_FUTURE (p[1]);
  int n = 1 + vs_draw (ND_MAX), ran = 0, null = 0;
  for (int i = 0; i < n; i++)
    {
      nd[i].kind = vs_draw (8); nd[i].mode = vs_draw (5); nd[i].data = vs_draw (3) ? NULL : GINT_TO_POINTER (vs_draw (3) - 1); null += !nd[i].data;
      DexFuture *in = nd[i].kind >= 6 ? NULL : i && vs_draw (2) && nd[i - 1].f ? dex_ref (nd[i - 1].f) : vs_draw (2) ? dex_ref (p[0]) : vs_draw (2) ? dex_future_new_true () : dex_future_new_reject (DEX_ERROR, DEX_ERROR_UNKNOWN, "planned");
      vs_log ("%d: %s, function %d, data %p", i, kn[nd[i].kind], nd[i].mode, nd[i].data);
      DexFuture *f = NULL;
      switch (nd[i].kind)
        {
        case 0: f = dex_future_then (in, nd_cbs[i], nd[i].data, nd_frees[i]); break;
        case 1: f = dex_future_catch (in, nd_cbs[i], nd[i].data, nd_frees[i]); break;
        case 2: f = dex_future_finally (in, nd_cbs[i], nd[i].data, nd_frees[i]); break;
        case 3: f = dex_future_then_loop (in, nd_cbs[i], nd[i].data, nd_frees[i]); break;
        case 4: f = dex_future_catch_loop (in, nd_cbs[i], nd[i].data, nd_frees[i]); break;
        case 5: f = dex_future_finally_loop (in, nd_cbs[i], nd[i].data, nd_frees[i]); break;
        default: f = dex_scheduler_spawn (NULL, nd[i].kind == 6 ? 0 : 4096 * 12, nd_fns[i], nd[i].data, nd_frees[i]); break;
        }
      nd[i].f = f;
      if (vs_draw (4) == 3) vs_run_idle ();
      if (vs_draw (5) == 4) { int k = vs_draw (i + 1); if (nd[k].f) { vs_log ("drop %d", k); dex_clear (&nd[k].f); } }
    }
  for (int k = 0, first = vs_draw (2); k < 2; k++)
    {
      if (vs_draw (3) == 2) for (int i = 0; i < n; i++) if (nd[i].f && vs_draw (2)) { vs_log ("drop %d", i); dex_clear (&nd[i].f); }
      int w = first ^ k;
      if (vs_draw (2)) vs_run_idle ();
      vs_log ("promise %d ends", w);
      if (vs_draw (2)) dex_promise_resolve_boolean (p[w], TRUE); else dex_promise_reject (p[w], g_error_new_literal (DEX_ERROR, DEX_ERROR_UNKNOWN, "planned"));
    }
  vs_run_idle ();
  for (int i = 0; i < n; i++)
    {
      ran += !!nd[i].runs;
      if (nd[i].kind >= 6) vs_check (nd[i].runs == 1 && nd[i].freed == 1, "fiber", "fiber %d ran %d times, its data was released %d times", i, nd[i].runs, nd[i].freed);
      if (nd[i].f) vs_check (!dex_future_is_pending (nd[i].f), "pending", "future %d is still pending", i);
      dex_clear (&nd[i].f);
    }
  nd_other = NULL; dex_clear (&p[0]); dex_clear (&p[1]);
  vs_run_idle ();
  for (int i = 0; i < n; i++) vs_check (nd[i].freed == 1, "never", "the data of %d was released %d times", i, nd[i].freed);
  vs_objects_check ("after dropping everything");
  if (null && ran) { vs_label ("NULL data"); vs_nontrivial (); }
}
static void run_nd (void) { vs_begin (VS_PREEMPT_NONE); nd_once (); vs_end (); }
VS_HARNESS (c_nd) = { "null-data", "callbacks, loops and fibers whose data is NULL or a small number, run, skipped and dropped; non-trivial: one with NULL data, and one which ran", run_nd, 100 };
