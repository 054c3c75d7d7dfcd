/* References and weak references of DexObject under generated schedules. */
#include "vs.h"
#include <libdex.h>
#include <gobject/gvaluecollector.h>
#include <stdatomic.h>
#include <string.h>
#include "dex-object-private.h"

typedef struct { DexObject parent_instance; int id; guint64 canary; } VsObj;
typedef struct { DexObjectClass parent_class; } VsObjClass;
GType vs_obj_get_type (void);
DEX_DEFINE_FINAL_TYPE (VsObj, vs_obj, DEX_TYPE_OBJECT)
#define CANARY G_GUINT64_CONSTANT (0x5ca1ab1e0ddba11)

#define NO 4
#define NW 4
#define NSLOT 5
#define NT 4
static struct { VsObj *ptr; int held, finalized; } ob[NO]; static int nob;
typedef struct { int obj; long start, end; } SetOp;       /* obj -1 = NULL */
static struct { DexWeakRef w; SetOp s[64]; int ns; } we[NW]; static int nwe;
typedef struct { int slot[NSLOT]; DexWeakRef pw; int pw_obj; bool pw_live; } Th;
static Th th[NT]; static long tick; static int n_weak_hit, n_weak_null, n_set;

static void
vs_obj_finalize (DexObject *o)
{
  VsObj *x = (VsObj *)o;
  vs_check (x->canary == CANARY, "finalize-twice", "object finalized twice or corrupt");
  vs_check (x->id >= 0 && x->id < nob, "corrupt", "object id %d", x->id);
  vs_check (!ob[x->id].finalized, "finalize-twice", "object %d finalized twice", x->id);
  vs_check (ob[x->id].held == 0, "finalized-early", "object %d finalized while %d references are held", x->id, ob[x->id].held);
  ob[x->id].finalized = 1;
  x->canary = 0;
  DEX_OBJECT_CLASS (vs_obj_parent_class)->finalize (o);
}
static void vs_obj_class_init (VsObjClass *k) { ((DexObjectClass *)k)->finalize = vs_obj_finalize; }
static void vs_obj_init (VsObj *x) { x->canary = CANARY; x->id = -1; }

static int
any_slot (Th *t)
{
  int k[NSLOT], n = 0;
  for (int i = 0; i < NSLOT; i++) if (t->slot[i] >= 0) k[n++] = i;
  return n ? k[vs_draw (n)] : -1;
}
static int free_slot (Th *t) { for (int i = 0; i < NSLOT; i++) if (t->slot[i] < 0) return i; return -1; }
static void
release (Th *t, int s)
{
  int o = t->slot[s];
  t->slot[s] = -1;
  ob[o].held--;
  vs_log ("unref %d", o);
  dex_unref (ob[o].ptr);
}
static bool holds (Th *t, int o) { for (int i = 0; i < NSLOT; i++) if (t->slot[i] == o) return true; return false; }
static int
obj_of (gpointer p, const char *what)
{
  VsObj *x = p;
  for (int i = 0; i < nob; i++)
    if (ob[i].ptr == x)
      {
        vs_check (!ob[i].finalized, "dead-object", "%s returned object %d after it was finalized", what, i);
        vs_check (x->canary == CANARY && x->id == i, "corrupt", "%s returned a corrupt object", what);
        return i;
      }
  vs_fail ("bad-pointer", "%s returned %p which is no object", what, p);
}
static void
weak_get (Th *t, int w)
{
  int s = free_slot (t);
  if (s < 0) return;
  long start = ++tick;
  bool had[NO]; for (int i = 0; i < nob; i++) had[i] = holds (t, i);
  gpointer p = dex_weak_ref_get (&we[w].w);
  long end = ++tick;
  /* last set that had certainly finished before this read began */
  int sure = -1; bool conc = false;
  for (int i = 0; i < we[w].ns; i++)
    {
      SetOp *x = &we[w].s[i];
      if (x->end < start && (sure < 0 || x->end > we[w].s[sure].end)) sure = i;
      if (x->start < end && x->end > start) conc = true;
    }
  /* other sets overlapping the last one may have had the last word too */
  bool amb = conc;
  for (int i = 0; i < we[w].ns; i++) if (i != sure && we[w].s[i].start < we[w].s[sure].end && we[w].s[i].end > we[w].s[sure].start) amb = true;
  if (p)
    {
      int o = obj_of (p, "dex_weak_ref_get"); bool ok = false;
      ob[o].held++; t->slot[s] = o; n_weak_hit++;
      for (int i = 0; i < we[w].ns; i++)
        {
          SetOp *x = &we[w].s[i];
          if (x->obj != o || x->start >= end) continue;
          bool over = false;
          for (int j = 0; j < we[w].ns; j++) if (we[w].s[j].start > x->end && we[w].s[j].end < start && we[w].s[j].obj != o) over = true;
          ok |= !over;
        }
      vs_log ("get %d = %d", w, o);
      vs_check (ok, "wrong-object", "weak reference %d returned object %d which it was not set to", w, o);
    }
  else
    {
      n_weak_null++;
      vs_log ("get %d = NULL", w);
      int o = we[w].s[sure].obj;
      if (!amb && o >= 0 && had[o])
        vs_fail ("lost-object", "weak reference %d returned nothing although it was set to object %d, which is alive", w, o);
    }
}
static void
weak_set (Th *t, int w)
{
  int s = vs_draw (4) ? any_slot (t) : -1, o = s >= 0 ? t->slot[s] : -1;
  if (we[w].ns >= 64) return;
  SetOp *x = &we[w].s[we[w].ns++];
  x->obj = o; x->start = ++tick; x->end = 1L << 60; n_set++;
  vs_log ("set %d to %d", w, o);
  dex_weak_ref_set (&we[w].w, o >= 0 ? ob[o].ptr : NULL);
  x->end = ++tick;
}
static void
ops (Th *t, int n, bool weak, bool sets)
{
  for (int i = 0; i < n; i++)
    switch (vs_draw (weak ? sets ? 9 : 7 : 3))
      {
      case 0: { int s = any_slot (t); if (s >= 0) release (t, s); } break;
      case 1: { int s = any_slot (t), d = free_slot (t); if (s >= 0 && d >= 0) { int o = t->slot[s]; t->slot[d] = o; ob[o].held++; vs_log ("ref %d", o); dex_ref (ob[o].ptr); } } break;
      case 2: vs_point (); break;
      case 3: case 4: if (nwe) weak_get (t, vs_draw (nwe)); break;
      case 5: /* a weak reference of this thread's own: init, maybe read, clear */
        if (!t->pw_live)
          { int s = any_slot (t); t->pw_obj = s >= 0 ? t->slot[s] : -1; vs_log ("init own to %d", t->pw_obj); dex_weak_ref_init (&t->pw, s >= 0 ? ob[t->pw_obj].ptr : NULL); t->pw_live = true; }
        else
          { vs_log ("clear own"); dex_weak_ref_clear (&t->pw); t->pw_live = false; }
        break;
      case 6:
        if (t->pw_live)
          {
            int s = free_slot (t); bool had = t->pw_obj >= 0 && holds (t, t->pw_obj);
            if (s < 0) break;
            gpointer p = dex_weak_ref_get (&t->pw);
            if (p) { int o = obj_of (p, "dex_weak_ref_get"); ob[o].held++; t->slot[s] = o; n_weak_hit++; vs_check (o == t->pw_obj, "wrong-object", "own weak reference to %d returned %d", t->pw_obj, o); }
            else { n_weak_null++; vs_check (!had, "lost-object", "own weak reference to live object %d returned nothing", t->pw_obj); }
            vs_log ("get own = %d", p ? t->pw_obj : -1);
          }
        break;
      default: if (nwe) weak_set (t, vs_draw (nwe)); break;
      }
}
static bool f_weak, f_sets;
static gpointer
thread_fn (gpointer u)
{
  Th *t = u;
  ops (t, 1 + vs_draw (8), f_weak, f_sets);
  if (vs_draw (2)) for (int i = 0; i < NSLOT; i++) if (t->slot[i] >= 0) release (t, i);
  return NULL;
}
static void
quiet (void)
{
  for (int i = 0; i < nob; i++) vs_check (ob[i].finalized == (ob[i].held == 0), ob[i].finalized ? "finalized-early" : "not-finalized", "object %d: %d references held, finalized %d", i, ob[i].held, ob[i].finalized);
}
static void
run_obj (bool weak, bool sets)
{
  vs_begin (VS_PREEMPT_AUTO);

  vs_objects_mark ();
  memset (ob, 0, sizeof ob); memset (we, 0, sizeof we); memset (th, 0, sizeof th);
  tick = 0; n_weak_hit = n_weak_null = n_set = 0; f_weak = weak; f_sets = sets;
  nob = 1 + vs_draw (NO - 1); nwe = weak ? 1 + vs_draw (NW - 1) : 0;
  for (int i = 0; i < NT; i++) for (int j = 0; j < NSLOT; j++) th[i].slot[j] = -1;
  for (int i = 0; i < nob; i++)
    {
      VsObj *x = (VsObj *)dex_object_create_instance (vs_obj_get_type ());
      x->id = i; ob[i].ptr = x; ob[i].held = 1; th[0].slot[i] = i;
    }
  for (int w = 0; w < nwe; w++)
    {
      int o = vs_draw (nob + 1) - 1;
      vs_log ("weak %d on %d", w, o);
      dex_weak_ref_init (&we[w].w, o >= 0 ? ob[o].ptr : NULL);
      we[w].s[we[w].ns++] = (SetOp) { o, tick, tick + 1 }; tick += 2;
    }
  int nt = 1 + vs_draw (NT - 1); GThread *t[NT];
  for (int i = 1; i <= nt && i < NT; i++)
    for (int j = 0; j < nob; j++)
      if (vs_draw (3)) { th[i].slot[j] = j; ob[j].held++; dex_ref (ob[j].ptr); }
  int last = MIN (nt, NT - 1);
  for (int i = 1; i <= last; i++) t[i] = g_thread_new ("obj", thread_fn, &th[i]);
  ops (&th[0], 1 + vs_draw (8), weak, sets);
  if (vs_draw (2)) for (int i = 0; i < NSLOT; i++) if (th[0].slot[i] >= 0) release (&th[0], i);
  for (int i = 1; i <= last; i++) g_thread_join (t[i]);
  quiet ();
  /* everything still reachable through weak references is what it should be */
  for (int w = 0; w < nwe; w++) weak_get (&th[0], w);
  bool early = vs_draw (2);
  if (early) for (int w = 0; w < nwe; w++) dex_weak_ref_clear (&we[w].w);
  for (int i = 0; i <= last; i++) for (int j = 0; j < NSLOT; j++) if (th[i].slot[j] >= 0) release (&th[i], j);
  quiet ();
  if (!early)
    for (int w = 0; w < nwe; w++)
      {
        vs_check (dex_weak_ref_get (&we[w].w) == NULL, "dead-object", "weak reference %d still returns an object", w);
        dex_weak_ref_clear (&we[w].w);
      }
  for (int i = 0; i <= last; i++) if (th[i].pw_live) dex_weak_ref_clear (&th[i].pw);
  for (int i = 0; i < nob; i++) vs_check (ob[i].finalized, "not-finalized", "object %d was never finalized", i);
  vs_objects_check ("after dropping all references");
  if (n_weak_hit) vs_label ("revived through a weak reference");
  if (n_weak_null) vs_label ("read nothing");
  if (n_set) vs_label ("retargeted");
  if (!weak || n_weak_hit || n_weak_null) vs_nontrivial ();
  vs_end ();
}
static void run_refs (void) { run_obj (vs_draw (4) != 3, false); }
static void run_weak (void) { run_obj (true, true); }
/* ================= objects as values ================= */
#define NV 5
#define NF 4
static struct { GValue v; int o; bool live; } va[NV]; static struct { DexFuture *f; int o; DexPromise *p; } fu[NF]; static int own[NO];
static GType vtype (void) { return vs_draw (2) ? DEX_TYPE_OBJECT : vs_obj_get_type (); }
static void hold (int o, int d) { if (o >= 0) { ob[o].held += d; } }
static int value_obj (const GValue *v, const char *what) { DexObject *x = dex_value_get_object (v); return x ? obj_of (x, what) : -1; }
static void
check_values (void)
{
  quiet ();
  for (int i = 0; i < NV; i++) if (va[i].live) { vs_check (value_obj (&va[i].v, "a value") == va[i].o, "wrong-object", "value %d holds another object than %d", i, va[i].o); vs_check (g_value_peek_pointer (&va[i].v) == (va[i].o < 0 ? NULL : ob[va[i].o].ptr), "wrong-object", "value %d gives another pointer", i); }
  for (int i = 0; i < NF; i++)
    if (fu[i].f && !(fu[i].p && dex_future_is_pending (fu[i].f)))
      {
        GError *e = NULL; const GValue *v = dex_future_get_value (fu[i].f, &e);
        vs_check (v && !e && G_VALUE_HOLDS (v, DEX_TYPE_OBJECT), "value", "future %d has no object value", i);
        vs_check (value_obj (v, "a future") == fu[i].o, "wrong-object", "future %d holds another object than %d", i, fu[i].o);
      }
}
static void
values_once (void)
{
  vs_objects_mark ();
  memset (ob, 0, sizeof ob); memset (va, 0, sizeof va); memset (fu, 0, sizeof fu); memset (own, 0, sizeof own); nob = 1 + vs_draw (NO);
  for (int i = 0; i < nob; i++) { VsObj *x = (VsObj *)dex_object_create_instance (vs_obj_get_type ()); x->id = i; ob[i].ptr = x; ob[i].held = own[i] = 1; }
  int copies = 0, futs = 0;
  for (int n = 2 + vs_draw (24); n > 0; n--)
    {
      int o = vs_draw (nob + 1) - 1; if (o >= 0 && !own[o]) o = -1;      /* objects of our own only */
      gpointer p = o >= 0 ? ob[o].ptr : NULL;
      int i = vs_draw (NV), j = vs_draw (NV), k = vs_draw (NF), what = vs_draw (11);
      if (!va[i].live) { g_value_init (&va[i].v, vtype ()); va[i].live = true; va[i].o = -1; }
      switch (what)
        {
        case 0: { int was = va[i].o; vs_log ("set %d to %d", i, o); hold (o, 1); if (was != o) hold (was, -1); else if (o >= 0) ob[o].held--; va[i].o = o; dex_value_set_object (&va[i].v, p); } break;
        case 1: if (o >= 0) { int was = va[i].o; vs_log ("give %d to %d", o, i); own[o]--; hold (was, -1); va[i].o = o; dex_value_take_object (&va[i].v, p); } else { hold (va[i].o, -1); va[i].o = -1; dex_value_take_object (&va[i].v, NULL); } break;
        case 2: vs_log ("unset %d", i); hold (va[i].o, -1); va[i].live = false; g_value_unset (&va[i].v); break;
        case 3: if (i != j) { if (va[j].live) { hold (va[j].o, -1); g_value_unset (&va[j].v); } vs_log ("copy %d to %d", i, j); g_value_init (&va[j].v, G_VALUE_TYPE (&va[i].v)); va[j].live = true; va[j].o = va[i].o; hold (va[i].o, 1); g_value_copy (&va[i].v, &va[j].v); copies++; } break;
        case 4: /* collected from and given to variable arguments, as g_object_set () and g_object_get () do */
          { hold (va[i].o, -1); g_value_unset (&va[i].v); GTypeCValue c = { .v_pointer = p }; GType t = vtype (); g_value_init (&va[i].v, t);
            char *e = g_type_value_table_peek (t)->collect_value (&va[i].v, 1, &c, 0); vs_check (!e, "collect", "%s", e); va[i].o = o; hold (o, 1); vs_log ("collect %d into %d", o, i); copies++; }
          break;
        case 5:
          { gpointer out = &out; GTypeCValue c = { .v_pointer = &out }; bool nocopy = vs_draw (2);
            char *e = g_type_value_table_peek (G_VALUE_TYPE (&va[i].v))->lcopy_value (&va[i].v, 1, &c, nocopy ? G_VALUE_NOCOPY_CONTENTS : 0); vs_check (!e, "lcopy", "%s", e);
            vs_check (out == (va[i].o < 0 ? NULL : ob[va[i].o].ptr), "wrong-object", "value %d gives another object to its caller", i);
            vs_log ("lcopy %d", i);
            if (!nocopy && out) { hold (va[i].o, 1); own[va[i].o]++; } }
          break;
        case 6: case 7:
          if (!fu[k].f)
            {
              futs++; fu[k].o = va[i].o;
              switch (vs_draw (3))
                {
                case 0: vs_log ("future %d of value %d", k, i); hold (va[i].o, 1); fu[k].f = dex_future_new_for_value (&va[i].v); break;
                case 1: vs_log ("promise %d of value %d", k, i); hold (va[i].o, 1); fu[k].p = dex_promise_new (); fu[k].f = DEX_FUTURE (dex_ref (fu[k].p)); dex_promise_resolve (fu[k].p, &va[i].v); break;
                default: vs_log ("promise %d", k); fu[k].p = dex_promise_new (); fu[k].f = DEX_FUTURE (dex_ref (fu[k].p)); fu[k].o = -1; break;
                }
            }
          else if (fu[k].p && dex_future_is_pending (fu[k].f)) { vs_log ("resolve %d with value %d", k, i); fu[k].o = va[i].o; hold (va[i].o, 1); dex_promise_resolve (fu[k].p, &va[i].v); }
          break;
        case 8: if (fu[k].f) { vs_log ("drop future %d", k); hold (fu[k].o, -1); dex_clear (&fu[k].p); dex_clear (&fu[k].f); } break;
        case 9: if (o >= 0) { vs_log ("drop %d", o); own[o]--; hold (o, -1); dex_unref (p); } break;
        case 10: if (va[i].o >= 0) { int q = va[i].o; own[q]++; hold (q, 1); dex_ref (dex_value_get_object (&va[i].v)); } break;
        }
      check_values ();
    }
  for (int i = 0; i < NV; i++) if (va[i].live) { hold (va[i].o, -1); g_value_unset (&va[i].v); }
  for (int k = 0; k < NF; k++) if (fu[k].f) { hold (fu[k].o, -1); dex_clear (&fu[k].p); dex_clear (&fu[k].f); }
  for (int i = 0; i < nob; i++) while (own[i]) { own[i]--; hold (i, -1); dex_unref (ob[i].ptr); }
  quiet ();
  vs_objects_check ("after dropping all values");
  if (copies) vs_label ("copied"); if (futs) vs_label ("futures");
  if (copies && futs) vs_nontrivial ();
}
static void run_values (void) { dex_unref (dex_promise_new ()); VS_RUN_ROUNDS (values_once ()); }
VS_HARNESS (o3) = { "object-values", "objects stored in values and futures, copied, collected, handed out and dropped; several identical rounds; non-trivial: some value was copied and some future made", run_values, 80 };
VS_HARNESS (o1) = { "references", "up to 4 threads take and drop references to 1-3 objects, also through weak references; non-trivial: without weak references, or some weak reference was read", run_refs, 80 };
VS_HARNESS (o2) = { "weak-references", "up to 4 threads read, set, retarget, create and clear weak references while references are dropped; non-trivial: some weak reference was read", run_weak, 80 };
