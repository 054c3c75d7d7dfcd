/* The wrappers of GIO operations: against objects which record what they are
 * asked to do and end when the case says so. */
#include "vs.h"
#include <libdex.h>
#include <string.h>

enum { O_READ, O_SKIP, O_READ_BYTES, O_ICLOSE, O_WRITE, O_WRITE_BYTES, O_OCLOSE, O_SPLICE, O_FREAD, O_FREPLACE, O_FINFO, O_FMKDIR, O_FENUM, O_FCOPY, O_FEXISTS, O_FLOAD, O_NEXT, O_IOCLOSE, O_RESOLVE, NO };
static const char *oname[NO] = { "read", "skip", "read_bytes", "close input", "write", "write_bytes", "close output", "splice", "open", "replace", "query_info", "make_directory", "enumerate", "copy", "query_exists", "load_contents", "next_files", "close io", "lookup" };
#define MAXOP 14
typedef struct
{
  int id, kind, prio, code, obj, obj2; gsize count; guint flags; bool backup, fail; char *str; char *buf, *data; GBytes *bytes; gsize n; /* n: result */
  GObject *target, *target2, *result; GList *list; bool direct; int dcode; gint64 dval;          /* direct: GIO answers by itself */
  GTask *task; GCancellable *c; int calls; bool ended, cancelled_at_end;
  DexFuture *f, *aw, *setp; int awkind; bool awlive, must_cancel, may_cancel; int blk;
} Op;
static Op ops[MAXOP]; static int nops; static bool fin;
#define ND 0x5eed2

static Op *
the_op (int kind, gpointer self, int prio, GCancellable *c)
{
  for (int i = nops - 1; i >= 0; i--)
    if (ops[i].kind == kind && !ops[i].calls && ops[i].target == (GObject *)self && !ops[i].direct)
      {
        Op *o = &ops[i];
        o->calls++;
        vs_check (prio == G_MININT || prio == o->prio, "priority", "operation %d (%s) started with priority %d instead of %d", i, oname[kind], prio, o->prio);
        vs_check (c != NULL, "cancellable", "operation %d (%s) was started without a cancellation object", i, oname[kind]);
        vs_check (!g_cancellable_is_cancelled (c), "cancellable", "operation %d (%s) was started cancelled", i, oname[kind]);
        o->c = g_object_ref (c);
        return o;
      }
  vs_fail ("unexpected-call", "%s was called on an object nothing asked it of", oname[kind]);
}
static void
begin (Op *o, gpointer self, GCancellable *c, GAsyncReadyCallback cb, gpointer data)
{
  o->task = g_task_new (self, c, cb, data);
}
static void
same_args (Op *o, bool ok, const char *what)
{
  vs_check (ok, "arguments", "operation %d (%s) was started with another %s", o->id, oname[o->kind], what);
}

/* ---- streams ---- */
typedef struct { GInputStream parent; } VsIn; typedef struct { GInputStreamClass parent; } VsInClass; GType vs_in_get_type (void);
G_DEFINE_TYPE (VsIn, vs_in, G_TYPE_INPUT_STREAM)
static int in_kind;      /* read_bytes goes through read */
static void in_read (GInputStream *s, void *b, gsize n, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{ Op *o = the_op (in_kind, s, prio, c); same_args (o, n == o->count, "count"); if (o->kind == O_READ) same_args (o, b == (void *)o->buf, "buffer"); else o->buf = b; begin (o, s, c, cb, d); }
static gssize fin_ssize (gpointer s, GAsyncResult *r, GError **e) { return g_task_propagate_int (G_TASK (r), e); }
static gboolean fin_bool (gpointer s, GAsyncResult *r, GError **e) { return g_task_propagate_boolean (G_TASK (r), e); }
static gpointer fin_ptr (gpointer s, GAsyncResult *r, GError **e) { return g_task_propagate_pointer (G_TASK (r), e); }
static gssize sync_never (void) { vs_fail ("blocking", "a blocking function was called"); }
static void in_skip (GInputStream *s, gsize n, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = the_op (O_SKIP, s, prio, c); same_args (o, n == o->count, "count"); begin (o, s, c, cb, d); }
static void in_close (GInputStream *s, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { if (fin) { GTask *t = g_task_new (s, c, cb, d); g_task_return_boolean (t, TRUE); g_object_unref (t); return; } Op *o = the_op (O_ICLOSE, s, prio, c); begin (o, s, c, cb, d); }
static gboolean close_ok (void) { return TRUE; }
static void vs_in_class_init (VsInClass *k) { GInputStreamClass *c = (gpointer)k; c->read_fn = (gpointer)sync_never; c->skip = (gpointer)sync_never; c->close_fn = (gpointer)close_ok; c->read_async = in_read; c->read_finish = (gpointer)fin_ssize; c->skip_async = in_skip; c->skip_finish = (gpointer)fin_ssize; c->close_async = in_close; c->close_finish = (gpointer)fin_bool; }
static void vs_in_init (VsIn *s) {}
typedef struct { GOutputStream parent; } VsOut; typedef struct { GOutputStreamClass parent; } VsOutClass; GType vs_out_get_type (void);
G_DEFINE_TYPE (VsOut, vs_out, G_TYPE_OUTPUT_STREAM)
static int out_kind;
static void out_write (GOutputStream *s, const void *b, gsize n, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{ Op *o = the_op (out_kind, s, prio, c); same_args (o, n == o->count, "count"); same_args (o, !memcmp (b, o->data, n), "data"); begin (o, s, c, cb, d); }
static void out_close (GOutputStream *s, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = the_op (O_OCLOSE, s, prio, c); begin (o, s, c, cb, d); }
static void out_splice (GOutputStream *s, GInputStream *in, GOutputStreamSpliceFlags fl, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = the_op (O_SPLICE, s, prio, c); same_args (o, (GObject *)in == o->target2, "source"); same_args (o, fl == (GOutputStreamSpliceFlags)o->flags, "flags"); begin (o, s, c, cb, d); }
static void vs_out_class_init (VsOutClass *k) { GOutputStreamClass *c = (gpointer)k; c->write_fn = (gpointer)sync_never; c->close_fn = (gpointer)close_ok; c->write_async = out_write; c->write_finish = (gpointer)fin_ssize; c->close_async = out_close; c->close_finish = (gpointer)fin_bool; c->splice_async = out_splice; c->splice_finish = (gpointer)fin_ssize; }
static void vs_out_init (VsOut *s) {}
typedef struct { GFileInputStream parent; } VsFin; typedef struct { GFileInputStreamClass parent; } VsFinClass; GType vs_fin_get_type (void);
G_DEFINE_TYPE (VsFin, vs_fin, G_TYPE_FILE_INPUT_STREAM)
static void vs_fin_class_init (VsFinClass *k) { ((GInputStreamClass *)k)->close_fn = (gpointer)close_ok; } static void vs_fin_init (VsFin *s) {}
typedef struct { GFileOutputStream parent; } VsFout; typedef struct { GFileOutputStreamClass parent; } VsFoutClass; GType vs_fout_get_type (void);
G_DEFINE_TYPE (VsFout, vs_fout, G_TYPE_FILE_OUTPUT_STREAM)
static void vs_fout_class_init (VsFoutClass *k) { ((GOutputStreamClass *)k)->close_fn = (gpointer)close_ok; } static void vs_fout_init (VsFout *s) {}
typedef struct { GIOStream parent; } VsIo; typedef struct { GIOStreamClass parent; } VsIoClass; GType vs_io_get_type (void);
G_DEFINE_TYPE (VsIo, vs_io, G_TYPE_IO_STREAM)
static void io_close (GIOStream *s, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = the_op (O_IOCLOSE, s, prio, c); begin (o, s, c, cb, d); }
static void vs_io_class_init (VsIoClass *k) { GIOStreamClass *c = (gpointer)k; c->close_fn = (gpointer)close_ok; c->close_async = io_close; c->close_finish = (gpointer)fin_bool; } static void vs_io_init (VsIo *s) {}
/* ---- enumerator, resolver ---- */
typedef struct { GFileEnumerator parent; } VsEnum; typedef struct { GFileEnumeratorClass parent; } VsEnumClass; GType vs_enum_get_type (void);
G_DEFINE_TYPE (VsEnum, vs_enum, G_TYPE_FILE_ENUMERATOR)
static void en_next (GFileEnumerator *e, int n, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = the_op (O_NEXT, e, prio, c); same_args (o, n == (int)o->count, "number"); begin (o, e, c, cb, d); }
static void vs_enum_class_init (VsEnumClass *k) { GFileEnumeratorClass *c = (gpointer)k; c->close_fn = (gpointer)close_ok; c->next_files_async = en_next; c->next_files_finish = (gpointer)fin_ptr; } static void vs_enum_init (VsEnum *e) {}
typedef struct { GResolver parent; } VsRslv; typedef struct { GResolverClass parent; } VsRslvClass; GType vs_rslv_get_type (void);
G_DEFINE_TYPE (VsRslv, vs_rslv, G_TYPE_RESOLVER)
static void rs_lookup (GResolver *r, const char *name, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = the_op (O_RESOLVE, r, G_MININT, c); same_args (o, !g_strcmp0 (name, o->str), "name"); begin (o, r, c, cb, d); }
static void vs_rslv_class_init (VsRslvClass *k) { GResolverClass *c = (gpointer)k; c->lookup_by_name_async = rs_lookup; c->lookup_by_name_finish = (gpointer)fin_ptr; } static void vs_rslv_init (VsRslv *r) {}
/* ---- file ---- */
typedef struct { GObject parent; } VsFile; typedef struct { GObjectClass parent; } VsFileClass; GType vs_file_get_type (void);
static int info_kind;
static int read_kind;
static void fi_read (GFile *f, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = the_op (read_kind, f, read_kind == O_FLOAD ? G_MININT : prio, c); begin (o, f, c, cb, d); }
static void fi_replace (GFile *f, const char *etag, gboolean bak, GFileCreateFlags fl, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = the_op (O_FREPLACE, f, prio, c); same_args (o, !g_strcmp0 (etag, o->str), "etag"); same_args (o, bak == (gboolean)o->backup, "make_backup"); same_args (o, fl == (GFileCreateFlags)o->flags, "flags"); begin (o, f, c, cb, d); }
static void fi_info (GFile *f, const char *attr, GFileQueryInfoFlags fl, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = the_op (info_kind, f, info_kind == O_FEXISTS ? G_MININT : prio, c); if (info_kind == O_FINFO) { same_args (o, !g_strcmp0 (attr, o->str), "attributes"); same_args (o, fl == (GFileQueryInfoFlags)o->flags, "flags"); } else same_args (o, fl == G_FILE_QUERY_INFO_NONE && attr && *attr, "query"); begin (o, f, c, cb, d); }
static void fi_mkdir (GFile *f, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = the_op (O_FMKDIR, f, prio, c); begin (o, f, c, cb, d); }
static void fi_enum (GFile *f, const char *attr, GFileQueryInfoFlags fl, int prio, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { Op *o = the_op (O_FENUM, f, prio, c); same_args (o, !g_strcmp0 (attr, o->str), "attributes"); same_args (o, fl == (GFileQueryInfoFlags)o->flags, "flags"); begin (o, f, c, cb, d); }
static void fi_copy (GFile *f, GFile *to, GFileCopyFlags fl, int prio, GCancellable *c, GFileProgressCallback p, gpointer pd, GAsyncReadyCallback cb, gpointer d) { Op *o = the_op (O_FCOPY, f, prio, c); same_args (o, (GObject *)to == o->target2, "destination"); same_args (o, fl == (GFileCopyFlags)o->flags, "flags"); begin (o, f, c, cb, d); }
static GFile *fi_dup (GFile *f) { return g_object_ref (f); }
static char *fi_uri (GFile *f) { return g_strdup ("vs://f"); }
static void vs_file_iface (GFileIface *i) { i->dup = fi_dup; i->get_uri = fi_uri; i->get_parse_name = fi_uri; i->read_async = fi_read; i->read_finish = (gpointer)fin_ptr; i->replace_async = fi_replace; i->replace_finish = (gpointer)fin_ptr; i->query_info_async = fi_info; i->query_info_finish = (gpointer)fin_ptr; i->make_directory_async = fi_mkdir; i->make_directory_finish = (gpointer)fin_bool; i->enumerate_children_async = fi_enum; i->enumerate_children_finish = (gpointer)fin_ptr; i->copy_async = fi_copy; i->copy_finish = (gpointer)fin_bool; }
G_DEFINE_TYPE_WITH_CODE (VsFile, vs_file, G_TYPE_OBJECT, G_IMPLEMENT_INTERFACE (G_TYPE_FILE, vs_file_iface))
static void vs_file_class_init (VsFileClass *k) {} static void vs_file_init (VsFile *f) {}

/* ---- objects of a case ---- */
enum { T_IN, T_OUT, T_FILE, T_ENUM, T_IO, T_RSLV, NT_ };
#define PER 2
static struct { GObject *o; Op *busy; bool closing; } obj[NT_][PER];
static const int otype[NO] = { T_IN, T_IN, T_IN, T_IN, T_OUT, T_OUT, T_OUT, T_OUT, T_FILE, T_FILE, T_FILE, T_FILE, T_FILE, T_FILE, T_FILE, T_FILE, T_ENUM, T_IO, T_RSLV };

static void
list_unref (gpointer l) { g_list_free_full (l, g_object_unref); }
static void
mock_end (Op *o)
{
  if (o->ended || !o->task) return;
  o->ended = true;
  o->cancelled_at_end = g_cancellable_is_cancelled (o->c);
  vs_log ("operation %d ends%s%s", o->id, o->fail ? " with an error" : "", o->cancelled_at_end ? " after it was cancelled" : "");
  GTask *t = o->task; o->task = NULL;
  
  if (o->fail) g_task_return_new_error (t, ND, o->code, "planned %d", o->code);
  else switch (o->kind)
    {
    case O_READ: case O_READ_BYTES: if (!o->cancelled_at_end) memcpy (o->buf, o->data, o->n); g_task_return_int (t, o->n); break;
    case O_SKIP: case O_WRITE: case O_WRITE_BYTES: case O_SPLICE: g_task_return_int (t, o->n); break;
    case O_ICLOSE: case O_OCLOSE: case O_IOCLOSE: case O_FMKDIR: case O_FCOPY: g_task_return_boolean (t, TRUE); break;
    case O_NEXT: case O_RESOLVE: g_task_return_pointer (t, g_list_copy_deep (o->list, (GCopyFunc)(gpointer)g_object_ref, NULL), list_unref); break;
    default: g_task_return_pointer (t, g_object_ref (o->result), g_object_unref); break;
    }
  g_object_unref (t);
}
static DexFuture *op_blk (DexFuture *f, gpointer u) { Op *o = u; o->blk++; return NULL; }
static char *gen_str (void) { static const char *s[] = { NULL, "standard::*", "a", "time::modified,standard::name", "x::y" }; return g_strdup (s[vs_draw (5)]); }
static bool
new_op (void)
{
  int i = nops; Op *o = &ops[i]; memset (o, 0, sizeof *o);
  o->id = i; o->kind = vs_draw (NO); o->obj = vs_draw (PER);
  int ty = otype[o->kind];
  if (obj[ty][o->obj].closing) return false;
  o->target = obj[ty][o->obj].o; o->prio = vs_draw (3) ? vs_range (-300, 400) : 0; o->fail = vs_draw (4) == 3; o->code = vs_draw (1000); o->flags = vs_draw (64); o->backup = vs_draw (2);
  o->count = vs_draw (3) ? vs_draw (40) : vs_draw (6000); bool busy = obj[ty][o->obj].busy != NULL;
  if ((o->kind == O_READ_BYTES || o->kind == O_WRITE_BYTES) && !o->count) o->count = 1;    /* GLib itself objects */
  o->n = o->count ? 1 + vs_draw (o->count) : 0; if (vs_draw (8) == 7) o->n = 0;
  bool is_stream = ty == T_IN || ty == T_OUT, excl = is_stream || ty == T_ENUM || ty == T_IO;
  bool io = o->kind <= O_READ_BYTES || o->kind == O_WRITE || o->kind == O_WRITE_BYTES;
  bool closes = o->kind == O_ICLOSE || o->kind == O_OCLOSE || o->kind == O_IOCLOSE;
  if (o->kind == O_READ && vs_draw (20) == 19) { o->count = (gsize)G_MAXSSIZE + 1 + vs_draw (5); o->direct = true; o->dcode = G_IO_ERROR_INVALID_ARGUMENT; }
  else if (io && o->count == 0) { o->direct = true; o->dval = 0; o->n = 0; }
  else if (excl && busy) { o->direct = true; o->dcode = G_IO_ERROR_PENDING; }
  if (closes && busy) return false;
  int src = vs_draw (PER); if (o->kind == O_SPLICE && obj[T_IN][src].closing) return false;
  if (excl && busy && obj[ty][o->obj].busy->ended) return false;      /* GIO may or may not know yet */
  if (closes) { if (vs_draw (3)) return false; obj[ty][o->obj].closing = true; }
  nops++;
  o->data = g_malloc (o->count > 10000 ? 1 : o->count + 1); for (gsize k = 0; k < o->count && o->count <= 10000; k++) o->data[k] = (char)(k * 7 + i * 31 + 1);
  if (o->kind == O_READ) { o->buf = g_malloc0 (o->count > 10000 ? 1 : o->count + 1); }
  if (o->kind == O_SPLICE) { o->target2 = obj[T_IN][src].o; o->flags &= 3; o->n = vs_draw (100000); }
  if (o->kind == O_FCOPY) o->target2 = obj[T_FILE][vs_draw (PER)].o;
  if (o->kind == O_NEXT) { o->count = 1 + vs_draw (5); for (int k = vs_draw (o->count + 1); k > 0; k--) o->list = g_list_append (o->list, g_file_info_new ()); }
  if (o->kind == O_RESOLVE) { o->str = g_strdup_printf ("host%u.example", vs_draw (100)); for (int k = 1 + vs_draw (3); k > 0; k--) { guint8 a[4] = { 10, i, k, vs_draw (256) }; o->list = g_list_append (o->list, g_inet_address_new_from_bytes (a, G_SOCKET_FAMILY_IPV4)); } }
  if (o->kind == O_FREPLACE || o->kind == O_FINFO || o->kind == O_FENUM) o->str = gen_str ();
  if ((o->kind == O_FINFO || o->kind == O_FENUM) && !o->str) o->str = g_strdup ("standard::name");
  if (o->kind == O_FLOAD) o->fail = true;       /* opening fails: reading is left to the harness with real files */
  if (!o->direct && excl) obj[ty][o->obj].busy = o;
  switch (o->kind) { case O_FREAD: o->result = g_object_new (vs_fin_get_type (), NULL); break; case O_FREPLACE: o->result = g_object_new (vs_fout_get_type (), NULL); break; case O_FINFO: case O_FEXISTS: o->result = (GObject *)g_file_info_new (); break; case O_FENUM: o->result = g_object_new (vs_enum_get_type (), NULL); break; default: break; }
  vs_log ("operation %d: %s on %d%s", i, oname[o->kind], o->obj, o->direct ? ", answered by GIO" : "");
  gpointer t = o->target; in_kind = out_kind = read_kind = info_kind = o->kind;
  switch (o->kind)
    {
    case O_READ: o->f = dex_input_stream_read (t, o->buf, o->count, o->prio); break;
    case O_SKIP: o->f = dex_input_stream_skip (t, o->count, o->prio); break;
    case O_READ_BYTES: o->f = dex_input_stream_read_bytes (t, o->count, o->prio); break;
    case O_ICLOSE: o->f = dex_input_stream_close (t, o->prio); break;
    case O_WRITE: o->f = dex_output_stream_write (t, o->data, o->count, o->prio); break;
    case O_WRITE_BYTES: o->bytes = g_bytes_new (o->data, o->count); o->f = dex_output_stream_write_bytes (t, o->bytes, o->prio); if (vs_draw (2)) g_clear_pointer (&o->bytes, g_bytes_unref); break;
    case O_OCLOSE: o->f = dex_output_stream_close (t, o->prio); break;
    case O_SPLICE: o->f = dex_output_stream_splice (t, (GInputStream *)o->target2, o->flags, o->prio); break;
    case O_FREAD: o->f = dex_file_read (t, o->prio); break;
    case O_FREPLACE: o->f = dex_file_replace (t, o->str, o->backup, o->flags, o->prio); break;
    case O_FINFO: o->f = dex_file_query_info (t, o->str, o->flags, o->prio); break;
    case O_FMKDIR: o->f = dex_file_make_directory (t, o->prio); break;
    case O_FENUM: o->f = dex_file_enumerate_children (t, o->str, o->flags, o->prio); break;
    case O_FCOPY: o->f = dex_file_copy (t, (GFile *)o->target2, o->flags, o->prio); break;
    case O_FEXISTS: o->f = dex_file_query_exists (t); break;
    case O_FLOAD: o->f = dex_file_load_contents_bytes (t); break;
    case O_NEXT: o->f = dex_file_enumerator_next_files (t, o->count, o->prio); break;
    case O_IOCLOSE: o->f = dex_io_stream_close (t, o->prio); break;
    case O_RESOLVE: o->f = dex_resolver_lookup_by_name (t, o->str); break;
    }
  vs_check (o->f != NULL, "null", "no future for operation %d", i);
  vs_check (o->direct || o->calls == 1, "not-started", "operation %d (%s) was not started", i, oname[o->kind]);
  vs_check (dex_future_is_pending (o->f), "state", "operation %d ended inside the call", i);
  switch (o->awkind = vs_draw (4))
    {
    case 0: break;
    case 1: case 2: o->aw = dex_future_finally (dex_ref (o->f), op_blk, o, NULL); o->awlive = true; break;
    case 3: o->setp = (DexFuture *)dex_promise_new (); o->aw = dex_future_first (dex_ref (o->f), dex_ref (o->setp), NULL); o->awlive = true; break;
    }
  if (vs_draw (4) == 3) dex_clear (&o->f);
  return true;
}
static void
lose (Op *o)
{
  if (!o->awlive) return;
  o->awlive = false; o->may_cancel = true;
  if (!o->ended && !o->direct) { o->must_cancel = true; vs_log ("nobody awaits %d any more", o->id); }
}
static void
check_op (Op *o, bool settled)
{
  if (o->c)
    {
      bool c = g_cancellable_is_cancelled (o->c);
      if (o->must_cancel) vs_check (c, "not-cancelled", "operation %d (%s) was not cancelled although nobody awaits it any more", o->id, oname[o->kind]);
      if (!o->may_cancel) vs_check (!c, "cancelled", "operation %d (%s) was cancelled", o->id, oname[o->kind]);
    }
  if (o->f && !settled && !o->ended && !o->direct) vs_check (dex_future_is_pending (o->f), "early", "operation %d (%s) is complete before it ended", o->id, oname[o->kind]);
  if (!o->f || !settled) return;
  vs_check (!dex_future_is_pending (o->f), "pending", "operation %d (%s) is pending although it ended", o->id, oname[o->kind]);
  if (o->aw && o->awkind != 3) vs_check (o->blk == 1, "callback", "callback on operation %d ran %d times", o->id, o->blk);
  GError *e = NULL; const GValue *v = dex_future_get_value (o->f, &e); const char *nm = oname[o->kind]; int dom = e ? (int)e->domain : 0;
  if (o->may_cancel && !v && dom == (int)G_IO_ERROR && e->code == G_IO_ERROR_CANCELLED) ;
  else if (o->direct && o->dcode) vs_check (!v && dom == (int)G_IO_ERROR && e->code == o->dcode, "outcome", "operation %d (%s): %s", o->id, nm, v ? "resolved" : e->message);
  else if (o->fail && !o->direct) vs_check (!v && ((dom == ND && e->code == o->code) || (o->cancelled_at_end && dom == (int)G_IO_ERROR && e->code == G_IO_ERROR_CANCELLED)), "outcome", "operation %d (%s) failed with code %d, the future: %s", o->id, nm, o->code, v ? "resolved" : e->message);
  else if (o->cancelled_at_end) vs_check (!v && dom == (int)G_IO_ERROR && e->code == G_IO_ERROR_CANCELLED, "outcome", "operation %d (%s) was cancelled, the future: %s", o->id, nm, v ? "resolved" : e->message);
  else
    {
      vs_check (v != NULL, "outcome", "operation %d (%s) succeeded, the future: %s", o->id, nm, e->message);
      bool ok;
      switch (o->kind)
        {
        case O_READ: case O_SKIP: case O_WRITE: case O_WRITE_BYTES: case O_SPLICE: ok = G_VALUE_HOLDS_INT64 (v) && g_value_get_int64 (v) == (gint64)o->n; if (o->kind == O_READ && ok) ok = !memcmp (o->buf, o->data, o->n); break;
        case O_READ_BYTES: { gsize m; ok = G_VALUE_HOLDS (v, G_TYPE_BYTES); if (ok) { const char *d = g_bytes_get_data (g_value_get_boxed (v), &m); ok = m == o->n && (!m || !memcmp (d, o->data, m)); } break; }
        case O_ICLOSE: case O_OCLOSE: case O_IOCLOSE: case O_FMKDIR: case O_FCOPY: case O_FEXISTS: ok = G_VALUE_HOLDS_BOOLEAN (v) && g_value_get_boolean (v); break;
        case O_NEXT: case O_RESOLVE: { ok = G_VALUE_HOLDS (v, o->kind == O_NEXT ? DEX_TYPE_FILE_INFO_LIST : DEX_TYPE_INET_ADDRESS_LIST); GList *l = ok ? g_value_get_boxed (v) : NULL, *m = o->list; for (; ok && (l || m); l = l->next, m = m->next) if (!l || !m || l->data != m->data) { ok = false; break; } break; }
        default: ok = G_VALUE_HOLDS_OBJECT (v) && g_value_get_object (v) == (gpointer)o->result; break;
        }
      vs_check (ok, "value", "operation %d (%s) resolved with another result", o->id, nm);
    }
  g_clear_error (&e);
}
static void
run_calls (void)
{
  GType ty[NT_] = { vs_in_get_type (), vs_out_get_type (), vs_file_get_type (), vs_enum_get_type (), vs_io_get_type (), vs_rslv_get_type () };
  g_object_unref (g_file_info_new ());
  vs_begin (VS_PREEMPT_NONE);
  vs_objects_mark ();
  size_t h[6] = { 0 }; uint32_t pos = vs_tape_pos (); int nt = 0, ncanc = 0;
  for (int r = 0; VS_ROUNDS (h, r); r++)   /* GLib starts a thread for tasks, which allocates at its leisure */
    {
      vs_tape_rewind (pos); vs_log ("round %d", r);
      nops = nt = ncanc = 0; fin = false; memset (obj, 0, sizeof obj);
      for (int t = 0; t < NT_; t++) for (int k = 0; k < PER; k++) obj[t][k].o = g_object_new (ty[t], NULL);
      int steps = 3 + vs_draw (40);
      for (int s = 0; s < steps; s++)
        {
          int what = vs_draw (8);
          if (what > 4 || !nops) { if (nops < MAXOP) new_op (); }
          else
            {
              Op *o = &ops[vs_draw (nops)];
              switch (what)
                {
                case 0: mock_end (o); break;
                case 1: if (o->aw) { vs_log ("drop awaiter of %d", o->id); DexFuture *f = o->aw; o->aw = NULL; lose (o); dex_unref (f); } break;
                case 2: if (o->setp && dex_future_is_pending (o->setp)) { vs_log ("promise of %d", o->id); lose (o); dex_promise_resolve_boolean ((DexPromise *)o->setp, TRUE); } break;
                case 3: if (o->f) { vs_log ("drop future %d", o->id); dex_clear (&o->f); } break;
                case 4: vs_run_idle (); for (int t = 0; t < NT_; t++) for (int k = 0; k < PER; k++) if (obj[t][k].busy && obj[t][k].busy->ended) obj[t][k].busy = NULL; break;
                }
            }
          for (int i = 0; i < nops; i++) check_op (&ops[i], false);
        }
      for (int i = 0; i < nops; i++) mock_end (&ops[i]);
      vs_run_idle ();
      for (int i = 0; i < nops; i++) { check_op (&ops[i], true); nt += !ops[i].direct; ncanc += ops[i].cancelled_at_end; }
      for (int i = 0; i < nops; i++) { dex_clear (&ops[i].aw); dex_clear (&ops[i].setp); dex_clear (&ops[i].f); }
      vs_run_idle ();
      vs_objects_check ("after dropping the futures");
      fin = true;
      for (int i = 0; i < nops; i++)
        {
          Op *o = &ops[i];
          if (o->c) { vs_check (G_OBJECT (o->c)->ref_count == 1, "leak", "the cancellable of operation %d (%s) has %d references", i, oname[o->kind], G_OBJECT (o->c)->ref_count); g_object_unref (o->c); }
          if (o->result) { vs_check (o->result->ref_count == 1, "leak", "the result of operation %d (%s) has %d references", i, oname[o->kind], o->result->ref_count); g_object_unref (o->result); }
          for (GList *l = o->list; l; l = l->next) vs_check (G_OBJECT (l->data)->ref_count == 1, "leak", "a result of operation %d (%s) has %d references", i, oname[o->kind], G_OBJECT (l->data)->ref_count);
          list_unref (o->list);
          if (o->bytes) g_bytes_unref (o->bytes);
          g_free (o->str); if (o->kind == O_READ) g_free (o->buf); g_free (o->data);
        }
      for (int t = 0; t < NT_; t++) for (int k = 0; k < PER; k++) { vs_check (obj[t][k].o->ref_count == 1, "leak", "a %s has %d references", G_OBJECT_TYPE_NAME (obj[t][k].o), obj[t][k].o->ref_count); g_object_unref (obj[t][k].o); }
      h[r] = vs_heap_bytes ();
    }
  VS_ROUNDS_CHECK (h);
  if (ncanc) vs_label ("cancelled");
  if (nt > 1) vs_nontrivial ();
  vs_end ();
}
VS_HARNESS (g1) = { "gio-calls", "histories of wrapped stream, file, enumerator and resolver operations on objects which record what is asked of them and end when told to, awaited, dropped and discarded; three identical rounds; non-trivial: two operations reach their object", run_calls, 60 };
