/* The wrappers of GIO operations on real files, streams, sockets, processes
 * and D-Bus connections, against the blocking calls on a twin of each. */
#define _GNU_SOURCE
#include "vs.h"
#include <libdex.h>
#include <gio/gunixfdlist.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <string.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <gio/gunixsocketaddress.h>
#include <unistd.h>

enum { O_FREAD, O_FREPLACE, O_FINFO, O_FMKDIR, O_FENUM, O_FCOPY, O_FEXISTS, O_FLOAD, O_NEXT, O_READ, O_SKIP, O_READ_BYTES, O_ICLOSE, O_WRITE, O_WRITE_BYTES, O_OCLOSE, O_SPLICE, O_IOCLOSE, O_RESOLVE, O_BUS, O_CALL, O_CALLFD, O_SEND, O_WAIT, O_CONNECT, O_ACCEPT, NO };
static const char *oname[NO] = { "open", "replace", "query_info", "make_directory", "enumerate", "copy", "query_exists", "load_contents", "next_files", "read", "skip", "read_bytes", "close input", "write", "write_bytes", "close output", "splice", "close io", "lookup", "bus", "call", "call with descriptors", "send message", "wait for process", "connect", "accept" };
typedef struct { bool ok; GQuark dom; int code; GType type; gint64 num; GBytes *bytes; GObject *obj; GList *list; GVariant *var; GUnixFDList *fds; } Out;
enum { L_IN, L_OUT, L_ENUM };
typedef struct { int kind; bool live, mem; GObject *s[2]; char *path; GHashTable *names[2]; } Slot;
#define NSLOT 12
static Slot slot[NSLOT]; static int nslot;
#define MAXOP 90
typedef struct
{
  int id, kind, via, slot, slot2, prio, n; char *p1, *p2, *str; guint flags; gsize count; bool backup, drop; char *data, *buf[2]; GBytes *bytes;
  Out ref, got; int done; DexFuture *f, *blk; GObject *x[2], *y[2]; GVariant *var; GUnixFDList *fds[2]; guint32 serial[2]; const GVariantType *reply; int peer[2]; guint port[2];
} Op;
static Op op[MAXOP]; static int nops, nwait; static char *root, *world[2]; static DexScheduler *pool;

/* ---- a D-Bus peer and bus in another thread ---- */
static GMainContext *sctx; static char *saddr; static volatile int sready;
static const char *XML = "<node><interface name='t.T'><method name='Echo'><arg type='v' direction='in'/><arg type='v' direction='out'/></method><method name='Fail'><arg type='s' direction='in'/></method><method name='Never'/><method name='Fds'><arg type='i' direction='in'/><arg type='i' direction='out'/></method></interface><interface name='org.freedesktop.DBus'><method name='Hello'><arg type='s' direction='out'/></method></interface></node>";
static void
srv_call (GDBusConnection *c, const char *sender, const char *path, const char *iface, const char *method, GVariant *par, GDBusMethodInvocation *inv, gpointer u)
{
  if (!strcmp (method, "Hello")) g_dbus_method_invocation_return_value (inv, g_variant_new ("(s)", ":1.1"));
  else if (!strcmp (method, "Echo")) g_dbus_method_invocation_return_value (inv, par);
  else if (!strcmp (method, "Fail")) { const char *s; g_variant_get (par, "(&s)", &s); g_dbus_method_invocation_return_dbus_error (inv, s, "planned"); }
  else if (!strcmp (method, "Never")) { static GSList *l; l = g_slist_prepend (l, inv); }
  else
    {
      GUnixFDList *in = g_dbus_message_get_unix_fd_list (g_dbus_method_invocation_get_message (inv)), *out = NULL; int n = in ? g_unix_fd_list_get_length (in) : 0, k; g_variant_get (par, "(i)", &k);
      if (k > 0) { out = g_unix_fd_list_new (); for (int i = 0; i < k && i < n; i++) { int fd = g_unix_fd_list_get (in, n - 1 - i, NULL); g_unix_fd_list_append (out, fd, NULL); close (fd); } }
      g_dbus_method_invocation_return_value_with_unix_fd_list (inv, g_variant_new ("(i)", n), out);
      g_clear_object (&out);
    }
}
static gboolean
srv_new (GDBusServer *s, GDBusConnection *c, gpointer u)
{
  static const GDBusInterfaceVTable vt = { .method_call = srv_call };
  GDBusNodeInfo *ni = g_dbus_node_info_new_for_xml (XML, NULL);
  g_dbus_connection_register_object (c, "/o", ni->interfaces[0], &vt, NULL, NULL, NULL);
  g_dbus_connection_register_object (c, "/org/freedesktop/DBus", ni->interfaces[1], &vt, NULL, NULL, NULL);
  g_object_ref (c);
  return TRUE;
}
static gboolean srv_auth (GDBusAuthObserver *o, GIOStream *s, GCredentials *c, gpointer u) { return TRUE; }
static gpointer
srv_thread (gpointer u)
{
  sctx = g_main_context_new (); g_main_context_push_thread_default (sctx);
  GError *e = NULL; char *guid = g_dbus_generate_guid (), *addr = g_strdup_printf ("unix:dir=%s", root);
  GDBusAuthObserver *ob = g_dbus_auth_observer_new (); g_signal_connect (ob, "authorize-authenticated-peer", G_CALLBACK (srv_auth), NULL);
  GDBusServer *s = g_dbus_server_new_sync (addr, G_DBUS_SERVER_FLAGS_NONE, guid, ob, NULL, &e);
  if (!s) { fprintf (stderr, "dbus server: %s\n", e->message); _exit (70); }
  g_signal_connect (s, "new-connection", G_CALLBACK (srv_new), NULL);
  g_dbus_server_start (s); saddr = g_strdup (g_dbus_server_get_client_address (s));
  g_atomic_int_set (&sready, 1);
  for (;;) g_main_context_iteration (sctx, TRUE);
  return NULL;
}
static GDBusConnection *conn;

/* ---- files ---- */
static void rmtree (const char *p) { DIR *d = opendir (p); if (d) { struct dirent *e; while ((e = readdir (d))) if (strcmp (e->d_name, ".") && strcmp (e->d_name, "..")) { char *q = g_build_filename (p, e->d_name, NULL); struct stat st; if (!lstat (q, &st) && S_ISDIR (st.st_mode)) rmtree (q); else unlink (q); g_free (q); } closedir (d); } rmdir (p); }
static void
put (const char *rel, const char *data, gsize n)
{
  for (int w = 0; w < 2; w++) { char *p = g_build_filename (world[w], rel, NULL); if (!g_file_set_contents (p, data, n, NULL)) _exit (71); g_free (p); }
}
static void tree_sig (GString *s, const char *base, const char *rel);
static int cmp_str (gconstpointer a, gconstpointer b) { return strcmp (*(char **)a, *(char **)b); }
static void
tree_sig (GString *s, const char *base, const char *rel)
{
  char *p = g_build_filename (base, rel, NULL); struct stat st;
  if (lstat (p, &st)) { g_free (p); return; }
  g_string_append_printf (s, "%s %o", rel, st.st_mode);
  if (S_ISLNK (st.st_mode)) { char b[256] = ""; if (readlink (p, b, 255) < 0) b[0] = 0; g_string_append_printf (s, " -> %s\n", b); }
  else if (S_ISREG (st.st_mode)) { char *d = NULL; gsize n = 0; g_file_get_contents (p, &d, &n, NULL); char *h = g_compute_checksum_for_data (G_CHECKSUM_MD5, (guchar *)d, n); g_string_append_printf (s, " %zu %s\n", n, h); g_free (h); g_free (d); }
  else if (S_ISDIR (st.st_mode))
    {
      g_string_append (s, "\n"); GPtrArray *a = g_ptr_array_new_with_free_func (g_free); DIR *d = opendir (p); struct dirent *e;
      while (d && (e = readdir (d))) if (strcmp (e->d_name, ".") && strcmp (e->d_name, "..")) g_ptr_array_add (a, g_strdup (e->d_name));
      if (d) closedir (d);
      g_ptr_array_sort (a, cmp_str);
      for (guint i = 0; i < a->len; i++) if (!g_str_has_prefix (a->pdata[i], ".goutputstream")) { char *r = g_build_filename (rel, a->pdata[i], NULL); tree_sig (s, base, r); g_free (r); }
      g_ptr_array_unref (a);
    }
  g_free (p);
}
static GFile *file_of (int w, const char *rel) { char *p = g_build_filename (world[w], rel, NULL); GFile *f = g_file_new_for_path (p); g_free (p); return f; }
static char *
gen_path (void)
{
  static const char *n[] = { "f0", "f1", "f2", "f3", "d0", "d1", "d0/a", "d0/b", "d1/c", "link", "dangling", "none", "f0/x", "nodir/x", "d0/new", "new", "dlink", "dlink/a" };
  return g_strdup (n[vs_draw (G_N_ELEMENTS (n))]);
}
static GInputStream *
mem_stream (int how, const char *data, gsize n)
{
  GInputStream *m = g_memory_input_stream_new_from_data (g_memdup2 (data, n + 1), n, g_free);
  if (how == 0) return m;
  if (how == 1) { GInputStream *b = g_buffered_input_stream_new_sized (m, 16); g_object_unref (m); return b; }
  GConverter *c = how == 2 ? (GConverter *)g_zlib_decompressor_new (G_ZLIB_COMPRESSOR_FORMAT_GZIP) : (GConverter *)g_zlib_compressor_new (G_ZLIB_COMPRESSOR_FORMAT_RAW, -1);
  GInputStream *r = g_converter_input_stream_new (m, c); g_object_unref (m); g_object_unref (c); return r;
}
static Slot *
new_slot (int kind, GObject *a, GObject *b, const char *path)
{
  if (nslot >= NSLOT) { if (kind == L_OUT) { g_output_stream_close ((GOutputStream *)a, NULL, NULL); g_output_stream_close ((GOutputStream *)b, NULL, NULL); } g_clear_object (&a); g_clear_object (&b); return NULL; }
  Slot *s = &slot[nslot++]; memset (s, 0, sizeof *s); s->kind = kind; s->live = true; s->s[0] = a; s->s[1] = b; s->path = g_strdup (path);
  if (kind == L_ENUM) for (int w = 0; w < 2; w++) s->names[w] = g_hash_table_new_full (g_str_hash, g_str_equal, g_free, NULL);
  return s;
}
static int pick_slot (int kind) { int k[NSLOT], n = 0; for (int i = 0; i < nslot; i++) if (slot[i].kind == kind && slot[i].live) k[n++] = i; return n ? k[vs_draw (n)] : -1; }

/* ---- operations ---- */
static void
out_value (Out *o, const GValue *v)
{
  o->ok = true; o->type = G_VALUE_TYPE (v);
  if (G_VALUE_HOLDS_INT64 (v)) o->num = g_value_get_int64 (v);
  else if (G_VALUE_HOLDS_BOOLEAN (v)) o->num = g_value_get_boolean (v);
  else if (G_VALUE_HOLDS_OBJECT (v)) o->obj = g_value_dup_object (v);
  else if (G_VALUE_HOLDS (v, G_TYPE_BYTES)) o->bytes = g_value_dup_boxed (v);
  else if (G_VALUE_HOLDS_VARIANT (v)) o->var = g_value_dup_variant (v);
  else if (G_VALUE_HOLDS (v, DEX_TYPE_FILE_INFO_LIST) || G_VALUE_HOLDS (v, DEX_TYPE_INET_ADDRESS_LIST)) o->list = g_list_copy_deep (g_value_get_boxed (v), (GCopyFunc)(gpointer)g_object_ref, NULL);
}
static void out_clear (Out *o) { g_clear_object (&o->obj); g_clear_pointer (&o->bytes, g_bytes_unref); g_clear_pointer (&o->var, g_variant_unref); g_clear_object (&o->fds); g_list_free_full (o->list, g_object_unref); o->list = NULL; }
static void out_error (Out *o, GError *e) { o->ok = false; if (e) { o->dom = e->domain; o->code = e->code; g_error_free (e); } }
/* ---- sockets: a listener each, on the loopback; SOCK_CLOEXEC so that children do not keep them */
static int
tcp (guint16 *port, bool listening)
{
  int fd = socket (AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl (INADDR_LOOPBACK), .sin_port = htons (*port) };
  if (listening) { socklen_t l = sizeof a; if (bind (fd, (void *)&a, sizeof a) || listen (fd, 8) || getsockname (fd, (void *)&a, &l)) _exit (72); *port = ntohs (a.sin_port); }
  else if (connect (fd, (void *)&a, sizeof a)) { close (fd); fd = -1; }
  return fd;
}
static void peer_connect (Op *o, int w) { guint16 p = o->port[w]; o->peer[w] = tcp (&p, false); }
static const char *ATTR = "standard::name,standard::type,standard::size,standard::is-symlink,unix::mode";
/* where GLib's blocking and asynchronous variants differ on purpose or by accident, the asynchronous one is the reference */
static void got_result (GObject *src, GAsyncResult *r, gpointer u) { *(GAsyncResult **)u = g_object_ref (r); }
static GAsyncResult *
wait_result (GAsyncResult **r)
{
  while (!*r) g_main_context_iteration (g_main_context_get_thread_default (), TRUE);
  GMainContext *c = g_main_context_get_thread_default (); g_main_context_pop_thread_default (c); g_main_context_unref (c);
  return *r;
}
#define ASYNC(call, fin) ({ GAsyncResult *R_ = NULL; g_main_context_push_thread_default (g_main_context_new ()); call; wait_result (&R_); __auto_type v_ = fin; g_object_unref (R_); v_; })
static void
sync_op (Op *o)
{
  GError *e = NULL; Out *r = &o->ref; GFile *f = o->p1 ? file_of (1, o->p1) : NULL, *g = o->p2 ? file_of (1, o->p2) : NULL; gpointer s = o->slot >= 0 ? slot[o->slot].s[1] : NULL;
  r->ok = true;
  switch (o->kind)
    {
    case O_FREAD: r->obj = (GObject *)g_file_read (f, NULL, &e); break;
    case O_FREPLACE: r->obj = (GObject *)g_file_replace (f, o->str, o->backup, o->flags, NULL, &e); break;
    case O_FINFO: r->obj = (GObject *)g_file_query_info (f, ATTR, o->flags, NULL, &e); break;
    case O_FMKDIR: r->num = g_file_make_directory (f, NULL, &e); break;
    case O_FENUM: r->obj = (GObject *)g_file_enumerate_children (f, ATTR, o->flags, NULL, &e); break;
    case O_FCOPY: r->num = g_file_copy (f, g, o->flags, NULL, NULL, NULL, &e); break;
    case O_FEXISTS: r->num = g_file_query_exists (f, NULL); if (!r->num) { g_object_unref (g_file_query_info (f, "standard::type", 0, NULL, &e) ?: (gpointer)g_file_info_new ()); } break;
    case O_FLOAD: { char *d; gsize n; if (g_file_load_contents (f, NULL, &d, &n, NULL, &e)) r->bytes = g_bytes_new_take (d, n); break; }
    case O_NEXT: for (gsize i = 0; i < o->count; i++) { GFileInfo *in = g_file_enumerator_next_file (s, NULL, &e); if (!in) break; r->list = g_list_append (r->list, in); } break;
    case O_READ: r->num = g_input_stream_read (s, o->buf[1], o->count, NULL, &e); break;
    case O_SKIP: r->num = ASYNC (g_input_stream_skip_async (s, o->count, 0, NULL, got_result, &R_), g_input_stream_skip_finish (s, R_, &e)); break;
    case O_READ_BYTES: r->bytes = g_input_stream_read_bytes (s, o->count, NULL, &e); break;
    case O_ICLOSE: r->num = ASYNC (g_input_stream_close_async (s, 0, NULL, got_result, &R_), g_input_stream_close_finish (s, R_, &e)); break;
    case O_WRITE: case O_WRITE_BYTES: r->num = g_output_stream_write (s, o->data, o->count, NULL, &e); break;
    case O_OCLOSE: r->num = ASYNC (g_output_stream_close_async (s, 0, NULL, got_result, &R_), g_output_stream_close_finish (s, R_, &e)); break;
    case O_SPLICE: r->num = ASYNC (g_output_stream_splice_async (s, (GInputStream *)slot[o->slot2].s[1], o->flags, 0, NULL, got_result, &R_), g_output_stream_splice_finish (s, R_, &e)); break;
    case O_IOCLOSE: r->num = g_io_stream_close ((GIOStream *)o->x[1], NULL, &e); break;
    case O_RESOLVE: { GResolver *rs = g_resolver_get_default (); r->list = g_resolver_lookup_by_name (rs, o->str, NULL, &e); g_object_unref (rs); break; }
    case O_BUS: r->obj = (GObject *)g_bus_get_sync (o->n, NULL, &e); break;
    case O_CALL: r->var = g_dbus_connection_call_sync (conn, NULL, o->str, "t.T", o->p2, o->var, o->reply, 0, o->n, NULL, &e); break;
    case O_CALLFD: r->var = g_dbus_connection_call_with_unix_fd_list_sync (conn, NULL, o->str, "t.T", o->p2, o->var, o->reply, 0, o->n, o->fds[1], &r->fds, NULL, &e); break;
    case O_SEND: r->obj = (GObject *)g_dbus_connection_send_message_with_reply_sync (conn, (GDBusMessage *)o->x[1], 0, o->n, &o->serial[1], NULL, &e); break;
    case O_WAIT: r->num = g_subprocess_wait_check ((GSubprocess *)o->x[1], NULL, &e); break;
    case O_CONNECT: r->obj = (GObject *)g_socket_client_connect ((GSocketClient *)o->x[1], (GSocketConnectable *)o->y[1], NULL, &e); break;
    case O_ACCEPT: if (o->n > 0) { peer_connect (o, 1); } r->obj = ASYNC (g_socket_listener_accept_async ((GSocketListener *)o->x[1], NULL, got_result, &R_), (GObject *)g_socket_listener_accept_finish ((GSocketListener *)o->x[1], R_, NULL, &e)); break;
    }
  if (e) out_error (r, e);
  g_clear_object (&f); g_clear_object (&g);
}
static DexFuture *
async_op (Op *o)
{
  GFile *f = o->p1 && o->kind <= O_FLOAD ? file_of (0, o->p1) : NULL, *g = o->kind == O_FCOPY ? file_of (0, o->p2) : NULL; gpointer s = o->slot >= 0 ? slot[o->slot].s[0] : NULL;
  DexFuture *r = NULL;
  switch (o->kind)
    {
    case O_FREAD: r = dex_file_read (f, o->prio); break;
    case O_FREPLACE: r = dex_file_replace (f, o->str, o->backup, o->flags, o->prio); break;
    case O_FINFO: r = dex_file_query_info (f, ATTR, o->flags, o->prio); break;
    case O_FMKDIR: r = dex_file_make_directory (f, o->prio); break;
    case O_FENUM: r = dex_file_enumerate_children (f, ATTR, o->flags, o->prio); break;
    case O_FCOPY: r = dex_file_copy (f, g, o->flags, o->prio); break;
    case O_FEXISTS: r = dex_file_query_exists (f); break;
    case O_FLOAD: r = dex_file_load_contents_bytes (f); break;
    case O_NEXT: r = dex_file_enumerator_next_files (s, o->count, o->prio); break;
    case O_READ: r = dex_input_stream_read (s, o->buf[0], o->count, o->prio); break;
    case O_SKIP: r = dex_input_stream_skip (s, o->count, o->prio); break;
    case O_READ_BYTES: r = dex_input_stream_read_bytes (s, o->count, o->prio); break;
    case O_ICLOSE: r = dex_input_stream_close (s, o->prio); break;
    case O_WRITE: r = dex_output_stream_write (s, o->data, o->count, o->prio); break;
    case O_WRITE_BYTES: r = dex_output_stream_write_bytes (s, o->bytes, o->prio); break;
    case O_OCLOSE: r = dex_output_stream_close (s, o->prio); break;
    case O_SPLICE: r = dex_output_stream_splice (s, (GInputStream *)slot[o->slot2].s[0], o->flags, o->prio); break;
    case O_IOCLOSE: r = dex_io_stream_close ((GIOStream *)o->x[0], o->prio); break;
    case O_RESOLVE: { GResolver *rs = g_resolver_get_default (); r = dex_resolver_lookup_by_name (rs, o->str); g_object_unref (rs); break; }
    case O_BUS: r = dex_bus_get (o->n); break;
    case O_CALL: r = dex_dbus_connection_call (conn, NULL, o->str, "t.T", o->p2, o->var, o->reply, 0, o->n); break;
    case O_CALLFD: r = dex_dbus_connection_call_with_unix_fd_list (conn, NULL, o->str, "t.T", o->p2, o->var, o->reply, 0, o->n, o->fds[0]); break;
    case O_SEND: r = dex_dbus_connection_send_message_with_reply (conn, (GDBusMessage *)o->x[0], 0, o->n, &o->serial[0]); break;
    case O_WAIT: r = dex_subprocess_wait_check ((GSubprocess *)o->x[0]); break;
    case O_CONNECT: r = dex_socket_client_connect ((GSocketClient *)o->x[0], (GSocketConnectable *)o->y[0]); break;
    case O_ACCEPT: if (o->n == 1) peer_connect (o, 0); r = dex_socket_listener_accept ((GSocketListener *)o->x[0]); if (o->n == 2) peer_connect (o, 0); break;
    }
  g_clear_object (&f); g_clear_object (&g);
  vs_check (r != NULL, "null", "no future for operation %d (%s)", o->id, oname[o->kind]);
  return r;
}
static void
finish (Op *o, DexFuture *f)
{
  GError *e = NULL; const GValue *v = dex_future_get_value (f, &e);
  if (!v && o->kind == O_CALLFD && DEX_IS_FUTURE_SET (f))   /* the parts know the reason */
    {
      GError *e1 = NULL; g_clear_error (&e);
      vs_check (!dex_future_set_get_value_at (DEX_FUTURE_SET (f), 0, &e) && !dex_future_set_get_value_at (DEX_FUTURE_SET (f), 1, &e1), "set", "part of a failed call with descriptors has a value");
      vs_check (e->domain == e1->domain && e->code == e1->code, "set", "the parts of a call with descriptors failed differently"); g_error_free (e1);
    }
  if (v) out_value (&o->got, v); else out_error (&o->got, e);
  if (v && o->kind == O_CALLFD)
    {
      vs_check (DEX_IS_FUTURE_SET (f) && dex_future_set_get_size (DEX_FUTURE_SET (f)) == 2, "set", "a call with descriptors is no set of two");
      const GValue *w = dex_future_set_get_value_at (DEX_FUTURE_SET (f), 1, NULL), *x = dex_future_set_get_value_at (DEX_FUTURE_SET (f), 0, NULL);
      vs_check (w && G_VALUE_HOLDS_OBJECT (w), "set", "the second part of a call with descriptors is no object");
      vs_check (x && G_VALUE_HOLDS_VARIANT (x), "set", "the first part of a call with descriptors is no variant");
      o->got.fds = g_value_dup_object (w);
      if (!o->got.var) o->got.var = g_value_dup_variant (x);
    }
  g_atomic_int_inc (&o->done); g_atomic_int_add (&nwait, -1);
}
static DexFuture *op_cb (DexFuture *f, gpointer u) { finish (u, ((Op *)u)->f); return NULL; }
static DexFuture *
op_fiber (gpointer u)
{
  Op *o = u; o->f = async_op (o);
  dex_await (dex_ref (o->f), NULL);
  finish (o, o->f);
  return dex_future_new_for_boolean (TRUE);
}
static bool all_done (void) { return g_atomic_int_get (&nwait) == 0; }
static void settle (void) { gint64 end = g_get_monotonic_time () + 12 * G_USEC_PER_SEC; while (!all_done () && g_get_monotonic_time () < end) if (!g_main_context_iteration (NULL, FALSE)) usleep (20); }
static void
same (Op *o)
{
  Out *a = &o->got, *b = &o->ref; const char *n = oname[o->kind]; int i = o->id;
  vs_check (o->done == 1, "not-completed", "operation %d (%s) completed %d times", i, n, o->done);
  vs_check (a->ok == b->ok, "outcome", "operation %d (%s %s) %s, the blocking call %s (%s %d)", i, n, o->p1 ? o->p1 : "", a->ok ? "succeeded" : "failed", b->ok ? "succeeded" : "failed", g_quark_to_string (a->ok ? b->dom : a->dom), a->ok ? b->code : a->code);
  if (!a->ok) { vs_check (a->dom == b->dom && a->code == b->code, "error", "operation %d (%s %s) failed with %s %d, the blocking call with %s %d", i, n, o->p1 ? o->p1 : "", g_quark_to_string (a->dom), a->code, g_quark_to_string (b->dom), b->code); return; }
  if (o->kind != O_NEXT && o->kind != O_RESOLVE && o->kind != O_CALLFD) vs_check (a->num == b->num, "value", "operation %d (%s) gave %ld, the blocking call %ld", i, n, (long)a->num, (long)b->num);
  vs_check (!a->bytes == !b->bytes && (!a->bytes || g_bytes_equal (a->bytes, b->bytes)), "value", "operation %d (%s) gave other bytes than the blocking call", i, n);
  vs_check (!a->var == !b->var && (!a->var || g_variant_equal (a->var, b->var)), "value", "operation %d (%s) gave another reply than the blocking call", i, n);
  vs_check (!a->obj == !b->obj && (!a->obj || G_OBJECT_TYPE (a->obj) == G_OBJECT_TYPE (b->obj)), "value", "operation %d (%s) gave another object than the blocking call", i, n);
  switch (o->kind)
    {
    case O_FREAD: { int k = nslot; if (!new_slot (L_IN, a->obj, b->obj, o->p1)) k = -1; a->obj = b->obj = NULL; (void)k; break; }
    case O_FREPLACE: new_slot (L_OUT, a->obj, b->obj, o->p1); a->obj = b->obj = NULL; break;
    case O_FENUM: new_slot (L_ENUM, a->obj, b->obj, o->p1); a->obj = b->obj = NULL; break;
    case O_FINFO: { char **l = g_file_info_list_attributes ((GFileInfo *)b->obj, NULL), **m = g_file_info_list_attributes ((GFileInfo *)a->obj, NULL); vs_check (g_strv_length (l) == g_strv_length (m), "value", "operation %d (%s) gave other attributes", i, n); for (int k = 0; l[k]; k++) { char *x = g_file_info_get_attribute_as_string ((GFileInfo *)a->obj, l[k]), *y = g_file_info_get_attribute_as_string ((GFileInfo *)b->obj, l[k]); vs_check (!g_strcmp0 (x, y), "value", "operation %d (%s) gave %s %s instead of %s", i, n, l[k], x, y); g_free (x); g_free (y); } g_strfreev (l); g_strfreev (m); break; }
    case O_NEXT:
      {
        vs_check (g_list_length (a->list) == g_list_length (b->list), "value", "operation %d (%s) gave %d entries instead of %d", i, n, g_list_length (a->list), g_list_length (b->list));
        Slot *s = &slot[o->slot]; int w = 0;
        for (GList *l = a->list; l; l = l->next) if (!g_str_has_prefix (g_file_info_get_name (l->data), ".goutputstream")) g_hash_table_add (s->names[0], g_strdup_printf ("%s %d", g_file_info_get_name (l->data), g_file_info_get_file_type (l->data)));
        for (GList *l = b->list; l; l = l->next) if (w++, !g_str_has_prefix (g_file_info_get_name (l->data), ".goutputstream")) g_hash_table_add (s->names[1], g_strdup_printf ("%s %d", g_file_info_get_name (l->data), g_file_info_get_file_type (l->data)));
        if (w < (int)o->count)   /* the end */
          { GHashTableIter it; gpointer k; vs_check (g_hash_table_size (s->names[0]) == g_hash_table_size (s->names[1]), "value", "other entries"); g_hash_table_iter_init (&it, s->names[1]); while (g_hash_table_iter_next (&it, &k, NULL)) vs_check (g_hash_table_contains (s->names[0], k), "value", "operation %d (%s) did not list %s", i, n, (char *)k); }
        break;
      }
    case O_RESOLVE: { GList *l = a->list, *m = b->list; for (; l && m; l = l->next, m = m->next) if (!g_inet_address_equal (l->data, m->data)) break; vs_check (!l && !m, "value", "operation %d (%s) gave other addresses", i, n); break; }
    case O_READ: vs_check (!memcmp (o->buf[0], o->buf[1], o->count), "data", "operation %d (%s) left other data in the buffer", i, n); break;
    case O_BUS: vs_check (a->obj == b->obj, "value", "another bus connection"); break;
    case O_SEND: { GVariant *x = g_dbus_message_get_body ((GDBusMessage *)a->obj), *y = g_dbus_message_get_body ((GDBusMessage *)b->obj); vs_check (!x == !y && (!x || g_variant_equal (x, y)) && g_dbus_message_get_message_type ((GDBusMessage *)a->obj) == g_dbus_message_get_message_type ((GDBusMessage *)b->obj), "value", "operation %d (%s) gave another reply", i, n); vs_check (o->serial[0] != 0 && o->serial[0] == g_dbus_message_get_reply_serial ((GDBusMessage *)a->obj), "value", "operation %d (%s) reported serial %u", i, n, o->serial[0]); break; }
    case O_CALLFD:
      {
        int x = a->fds ? g_unix_fd_list_get_length (a->fds) : -1, y = b->fds ? g_unix_fd_list_get_length (b->fds) : -1;
        vs_check (x == y, "value", "operation %d (%s) returned %d descriptors instead of %d", i, n, x, y);
        for (int k = 0; k < x; k++) { int p = g_unix_fd_list_get (a->fds, k, NULL), q = g_unix_fd_list_get (b->fds, k, NULL); struct stat s, t; fstat (p, &s); fstat (q, &t); vs_check (s.st_size == t.st_size, "value", "operation %d (%s) returned other descriptors", i, n); close (p); close (q); }
        break;
      }
    case O_CONNECT: case O_ACCEPT:
      {
        char c[2] = { 0, 0 }; GIOStream *x = (GIOStream *)a->obj; int fd = -1;
        if (o->kind == O_ACCEPT) fd = o->peer[0];
        else if (o->n == 0) fd = accept4 (o->peer[0], NULL, NULL, SOCK_CLOEXEC);
        if (fd >= 0)
          {
            struct pollfd pf = { g_socket_get_fd (g_socket_connection_get_socket ((GSocketConnection *)x)), POLLIN, 0 };
            vs_check (write (fd, "q", 1) == 1 && poll (&pf, 1, 3000) == 1 && read (g_socket_get_fd (g_socket_connection_get_socket ((GSocketConnection *)x)), c, 1) == 1 && c[0] == 'q', "value", "operation %d (%s) did not give the connection", i, n);
            if (o->kind == O_CONNECT) close (fd);
          }
        break;
      }
    default: break;
    }
}
static void
op_free (Op *o)
{
  dex_clear (&o->blk); dex_clear (&o->f);
  out_clear (&o->got); out_clear (&o->ref);
  g_free (o->p1); g_free (o->p2); g_free (o->str); g_free (o->data); g_free (o->buf[0]); g_free (o->buf[1]); g_clear_pointer (&o->bytes, g_bytes_unref); g_clear_pointer (&o->var, g_variant_unref);
  for (int w = 0; w < 2; w++) { if (o->peer[w] > 0) close (o->peer[w]); g_clear_object (&o->x[w]); g_clear_object (&o->y[w]); g_clear_object (&o->fds[w]); }
}
static int n_drop, n_ok, n_bad;
static DexFuture *drop_cb (DexFuture *f, gpointer u) { return NULL; }
static void
run_batch (int from, int to)
{
  DexFuture *fib[MAXOP] = { 0 };
  nwait = to - from;
  for (int i = from; i < to; i++) if (!op[i].drop) sync_op (&op[i]);
  for (int i = from; i < to; i++)
    {
      Op *o = &op[i];
      if (o->drop)
        {
          n_drop++;
          DexFuture *f = async_op (o);
          if (o->via) { DexFuture *b = dex_future_finally (f, (DexFutureCallback)drop_cb, NULL, NULL); if (o->buf[1]) while (g_main_context_iteration (NULL, FALSE)) ; dex_unref (b); }
          else { for (int k = vs_draw (4); k > 0; k--) g_main_context_iteration (NULL, FALSE); dex_unref (f); }
          g_atomic_int_add (&nwait, -1);
        }
      else if (o->via < 2) { o->f = async_op (o); o->blk = dex_future_finally (dex_ref (o->f), op_cb, o, NULL); }
      else fib[i] = dex_scheduler_spawn (o->via == 2 ? NULL : pool, 0, op_fiber, o, NULL);
    }
  settle ();
  gint64 end = g_get_monotonic_time () + 8 * G_USEC_PER_SEC;
  for (int i = from; i < to; i++) if (fib[i]) { while (dex_future_is_pending (fib[i]) && g_get_monotonic_time () < end) if (!g_main_context_iteration (NULL, FALSE)) usleep (20); vs_check (dex_future_is_resolved (fib[i]), "fiber", "a fiber did not finish"); dex_unref (fib[i]); }
  for (int i = from; i < to; i++) if (!op[i].drop) { same (&op[i]); if (op[i].ref.ok) n_ok++; else n_bad++; }
}
static GUnixFDList *
gen_fds (int n)
{
  if (!n) return NULL;
  GUnixFDList *l = g_unix_fd_list_new ();
  for (int i = 0; i < n; i++) { int fd = memfd_create ("x", MFD_CLOEXEC); if (ftruncate (fd, 100 + i)) _exit (71); g_unix_fd_list_append (l, fd, NULL); close (fd); }
  return l;
}
static bool
past_end (gpointer s)
{
  if (!G_IS_FILE_INPUT_STREAM (s) || g_input_stream_is_closed (s)) return false;
  GFileInfo *i = g_file_input_stream_query_info (s, "standard::size", NULL, NULL); bool r = !i || g_file_info_get_size (i) < g_seekable_tell (s);
  g_clear_object (&i); return r;
}
/* 0: reads the tree, 1: changes it, 2: other */
static int
gen_op (Op *o, int *used)
{
  int cls; memset (o, 0, sizeof *o); o->id = nops; o->slot = o->slot2 = -1; o->prio = vs_draw (3) * 100 - 100; o->via = vs_draw (4);
  static const int w[] = { O_FREAD, O_FREAD, O_FREAD, O_FREPLACE, O_FREPLACE, O_FINFO, O_FMKDIR, O_FENUM, O_FCOPY, O_FCOPY, O_FEXISTS, O_FLOAD, O_FLOAD, O_NEXT, O_NEXT, O_READ, O_READ, O_SKIP, O_READ_BYTES, O_READ_BYTES, O_ICLOSE, O_WRITE, O_WRITE, O_WRITE_BYTES, O_OCLOSE, O_OCLOSE, O_SPLICE, O_SPLICE, O_IOCLOSE, O_RESOLVE, O_BUS, O_CALL, O_CALL, O_CALLFD, O_CALLFD, O_SEND, O_WAIT, O_CONNECT, O_ACCEPT };
  o->kind = w[vs_draw (G_N_ELEMENTS (w))];
  switch (o->kind)
    {
    case O_FREAD: case O_FINFO: case O_FENUM: case O_FEXISTS: case O_FLOAD:
      o->p1 = gen_path (); o->flags = o->kind == O_FREAD ? 0 : vs_draw (2); o->drop = vs_draw (8) == 7; cls = 0; break;
    case O_FREPLACE: o->p1 = gen_path (); o->backup = vs_draw (2); o->flags = vs_draw (4); if (vs_draw (5) == 4) o->str = g_strdup ("0:0"); cls = 1; break;
    case O_FMKDIR: o->p1 = gen_path (); cls = 1; break;
    case O_FCOPY: o->p1 = gen_path (); o->p2 = gen_path (); o->flags = vs_draw (8); cls = 1; break;
    case O_NEXT: o->slot = pick_slot (L_ENUM); o->count = 1 + vs_draw (4); cls = 0; break;
    case O_READ: case O_SKIP: case O_READ_BYTES: case O_ICLOSE:
      o->slot = pick_slot (L_IN); o->count = vs_draw (3) ? vs_draw (60) : vs_draw (9000); if (o->kind == O_READ_BYTES && !o->count) o->count = 1;
      o->buf[0] = g_malloc0 (o->count + 1); o->buf[1] = g_malloc0 (o->count + 1); cls = 0; break;
    case O_WRITE: case O_WRITE_BYTES: o->slot = pick_slot (L_OUT); o->count = 1 + (vs_draw (3) ? vs_draw (60) : vs_draw (9000)); o->data = g_malloc (o->count); for (gsize i = 0; i < o->count; i++) o->data[i] = (char)(i * 13 + nops); o->bytes = g_bytes_new (o->data, o->count); cls = 1; break;
    case O_OCLOSE: o->slot = pick_slot (L_OUT); cls = 1; break;
    case O_SPLICE: o->slot = pick_slot (L_OUT); o->slot2 = pick_slot (L_IN); o->flags = vs_draw (4); cls = 1; if (o->slot2 < 0 || (o->slot >= 0 && !slot[o->slot].mem && strcmp (slot[o->slot2].path, "memory"))) return -1; break;   /* a file copied onto itself never ends */
    case O_IOCLOSE: for (int k = 0; k < 2; k++) { GInputStream *i = g_memory_input_stream_new (); GOutputStream *q = g_memory_output_stream_new_resizable (); o->x[k] = (GObject *)g_simple_io_stream_new (i, q); g_object_unref (i); g_object_unref (q); } cls = 2; break;
    case O_RESOLVE: { static const char *h[] = { "127.0.0.1", "::1", "localhost", "10.1.2.3" }; o->str = g_strdup (h[vs_draw (4)]); cls = 2; break; }
    case O_BUS: o->n = vs_draw (3) ? G_BUS_TYPE_SESSION : G_BUS_TYPE_SYSTEM; cls = 2; break;
    case O_CALL: case O_CALLFD: case O_SEND:
      {
        int m = vs_draw (5); o->n = -1; static const char *mn[] = { "Echo", "Fail", "Fds", "Never", "Nope" };
        o->p2 = g_strdup (mn[m]); o->str = g_strdup (vs_draw (8) == 7 ? "/nothing" : "/o"); cls = 2;
        GVariant *v = NULL;
        switch (m) { case 0: v = g_variant_new ("(v)", vs_draw (2) ? g_variant_new_string ("x\"y") : g_variant_new_uint64 (vs_draw64 ())); break; case 1: { static const char *en[] = { "org.freedesktop.DBus.Error.AccessDenied", "t.Error.Planned", "org.freedesktop.DBus.Error.NoReply" }; v = g_variant_new ("(s)", en[vs_draw (3)]); break; } case 2: v = g_variant_new ("(i)", vs_draw (4)); break; case 3: o->n = 30 + vs_draw (30); if (vs_draw (4)) { o->n = G_MAXINT; o->drop = true; } break; default: break; }
        if (m == 3 && !strcmp (o->str, "/nothing")) { o->str[1] = 'o'; o->str[2] = 0; }
        if (v) o->var = g_variant_ref_sink (v);
        if (vs_draw (4) == 3 && m != 3) o->reply = vs_draw (2) ? G_VARIANT_TYPE ("(v)") : G_VARIANT_TYPE ("(i)");
        if (o->kind == O_CALLFD) { int k = m == 2 ? vs_draw (4) : 0; o->fds[0] = gen_fds (k); o->fds[1] = gen_fds (k); }
        if (o->kind == O_SEND) for (int k = 0; k < 2; k++) { GDBusMessage *msg = g_dbus_message_new_method_call (NULL, o->str, "t.T", o->p2); if (o->var) g_dbus_message_set_body (msg, o->var); o->x[k] = (GObject *)msg; }
        if (o->drop) o->via = o->kind != O_CALLFD || vs_draw (2);   /* only losing the last awaiter cancels */
        break;
      }
    case O_WAIT: { if (vs_draw (4)) return -1; char s[40]; if (vs_draw (4)) g_snprintf (s, sizeof s, "exit %u", vs_draw (4)); else g_snprintf (s, sizeof s, "kill -%u $$", vs_draw (2) ? 9 : 15); for (int k = 0; k < 2; k++) o->x[k] = (GObject *)g_subprocess_new (0, NULL, "/bin/sh", "-c", s, NULL); cls = 2; break; }
    case O_CONNECT:
      o->n = vs_draw (4); cls = 2;   /* 0: accepts, 1: nobody listens, 2: no such name, 3: TLS asked of a plain peer times out not: refused address */
      for (int k = 0; k < 2; k++)
        {
          guint16 port = 0; int fd = tcp (&port, true); o->peer[k] = fd;
          if (o->n == 1) { close (fd); o->peer[k] = 0; port = 1; }
          GSocketClient *c = g_socket_client_new (); g_socket_client_set_enable_proxy (c, FALSE); if (o->n == 3) g_socket_client_set_family (c, G_SOCKET_FAMILY_IPV6); o->x[k] = (GObject *)c;
          GInetAddress *lo = g_inet_address_new_loopback (G_SOCKET_FAMILY_IPV4);
          o->y[k] = o->n == 2 ? (GObject *)g_unix_socket_address_new ("/nonexistent/vs") : (GObject *)g_inet_socket_address_new (lo, port); g_object_unref (lo);
        }
      break;
    case O_ACCEPT:
      o->n = vs_draw (5); cls = 2; if (o->n == 4) { o->drop = true; o->n = 0; } else if (o->n == 3) o->n = 1;   /* 0: closed listener or nobody connects, 1: connected before, 2: connects later */
      for (int k = 0; k < 2; k++)
        {
          GSocketListener *l = g_socket_listener_new (); o->x[k] = (GObject *)l; o->port[k] = 0;
          if (o->n || o->drop) { guint16 p = 0; int fd = tcp (&p, true); GSocket *s = g_socket_new_from_fd (fd, NULL); o->port[k] = p; g_socket_listener_add_socket (l, s, NULL, NULL); g_object_unref (s); } else g_socket_listener_close (l);
        }
      if (o->drop) o->via = 1;
      break;
    default: return -1;
    }
  if (o->kind == O_SKIP && o->slot >= 0) for (int w = 0; w < 2; w++) if (past_end (slot[o->slot].s[w])) return -1;   /* GLib asserts */
  if ((o->kind >= O_NEXT && o->kind <= O_SPLICE) && (o->slot < 0 || used[o->slot] || (o->slot2 >= 0 && used[o->slot2]))) return -1;
  if (o->slot >= 0) used[o->slot] = 1;
  if (o->slot2 >= 0) used[o->slot2] = 1;
  if (o->drop && o->via > 1) o->via -= 2;
  vs_log ("operation %d: %s %s %s slot %d via %d%s%s", nops, oname[o->kind], o->p1 ? o->p1 : "", o->p2 ? o->p2 : "", o->slot, o->via, o->drop ? ", dropped" : "", o->fds[0] ? ", descriptors" : "");
  return cls;
}
static int count_of (const char *s, const char *w) { int n = 0; for (; s && (s = strstr (s, w)); s++) n++; return n; }
static void
run_real (void)
{
  static bool once; static int base_fds;
  signal (SIGPIPE, SIG_IGN); signal (SIGXFSZ, SIG_IGN); struct rlimit rl = { 8 << 20, 8 << 20 }; setrlimit (RLIMIT_FSIZE, &rl);
  if (!once)
    {
      once = true; root = g_strdup_printf ("%s/vsgio.XXXXXX", g_getenv ("VS_SHM") ? g_getenv ("VS_SHM") : g_get_tmp_dir ()); if (!mkdtemp (root)) _exit (70);
      g_thread_new ("bus", srv_thread, NULL); while (!g_atomic_int_get (&sready)) usleep (100);
      g_setenv ("DBUS_SESSION_BUS_ADDRESS", saddr, TRUE); g_setenv ("DBUS_SYSTEM_BUS_ADDRESS", "unix:path=/nonexistent/vs", TRUE);
      GError *e = NULL;
      GDBusConnection *b = g_bus_get_sync (G_BUS_TYPE_SESSION, NULL, &e); if (!b) { fprintf (stderr, "bus: %s\n", e->message); _exit (70); } g_dbus_connection_set_exit_on_close (b, FALSE);
      conn = g_dbus_connection_new_for_address_sync (saddr, G_DBUS_CONNECTION_FLAGS_AUTHENTICATION_CLIENT, NULL, NULL, &e); if (!conn) { fprintf (stderr, "peer: %s\n", e->message); _exit (70); }
      g_object_unref (g_resolver_get_default ());
      vs_objects_mark ();
    }
  DexScheduler *def = dex_thread_pool_scheduler_get_default (); __asm__ volatile ("" :: "r" (def) : "memory"); pool = def;
  nops = nslot = n_drop = n_ok = n_bad = 0;
  char *names[] = { "a", "b" };
  if (access (root, F_OK) && g_mkdir (root, 0700)) _exit (70);
  for (int w = 0; w < 2; w++)
    {
      world[w] = g_build_filename (root, names[w], NULL);
      char *d[] = { "", "d0", "d1" }; for (int k = 0; k < 3; k++) { char *p = g_build_filename (world[w], d[k], NULL); if (mkdir (p, 0755)) _exit (70); g_free (p); }
      char *p = g_build_filename (world[w], "link", NULL); if (symlink ("f1", p)) _exit (70); g_free (p);
      p = g_build_filename (world[w], "dangling", NULL); if (symlink ("nowhere", p)) _exit (70); g_free (p);
      p = g_build_filename (world[w], "dlink", NULL); if (symlink ("d0", p)) _exit (70); g_free (p);
    }
  static const char *fn[] = { "f0", "f1", "f2", "f3", "d0/a", "d0/b", "d1/c" };
  uint32_t x = vs_draw (1000) + 1; char *data = g_malloc (70001);
  for (int i = 0; i < 70001; i++) { x = x * 1103515245 + 12345; data[i] = (x >> 16) % 11 + 'a'; }
  for (int k = 0; k < 7; k++) { int n = vs_draw (3) ? vs_draw (200) : vs_draw (2) ? 0 : vs_draw (70000); put (fn[k], data + vs_draw (1000) % (70001 - n), n); }
  /* streams in memory */
  for (int k = vs_draw (4); k > 0; k--)
    {
      int how = vs_draw (4), n = vs_draw (300); char *d = g_memdup2 (data + vs_draw (1000), n + 1);
      if (how == 2 && vs_draw (3)) { GConverter *c = (GConverter *)g_zlib_compressor_new (G_ZLIB_COMPRESSOR_FORMAT_GZIP, -1); char *q = g_malloc (1000); gsize br, bw; g_converter_convert (c, d, n, q, 1000, G_CONVERTER_INPUT_AT_END, &br, &bw, NULL); g_object_unref (c); g_free (d); d = q; n = bw; if (vs_draw (2) && n > 12) d[12 + vs_draw (n - 12)] ^= 0x55; if (vs_draw (4) == 3) n = vs_draw (n + 1); }
      new_slot (L_IN, (GObject *)mem_stream (how, d, n), (GObject *)mem_stream (how, d, n), "memory"); g_free (d);
    }
  for (int k = vs_draw (3); k > 0; k--)
    { gsize n = vs_draw (200); bool fixed = vs_draw (2); new_slot (L_OUT, (GObject *)(fixed ? g_memory_output_stream_new (g_malloc0 (n + 1), n, NULL, g_free) : g_memory_output_stream_new_resizable ()), (GObject *)(fixed ? g_memory_output_stream_new (g_malloc0 (n + 1), n, NULL, g_free) : g_memory_output_stream_new_resizable ()), "memory"); slot[nslot - 1].mem = true; }
  int want = 2 + (vs_draw (3) ? vs_draw (20) : vs_draw (MAXOP - 2)), from = 0, cls = -1, big = 0, tries = 0, used[NSLOT] = { 0 };
  while (nops < want && tries++ < 400)
    {
      int c = gen_op (&op[nops], used);
      if (c < 0) { op_free (&op[nops]); continue; }
      bool brk = (c == 1 && nops > from) || (cls == 1 && c != 2 && nops > from);
      if (brk) { Op t = op[nops]; int s1 = t.slot, s2 = t.slot2; run_batch (from, nops); big = MAX (big, nops - from); from = nops; cls = -1; memset (used, 0, sizeof used); if (s1 >= 0) used[s1] = 1; if (s2 >= 0) used[s2] = 1; }
      if (c != 2) cls = c;
      nops++;
      if (c == 1 || vs_draw (6) == 5 || nops - from > 25)
        {
          int k = op[nops - 1].kind; run_batch (from, nops); big = MAX (big, nops - from);
          Op *o = &op[nops - 1];
          if (k == O_SPLICE) { if (o->flags & 1) slot[o->slot2].live = true; }
          from = nops; cls = -1; memset (used, 0, sizeof used);
        }
    }
  if (nops > from) { run_batch (from, nops); big = MAX (big, nops - from); }
  for (int i = 0; i < nslot; i++)
    {
      Slot *s = &slot[i];
      if (s->kind == L_OUT && s->mem)
        {
          gsize n = g_memory_output_stream_get_data_size ((GMemoryOutputStream *)s->s[0]), m = g_memory_output_stream_get_data_size ((GMemoryOutputStream *)s->s[1]);
          vs_check (n == m && !memcmp (g_memory_output_stream_get_data ((GMemoryOutputStream *)s->s[0]) ?: (gpointer)"", g_memory_output_stream_get_data ((GMemoryOutputStream *)s->s[1]) ?: (gpointer)"", n), "data", "a memory stream holds other data than its twin");
        }
      for (int w = 0; w < 2; w++) { if (s->kind == L_IN) vs_check (g_input_stream_is_closed ((GInputStream *)s->s[0]) == g_input_stream_is_closed ((GInputStream *)s->s[1]), "closed", "a stream is closed and its twin is not"); if (s->kind == L_OUT) vs_check (g_output_stream_is_closed ((GOutputStream *)s->s[0]) == g_output_stream_is_closed ((GOutputStream *)s->s[1]), "closed", "a stream is closed and its twin is not"); }
    }
  for (int i = 0; i < nops; i++) op_free (&op[i]);
  gint64 end = g_get_monotonic_time () + 10 * G_USEC_PER_SEC; char *dump; int nf, np;
  for (;;)
    {
      while (g_main_context_iteration (NULL, FALSE)) ;
      dump = vs_objects_dump (); nf = count_of (dump, "DexAsyncPair#"); np = count_of (dump, "DexPromise#") + count_of (dump, "DexFutureSet#");
      if (!(nf + np) || g_get_monotonic_time () > end) break;
      g_free (dump); usleep (100);
    }
  vs_check (!(nf + np), "leak", "futures of finished or dropped operations are still alive: %s", dump);
  g_free (dump);
  for (int i = 0; i < nslot; i++)
    {
      Slot *s = &slot[i];
      for (int t = 0; t < 1000 && G_OBJECT (s->s[0])->ref_count != 1; t++) { while (g_main_context_iteration (NULL, FALSE)) ; usleep (200); }
      vs_check (G_OBJECT (s->s[0])->ref_count == 1, "leak", "a %s has %d references", G_OBJECT_TYPE_NAME (s->s[0]), G_OBJECT (s->s[0])->ref_count);
      for (int w = 0; w < 2; w++) { g_clear_object (&s->s[w]); g_clear_pointer (&s->names[w], g_hash_table_unref); }
      g_free (s->path);
    }
  GString *sa = g_string_new (""), *sb = g_string_new (""); tree_sig (sa, world[0], ""); tree_sig (sb, world[1], "");
  if (strcmp (sa->str, sb->str)) { vs_log ("tree:\n%s", sa->str); vs_log ("twin:\n%s", sb->str); }
  vs_check (!strcmp (sa->str, sb->str), "side-effects", "the files differ from those after the blocking calls");
  g_string_free (sa, TRUE); g_string_free (sb, TRUE);
  for (int w = 0; w < 2; w++) { rmtree (world[w]); g_free (world[w]); }
  rmdir (root);
  g_free (data);
  int fds = vs_count_fds (); if (!base_fds) base_fds = fds + 12; vs_check (fds <= base_fds, "fd-leak", "%d descriptors open, about %d after the first case", fds, base_fds - 12);
  if (n_drop) vs_label ("dropped"); if (n_bad) vs_label ("failing operation"); if (big > 1) vs_label ("several in flight");
  if (n_ok > 2 && big > 1) vs_nontrivial ();
}
VS_HARNESS (g2) = { "gio-real", "up to 90 wrapped operations on files, streams, processes, resolver and D-Bus connections, several in flight on main loop, fibers and pool, against the blocking calls on a twin; non-trivial: three succeed and two are in flight at once", run_real, 20, .exec = true, .real_time = true, .timeout_s = 60 };
