/* Asynchronous file reads and writes against the synchronous calls on a twin. */
#define _GNU_SOURCE
#include "vs.h"
#include <libdex.h>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include "dex-scheduler-private.h"

enum { F_MEM, F_MEM_RO, F_MEM_WO, F_TMP, F_TMP_APPEND, F_PIPE_R, F_PIPE_W, F_SOCK_A, F_SOCK_B, F_BROKEN, F_SEALED, F_NULL, F_ZERO, F_DIR, F_BAD, NF };
static const char *fname[NF] = { "file", "file read-only", "file write-only", "tmpfile", "tmpfile append", "pipe read end", "pipe write end", "socket a", "socket b", "broken pipe", "sealed file", "/dev/null", "/dev/zero", "directory", "bad descriptor" };
/* descriptors which share their data are one object */
static const int fobj[NF] = { 0, 0, 0, 3, 3, 5, 5, 7, 7, 9, 10, 11, 12, 13, 14 };
#define SEEKABLE(k) ((k) <= F_TMP_APPEND || (k) == F_SEALED)
typedef struct { int fd[NF]; } World;
static World A, B;   /* asynchronous, reference */

#define MAXOP 120
typedef struct
{
  int kind, via, idx; bool write, dropped, nest; gsize count, room; goffset off; char *buf, *want;
  gssize res; int err;                               /* reference */
  int done; gint64 got; GQuark dom; int code; bool ok, intact; DexFuture *f; bool in_fiber;
} Op;
static Op ops[MAXOP]; static int nops, nwait; static __thread int nnest; static int nnested;
static struct { int obj; guint64 lo, hi; bool wr; } busy[MAXOP]; static int nbusy;
static bool blocking, burst;
static void one_less (void) { if (g_atomic_int_add (&nwait, -1) == 1 && blocking) g_main_context_wakeup (NULL); }
static DexScheduler *pool; static char *huge; static DexAioContext *main_aio;
#define HUGE_SIZE (9ull << 30)

static int xopen (const char *p, int fl) { int fd = open (p, fl | O_CLOEXEC, 0600); if (fd < 0) { perror (p); _exit (70); } return fd; }
static int reopen (int fd, int fl) { char b[64]; snprintf (b, sizeof b, "/proc/self/fd/%d", fd); return xopen (b, fl); }
static void
world_open (World *w, const char *data, gsize n)
{
  int p[2];
  w->fd[F_MEM] = memfd_create ("a", MFD_CLOEXEC);
  if (write (w->fd[F_MEM], data, n) != (gssize)n) _exit (71);
  lseek (w->fd[F_MEM], 0, SEEK_SET);
  w->fd[F_MEM_RO] = reopen (w->fd[F_MEM], O_RDONLY); w->fd[F_MEM_WO] = reopen (w->fd[F_MEM], O_WRONLY);
  w->fd[F_TMP] = xopen (g_get_tmp_dir (), O_TMPFILE | O_RDWR);
  if (write (w->fd[F_TMP], data, n / 2) != (gssize)(n / 2)) _exit (71);
  w->fd[F_TMP_APPEND] = reopen (w->fd[F_TMP], O_RDWR | O_APPEND);
  if (pipe2 (p, O_CLOEXEC | O_NONBLOCK)) _exit (70);
  w->fd[F_PIPE_R] = p[0]; w->fd[F_PIPE_W] = p[1];
  if (socketpair (AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0, p)) _exit (70);
  w->fd[F_SOCK_A] = p[0]; w->fd[F_SOCK_B] = p[1];
  if (pipe2 (p, O_CLOEXEC)) _exit (70);
  close (p[0]); w->fd[F_BROKEN] = p[1];
  w->fd[F_SEALED] = memfd_create ("s", MFD_CLOEXEC | MFD_ALLOW_SEALING);
  if (write (w->fd[F_SEALED], data, n) != (gssize)n) _exit (71);
  fcntl (w->fd[F_SEALED], F_ADD_SEALS, F_SEAL_WRITE | F_SEAL_GROW);
  w->fd[F_NULL] = xopen ("/dev/null", O_RDWR); w->fd[F_ZERO] = xopen ("/dev/zero", O_RDWR);
  w->fd[F_DIR] = xopen ("/", O_RDONLY | O_DIRECTORY);
  w->fd[F_BAD] = -1;
}
static void world_close (World *w) { for (int i = 0; i < NF; i++) if (w->fd[i] >= 0) close (w->fd[i]); }
static gssize
ref_call (Op *o)
{
  int fd = B.fd[o->kind];
  errno = 0;
  if (o->write) return o->off < 0 ? write (fd, o->buf, o->count) : pwrite (fd, o->buf, o->count, o->off);
  char *b = o->room ? o->want : huge + HUGE_SIZE / 2;
  if (o->off < 0) return read (fd, b, o->count);
  return pread (fd, b, o->count, o->off);
}
static char *abuf (Op *o) { return o->room || o->write ? o->buf : huge; }
static void
finish (Op *o, const GValue *v, const GError *e)
{
  if (v) { vs_check (G_VALUE_HOLDS_INT64 (v), "type", "op %d resolved with a %s", o->idx, G_VALUE_TYPE_NAME (v)); o->ok = true; o->got = g_value_get_int64 (v); }
  else { o->dom = e->domain; o->code = e->code; }
  /* the data must be there when the future completes */
  if (v && !o->write && o->res >= 0) o->intact = o->room ? !memcmp (o->buf, o->want, o->room) : !memcmp (huge, huge + HUGE_SIZE / 2, o->res);
  else o->intact = true;
  g_atomic_int_inc (&o->done); one_less ();
}
static DexFuture *
op_cb (DexFuture *f, gpointer u)
{
  Op *o = u; GError *e = NULL; const GValue *v = dex_future_get_value (f, &e);
  finish (o, v, e); g_clear_error (&e);
  if (o->nest && o->idx % 2 && nnest < 2)
    {
      /* another operation, waited for right here */
      static __thread char b[4]; DexFuture *g = dex_aio_read (NULL, A.fd[F_SEALED], b, 1, 0);
      nnest++; g_atomic_int_inc (&nnested);
      gint64 end = g_get_monotonic_time () + 8 * G_USEC_PER_SEC;
      GMainContext *c = g_main_context_get_thread_default ();
#ifdef VS_VARIANT_R
      while (dex_future_is_pending (g) && g_get_monotonic_time () < end) if (!g_main_context_iteration (c, FALSE)) usleep (20);
#else
      for (int i = 0; dex_future_is_pending (g) && i < 2000; i++) g_main_context_iteration (c, TRUE);
#endif
      vs_check (!dex_future_is_pending (g), "nested", "a read waited for inside the callback of op %d does not complete (%ld us left)", o->idx, (long)(end - g_get_monotonic_time ()));
      dex_unref (g); nnest--;
    }
  else if (o->nest && nnest < 3) { nnest++; for (int i = 0; i < 4; i++) g_main_context_iteration (g_main_context_get_thread_default (), FALSE); nnest--; }
  return NULL;
}
static DexFuture *
start (Op *o, DexAioContext *ctx)
{
  int fd = A.fd[o->kind];
  return o->write ? dex_aio_write (ctx, fd, o->buf, o->count, o->off) : dex_aio_read (ctx, fd, abuf (o), o->count, o->off);
}
static void
submit (Op *o, DexAioContext *ctx)
{
  DexFuture *f = start (o, ctx);
  vs_check (f != NULL, "null", "no future for op %d", o->idx);
  if (o->dropped) { dex_unref (f); one_less (); return; }
  o->f = dex_future_finally (f, op_cb, o, NULL);
}
typedef struct { Op **o; int n; } Group;
static void group_item (gpointer u) { Group *g = u; for (int i = 0; i < g->n; i++) submit (g->o[i], NULL); }
/* while the main loop sleeps */
static gpointer late_thread (gpointer u) { Group *g = u; for (int i = 0; i < g->n; i++) { usleep (i % 3 ? 0 : 700); g->o[i]->f = dex_future_finally (start (g->o[i], main_aio), op_cb, g->o[i], NULL); } return NULL; }
static gpointer group_thread (gpointer u) { Group *g = u; for (int i = 0; i < g->n; i++) { DexFuture *f = start (g->o[i], main_aio); g->o[i]->f = f; } return NULL; }
static DexFuture *
group_fiber (gpointer u)
{
  Group *g = u;
  for (int i = 0; i < g->n; i++)
    {
      GError *e = NULL; Op *o = g->o[i];
      gint64 r = dex_await_int64 (start (o, NULL), &e);
      GValue v = { 0 }; g_value_init (&v, G_TYPE_INT64); g_value_set_int64 (&v, r);
      finish (o, e ? NULL : &v, e); g_clear_error (&e);
    }
  return dex_future_new_for_int (g->n);
}
static void
describe (Op *o, char *b, gsize n)
{
  g_snprintf (b, n, "%s of %zu bytes %s%ld on %s", o->write ? "write" : "read", o->count, o->off < 0 ? "at the current position " : "at ", (long)o->off, fname[o->kind]);
}
static bool
conflicts (Op *o)
{
  struct stat st; guint64 size = 0, lo, hi; bool wr = o->write;
  if (SEEKABLE (o->kind) && !fstat (B.fd[o->kind], &st)) size = st.st_size;
  if (!SEEKABLE (o->kind) || o->off < 0 || o->kind == F_TMP_APPEND) { lo = 0; hi = G_MAXUINT64; wr = true; }
  else { lo = o->off; hi = lo + o->count; if (wr && hi > size) { lo = MIN (lo, size); hi = G_MAXUINT64; } }
  if (o->kind == F_NULL || o->kind == F_ZERO || o->kind == F_BAD || o->kind == F_DIR || o->kind == F_BROKEN) { lo = hi = 0; wr = false; }
  for (int i = 0; i < nbusy; i++)
    if (busy[i].obj == fobj[o->kind] && (busy[i].wr || wr) && lo < busy[i].hi && busy[i].lo < hi) return true;
  busy[nbusy].obj = fobj[o->kind]; busy[nbusy].lo = lo; busy[nbusy].hi = hi; busy[nbusy].wr = wr; nbusy++;
  return false;
}
static void
gen_op (Op *o, gsize fsize)
{
  o->write = vs_draw (2);
  static const int wk[] = { F_MEM, F_MEM, F_MEM, F_MEM, F_TMP, F_TMP, F_MEM_WO, F_TMP_APPEND, F_PIPE_W, F_PIPE_W, F_SOCK_A, F_SOCK_B, F_NULL, F_BROKEN, F_SEALED, F_MEM_RO, F_DIR, F_BAD, F_PIPE_R, F_ZERO };
  static const int rk[] = { F_MEM, F_MEM, F_MEM, F_TMP, F_TMP, F_MEM_RO, F_SEALED, F_TMP_APPEND, F_PIPE_R, F_PIPE_R, F_SOCK_A, F_SOCK_B, F_NULL, F_ZERO, F_MEM_WO, F_DIR, F_BAD, F_PIPE_W, F_BROKEN };
  if (burst) o->write = false;
  o->kind = burst ? (vs_draw (2) ? F_MEM : F_MEM_RO) : o->write ? wk[vs_draw (G_N_ELEMENTS (wk))] : rk[vs_draw (G_N_ELEMENTS (rk))];
  switch (vs_draw (6)) { case 0: o->count = vs_draw (20); break; case 1: o->count = vs_draw (300); break; case 2: o->count = 0; break; case 3: o->count = 4096 * (1 + vs_draw (3)) - 1 + vs_draw (3); break; case 4: o->count = vs_draw (70000); break; default: o->count = 1 + vs_draw (5); }
  switch (vs_draw (6)) { case 0: o->off = vs_draw (fsize + 1); break; case 1: o->off = 0; break; case 2: o->off = fsize - (o->count < fsize ? vs_draw (o->count + 1) : 0); break; case 3: o->off = fsize + vs_draw (9000); break; default: o->off = vs_draw (fsize + 1); break; case 5: o->off = -1; }
  /* what cannot seek is only used at the current position */
  if (!SEEKABLE (o->kind) && o->kind != F_BAD && o->kind != F_DIR && o->kind != F_NULL && o->kind != F_ZERO) o->off = -1;
  if (o->kind == F_DIR && o->off < 0) o->off = 0;
#ifdef VS_VARIANT_R
  if (o->kind == F_DIR && o->count == 0) o->count = 1;   /* io_uring does not look at the descriptor then */
  if (o->kind == F_ZERO) o->count %= 4097;                   /* stops after any page when the thread has other work */
#endif
  if (burst) { if (o->off < 0) o->off = 0; o->count = vs_draw (2) ? 1 + vs_draw (40) : o->count; }
  o->room = o->count;
  switch (burst ? 0 : vs_draw (24))
    {
    case 1: /* more than 32 bits of count, of which little can be satisfied */
      if (!o->write && (SEEKABLE (o->kind) || o->kind == F_NULL)) { o->count = (1ull << 32) - 2 + vs_draw (5) + (vs_draw (2) ? vs_draw (100000) : 0); o->room = 0; }
      else if (o->write && o->kind == F_NULL) { o->count = (1ull << 31) - 5000 + vs_draw (6000) + ((guint64)vs_draw (3) << 31); o->room = 0; }
      break;
    case 2: if (SEEKABLE (o->kind) && (!o->write || o->kind == F_SEALED) && o->off >= 0) o->off = (1ll << 32) + vs_draw (3) - 1 ; break;
    case 3: if (o->kind == F_MEM && o->off >= 0) { o->off = G_MAXINT64 - vs_draw (3) * 10; o->count = vs_draw (40); if (o->write) o->count += 30; o->room = o->count; } break;
    default: break;
    }
  o->dropped = !o->write && SEEKABLE (o->kind) && o->kind != F_TMP_APPEND && o->off >= 0 && o->room && vs_draw (8) == 7;
  o->via = vs_draw (6);
  if (o->dropped && o->via > 2) o->via = 0;
  o->nest = vs_draw (6) == 5;
  char d[160]; describe (o, d, sizeof d); vs_log ("op %d: %s via %d%s", o->idx, d, o->via, o->dropped ? ", dropped at once" : "");
}
static bool all_done (gpointer u) { return g_atomic_int_get (&nwait) == 0; }
#ifdef VS_VARIANT_R
#define LATE 1
static gboolean expired (gpointer u) { *(int *)u = 1; return G_SOURCE_REMOVE; }
#else
#define LATE 0
#endif
static void
settle (void)
{
#ifdef VS_VARIANT_R
  /* nothing but the operations themselves wakes us up */
  if (blocking)
    {
      int over = 0; guint id = g_timeout_add_seconds (8, expired, &over);
      while (!all_done (NULL) && !over) g_main_context_iteration (NULL, TRUE);
      vs_check (!over, "stalled", "%d operations did not complete while the main loop slept", nwait);
      g_source_remove (id);
    }
  gint64 end = g_get_monotonic_time () + 8 * G_USEC_PER_SEC;
  while (!all_done (NULL) && g_get_monotonic_time () < end) if (!g_main_context_iteration (NULL, FALSE)) usleep (20);
  for (int i = 0; i < 3; i++) while (g_main_context_iteration (NULL, FALSE)) ;
#else
  vs_run_idle ();
#endif
}
static int n_dropped;
static void
flush_batch (int from, int to)
{
  Op *list[6][MAXOP]; Group g[6] = { 0 };
  for (int i = 0; i < 6; i++) g[i].o = list[i];
  for (int i = from; i < to; i++) { Op *o = &ops[i]; g[o->via].o[g[o->via].n++] = o; }
  nwait = to - from;
  GThread *t = NULL; DexFuture *fib[2] = { 0 };
  if (g[2].n) dex_scheduler_push (pool, group_item, &g[2]);
  if (g[3].n) fib[0] = dex_scheduler_spawn (NULL, 0, group_fiber, &g[3], NULL);
  if (g[4].n) fib[1] = dex_scheduler_spawn (pool, 0, group_fiber, &g[4], NULL);
  if (g[5].n) t = g_thread_new ("aio", blocking && LATE ? late_thread : group_thread, &g[5]);
  for (int i = 0; i < g[0].n; i++) submit (g[0].o[i], NULL);
  for (int i = 0; i < g[1].n; i++) submit (g[1].o[i], main_aio);
#ifdef VS_VARIANT_R
  /* let a lot of completions pile up before they are looked at */
  if (burst) { g_main_context_iteration (NULL, FALSE); usleep (2000); }
#endif
  if (t && blocking && LATE) ;
  else if (t) { g_thread_join (t); for (int i = 0; i < g[5].n; i++) { Op *o = g[5].o[i]; o->f = dex_future_finally (o->f, op_cb, o, NULL); } }
  settle ();
  if (t && blocking && LATE) g_thread_join (t);
#ifdef VS_VARIANT_R
  gint64 end = g_get_monotonic_time () + 8 * G_USEC_PER_SEC;
  for (int i = 0; i < 2; i++) while (fib[i] && dex_future_is_pending (fib[i]) && g_get_monotonic_time () < end) if (!g_main_context_iteration (NULL, FALSE)) usleep (20);
#endif
  for (int i = from; i < to; i++)
    {
      Op *o = &ops[i]; char d[160]; describe (o, d, sizeof d);
      if (o->dropped) { n_dropped++; continue; }
      vs_check (o->done == 1, "not-completed", "op %d: %s completed %d times", i, d, o->done);
      if (o->res < 0)
        {
          vs_check (!o->ok, "outcome", "op %d: %s resolved with %ld instead of failing with %s", i, d, (long)o->got, g_strerror (o->err));
          vs_check (o->dom == G_IO_ERROR && o->code == (int)g_io_error_from_errno (o->err), "error", "op %d: %s failed with %s %d instead of %d (%s)", i, d, g_quark_to_string (o->dom), o->code, g_io_error_from_errno (o->err), g_strerror (o->err));
        }
      else
        {
          vs_check (o->ok, "outcome", "op %d: %s failed with %s %d instead of resolving with %ld", i, d, g_quark_to_string (o->dom), o->code, (long)o->res);
          vs_check (o->got == o->res, "count", "op %d: %s resolved with %ld, the synchronous call returned %ld", i, d, (long)o->got, (long)o->res);
          vs_check (o->intact, "data", "op %d: the buffer after a %s is not what the synchronous call read", i, d);
        }
      dex_clear (&o->f);
    }
  for (int i = 0; i < 2; i++) if (fib[i]) { vs_check (dex_future_is_resolved (fib[i]), "fiber", "a fiber doing %d operations did not finish", g[3 + i].n); dex_unref (fib[i]); }
  nbusy = 0;
}
static void
same_file (int k)
{
  struct stat a, b;
  fstat (A.fd[k], &a); fstat (B.fd[k], &b);
  vs_check (a.st_size == b.st_size, "size", "%s has %ld bytes, %ld expected", fname[k], (long)a.st_size, (long)b.st_size);
  static char x[70001], y[70001];
  for (goffset o = 0; o < a.st_size && o < 1 << 20; o += 70000)
    { gssize m = pread (A.fd[k], x, 70000, o), n = pread (B.fd[k], y, 70000, o); vs_check (m == n && (m <= 0 || !memcmp (x, y, m)), "contents", "%s differs from its twin near offset %ld", fname[k], (long)o); }

}
static void
same_stream (int k)
{
  static char x[70001], y[70001]; gssize m, n;
  do { m = read (A.fd[k], x, 70000), n = read (B.fd[k], y, 70000); vs_check (m == n && (m <= 0 || !memcmp (x, y, m)), "contents", "%s holds other data than its twin", fname[k]); } while (m > 0);

}
static G_GNUC_UNUSED int count_of (const char *s, const char *w) { int n = 0; for (; s && (s = strstr (s, w)); s++) n++; return n; }
static void
run_aio (void)
{
  nops = nbusy = n_dropped = nnested = 0; nwait = 0;
  signal (SIGPIPE, SIG_IGN);
  bool own = vs_draw (8) == 7; int nproc = 2 + 2 * vs_draw (2);
  vs_set_nproc (nproc);
  if (!huge) { huge = (char *) syscall (SYS_mmap, NULL, HUGE_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);   /* not through the sanitizer */ if (huge == MAP_FAILED) _exit (72); }
#ifndef VS_VARIANT_R
  vs_begin (VS_PREEMPT_AUTO);
#endif
#ifdef VS_VARIANT_R
  static bool marked; if (!marked) { marked = true; vs_objects_mark (); }
#endif
  main_aio = dex_scheduler_get_aio_context (dex_scheduler_get_default ());
  DexScheduler *def = dex_thread_pool_scheduler_get_default ();
  __asm__ volatile ("" :: "r" (def) : "memory");   /* declared const: keep the call here */
  nwait = 0; settle ();
#ifdef VS_VARIANT_R
  usleep (2000);
#else
  vs_objects_mark ();
#endif
  int fds = vs_count_fds ();
  pool = own ? dex_thread_pool_scheduler_new () : dex_ref (def);
  gsize fsize = vs_draw (3) ? vs_draw (20000) : vs_draw (64);
  char *data = g_malloc (fsize + 1);
  uint32_t x = vs_draw (1000) + 1; for (gsize i = 0; i < fsize; i++) { x = x * 1103515245 + 12345; data[i] = x >> 16; }
  world_open (&A, data, fsize); world_open (&B, data, fsize);
  blocking = vs_draw (3) == 2; burst = vs_draw (5) == 4;
  int want = burst ? MAXOP / 4 + vs_draw (3 * MAXOP / 4 + 1) : 1 + (vs_draw (4) ? vs_draw (12) : vs_draw (MAXOP)), from = 0, batches = 0, biggest = 0, good = 0, nskip = 0, bad = 0, big = 0;
  bool same_via = vs_draw (3) == 2 || (burst && vs_draw (2)); int via = vs_draw (6);
  while (nops < want)
    {
      Op *o = &ops[nops]; memset (o, 0, sizeof *o);
      o->idx = nops; gen_op (o, fsize);
      if (same_via && !o->dropped) o->via = via;
      bool alone = !o->room && o->count;          /* the big buffer is shared */
      if (alone || conflicts (o)) { if (nops > from) { flush_batch (from, nops); batches++; biggest = MAX (biggest, nops - from); } from = nops; if (!alone) conflicts (o); }
      if (o->write && !o->room && o->count) o->buf = huge;
      else
        {
          o->buf = g_malloc (o->room + 1); o->want = g_malloc (o->room + 1);
          for (gsize i = 0; i < o->room; i++) { if (o->write) { x = x * 1103515245 + 12345; o->buf[i] = x >> 16; } else o->buf[i] = o->want[i] = 0x5a; }
        }
      o->res = ref_call (o); o->err = errno;
#ifdef VS_VARIANT_R
      /* io_uring waits where a non-blocking descriptor would have to */
      if (o->res < 0 && o->err == EAGAIN) { g_free (o->buf); g_free (o->want); nskip++; if (nskip > 200) break; continue; }
#endif
      if (o->res < 0) bad++; else good++;
      if (alone) big++;
      nops++;
      if (alone) { flush_batch (from, nops); batches++; from = nops; }
    }
  if (nops > from) { flush_batch (from, nops); biggest = MAX (biggest, nops - from); }
  same_file (F_MEM); same_file (F_TMP); same_file (F_SEALED);
  for (int i = 0; i < NF; i++) if (SEEKABLE (i)) vs_check (lseek (A.fd[i], 0, SEEK_CUR) == lseek (B.fd[i], 0, SEEK_CUR), "position", "position of %s is %ld instead of %ld", fname[i], (long)lseek (A.fd[i], 0, SEEK_CUR), (long)lseek (B.fd[i], 0, SEEK_CUR));
  same_stream (F_PIPE_R); same_stream (F_SOCK_A); same_stream (F_SOCK_B);
  if (bad) vs_label ("failing operation"); if (big) vs_label ("count above 32 bits"); if (biggest > 32) vs_label ("more than 32 in flight"); if (own) vs_label ("own pool"); if (blocking) vs_label ("sleeping main loop"); if (burst) vs_label ("burst"); if (nnested) vs_label ("waited for inside a callback"); if (n_dropped) vs_label ("dropped");
  if (good > 1 && biggest > 1) vs_nontrivial ();
  dex_clear (&pool);
#ifdef VS_VARIANT_R
  /* dropped reads are not observable: wait until only the one read is left
   * by which each thread of the default pool waits for work */
  gint64 end = g_get_monotonic_time () + 8 * G_USEC_PER_SEC; char *dump; int nf, nw;
  for (;;)
    {
      while (g_main_context_iteration (NULL, FALSE)) ;
      dump = vs_objects_dump ();
      nf = count_of (dump, "DexUringFuture#"); nw = count_of (dump, "DexThreadPoolWorker#");
      if (nf == nw || g_get_monotonic_time () > end) break;
      g_free (dump); usleep (100);
    }
  vs_check (nf == nw, "leak", "futures of finished operations are still alive: %d for %d pool threads", nf, nw);
#else
  vs_run_idle ();
  char *dump = vs_objects_dump ();
  vs_check (!(dump && strstr (dump, "AioFuture")), "leak", "futures of finished operations are still alive: %s", dump);
#endif
  g_free (dump);
  for (int i = 0; i < nops; i++) { if (ops[i].buf != huge) g_free (ops[i].buf); g_free (ops[i].want); }
  g_free (data);
  world_close (&A); world_close (&B);
  vs_check (vs_count_fds () <= fds, "fd-leak", "%d descriptors open, %d before", vs_count_fds (), fds);
#ifndef VS_VARIANT_R
  vs_end ();
#endif
}
#ifdef VS_VARIANT_R
VS_HARNESS (h1) = { "aio-real", "up to 120 reads and writes on files, pipes, sockets, devices and bad descriptors, batches in flight together on the main loop, pool threads, fibers and other threads, compared with the synchronous calls on twin descriptors (io_uring); non-trivial: two operations in flight at once and two that succeed", run_aio, 40, .exec = true, .real_time = true, .timeout_s = 60 };
#else
VS_HARNESS (h1) = { "aio", "up to 120 reads and writes on files, pipes, sockets, devices and bad descriptors, batches in flight together on the main loop, pool threads, fibers and other threads, compared with the synchronous calls on twin descriptors (thread pool back end, controlled schedules); non-trivial: two operations in flight at once and two that succeed", run_aio, 1 };
#endif
