#!/usr/bin/env python3
"""Build the property harnesses from the current /repo working tree.

Variants:
  S  posix AIO backend, eventfd semaphores; deterministic scheduler, forkable
  F  like S without eventfd (portable fallback semaphore)
  R  the shipped configuration (io_uring + eventfd), for real-time harnesses
"""
import fcntl, glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
HARN = os.path.join(VERIF, "harness")
CC = "clang"

WRAP = """g_once_impl g_rec_mutex_lock g_rec_mutex_unlock g_rec_mutex_trylock g_mutex_lock g_mutex_unlock g_mutex_trylock g_cond_wait g_cond_wait_until g_cond_signal
g_cond_broadcast g_rw_lock_reader_lock g_rw_lock_reader_unlock g_rw_lock_reader_trylock
g_rw_lock_writer_lock g_rw_lock_writer_unlock g_rw_lock_writer_trylock g_thread_new g_thread_try_new
g_thread_join g_thread_yield g_usleep g_thread_pool_new g_thread_pool_push
g_type_create_instance g_type_free_instance g_get_num_processors g_once_init_enter
g_once_init_leave g_once_init_enter_pointer g_once_init_leave_pointer mmap munmap
g_source_destroy g_source_unref g_source_ref g_source_is_destroyed g_source_set_ready_time g_source_attach
g_source_get_context g_main_context_wakeup g_main_context_unref g_main_context_ref g_object_unref g_object_ref
g_cancellable_cancel g_cancellable_disconnect g_signal_handler_disconnect g_error_free g_error_copy
g_value_unset g_value_copy g_free g_queue_unlink g_queue_push_tail_link g_queue_pop_tail_link
g_queue_pop_head_link g_queue_push_tail g_queue_pop_head g_ptr_array_unref g_ptr_array_add""".split()

# which variant each harness source is built in
HARNESS_VARIANTS = {}

class BuildError(Exception):
    pass

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def pkg(*a):
    return subprocess.check_output(["pkg-config", *a], text=True).split()

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()

def rd(p):
    with open(p, "rb") as f:
        return f.read()

def write_if_changed(p, s):
    if not os.path.exists(p) or rd(p) != s.encode():
        with open(p, "w") as f:
            f.write(s)

def compile_one(cmd, src, obj, key):
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and rd(stamp).decode() == key:
        return
    sh(cmd + ["-c", src, "-o", obj + ".tmp"])
    os.replace(obj + ".tmp", obj)
    write_if_changed(stamp, key)

def build(variant, harness):
    """returns path of the executable for harness source h_<harness>.c"""
    out = os.path.join(OUT, variant)
    os.makedirs(os.path.join(out, "inc"), exist_ok=True)
    os.makedirs(os.path.join(out, "obj"), exist_ok=True)
    with open(os.path.join(out, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant, harness, out)

def _build(variant, harness, out):
    src = os.path.join(REPO, "src")
    cfg = rd(os.path.join(HARN, "config", "config-full.h")).decode()
    if variant in ("S", "F"):
        cfg = cfg.replace("#define HAVE_LIBURING 1\n", "")
    if variant == "F":
        cfg = cfg.replace("#define HAVE_EVENTFD 1\n", "")
    inc = os.path.join(out, "inc")
    write_if_changed(os.path.join(inc, "config.h"), cfg)
    ver = re.search(r"version:\s*'(\d+)\.(\d+)\.(\d+)'", rd(os.path.join(REPO, "meson.build")).decode())
    ver = ver.groups() if ver else ("0", "9", "0")
    v = rd(os.path.join(src, "dex-version.h.in")).decode()
    for k, x in zip(("MAJOR_VERSION", "MINOR_VERSION", "MICRO_VERSION"), ver):
        v = v.replace("@%s@" % k, x)
    v = v.replace("@VERSION@", ".".join(ver))
    write_if_changed(os.path.join(inc, "dex-version.h"), v)
    lu = pkg("--modversion", "liburing")[0].split(".")
    u = rd(os.path.join(src, "dex-uring-version.h.in")).decode()
    u = u.replace("@DEX_URING_MAJOR_VERSION@", lu[0]).replace("@DEX_URING_MINOR_VERSION@", lu[1])
    write_if_changed(os.path.join(inc, "dex-uring-version.h"), u)

    glibc = pkg("--cflags", "gio-unix-2.0")
    base = [CC, "-std=gnu11", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address",
            "-mllvm", "-asan-stack=0", "-Wno-everything", "-I", inc, "-I", src] + glibc
    libflags = base + ["-fsanitize-coverage=trace-pc-guard,no-prune,trace-loads,trace-stores",
                       "-include", os.path.join(HARN, "vs_pre.h"), "-DDEX_COMPILATION", '-DG_LOG_DOMAIN="Dex"']
    if variant == "R":
        libflags = base + ["-fsanitize-coverage=trace-pc-guard", "-DDEX_COMPILATION", '-DG_LOG_DOMAIN="Dex"']
    hflags = base + ["-DDEX_COMPILATION", '-DG_LOG_DOMAIN="harness"', "-I", HARN, "-DVS_VARIANT_%s=1" % variant]
    headers = sorted(glob.glob(src + "/*.h")) + sorted(glob.glob(inc + "/*.h"))
    hkey = digest(*[x for h in headers for x in (os.path.basename(h), rd(h))])
    vkey = digest(*[rd(os.path.join(HARN, x)) for x in sorted(os.listdir(HARN)) if x.endswith(".h")])
    jobs, objs = [], []
    for c in sorted(glob.glob(src + "/*.c")):
        b = os.path.basename(c)
        if variant != "R" and b.startswith("dex-uring"):
            continue
        o = os.path.join(out, "obj", b[:-2] + ".o")
        objs.append(o)
        jobs.append((libflags, c, o, digest(" ".join(libflags), hkey, rd(c), rd(os.path.join(HARN, "vs_pre.h")))))
    for name in ("vs", "h_" + harness):
        c = os.path.join(HARN, name + ".c"); o = os.path.join(out, "obj", "H_" + name + ".o")
        objs.append(o)
        jobs.append((hflags, c, o, digest(" ".join(hflags), hkey, vkey, rd(c))))
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(compile_one, *j) for j in jobs]:
            f.result()
    exe = os.path.join(out, "x_" + harness)
    lk = digest(*[rd(o + ".key") for o in objs], " ".join(objs), *WRAP)
    if not (os.path.exists(exe) and os.path.exists(exe + ".key") and rd(exe + ".key").decode() == lk):
        libs = pkg("--libs", "gio-unix-2.0") + (["-luring"] if variant == "R" else []) + ["-latomic", "-lpthread", "-lm"]
        sh([CC, "-fsanitize=address", "-fno-omit-frame-pointer", "-rdynamic"] + objs +
           ["-Wl,--wrap=" + w for w in WRAP] + libs + ["-o", exe + ".tmp"])
        os.replace(exe + ".tmp", exe)
        write_if_changed(exe + ".key", lk)
    return exe

if __name__ == "__main__":
    try:
        if sys.argv[1] == "all":
            sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
            from plan import PLAN
            for v, h in sorted({(x["variant"], x["src"]) for ps in PLAN.values() for x in ps}):
                print(build(v, h))
        else:
            print(build(sys.argv[1], sys.argv[2]))
    except BuildError as e:
        print(e); sys.exit(1)
