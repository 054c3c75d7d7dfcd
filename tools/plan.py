"""Which harnesses decide which property, with case counts per tier."""

ASSUMPTIONS = [
 "x86-64 Linux, GLib 2.80; other platforms' back ends (kqueue, eventfd-less unless stated, Windows fibers) are not built here",
 "S/F variants: one thread runs at a time, switching only at interposed GLib primitives, atomics, memory accesses and basic blocks of libdex: weak-memory effects of non-atomic code are not modelled",
 "exploration: the property held on the generated cases; nothing is claimed about cases not generated",
]

def part(src, name, quick, thorough, variant="S", **kw):
    return dict(src=src, name=name, quick=quick, thorough=thorough, variant=variant, **kw)

T = 25      # thorough = T times the quick case count unless given

def p(src, name, quick, variant="S", t=T, **kw):
    return part(src, name, quick, quick * t, variant, **kw)

PLAN = {
 "A01": [p("aio", "aio", 16000), p("aio", "aio-real", 3000, "R")],
 "C01": [p("core", "promise-races", 240000), p("mix", "mixed-threads", 24000)],
 "C02": [p("graph", "graph-threads", 240000), p("graph", "graph-callbacks", 48000), p("mix", "mixed-threads", 24000), p("fiber", "fiber-threads", 16000)],
 "C03": [p("core", "typed", 96000), p("obj", "object-values", 24000)],
 "B01": [p("graph", "graph-callbacks", 160000), p("mix", "mixed", 24000), p("wide", "wide-awaiters", 1600)],
 "B02": [p("graph", "graph-destroy", 128000), p("graph", "graph-threads-drop", 64000), p("mix", "mixed", 24000), p("mix", "mixed-threads", 16000), p("fiber", "fiber-cancel", 32000), p("sched", "pool-shutdown", 8000), p("core", "affinity", 4000), p("core", "null-data", 24000)],
 "B03": [p("core", "affinity", 24000), p("fiber", "fiber-threads", 8000)],
 "B04": [p("core", "long", 20000)],
 "S01": [p("graph", "graph-sets", 160000), p("graph", "sets-wide", 12000), p("graph", "graph-threads", 64000), p("mix", "mixed", 16000)],
 "S02": [p("graph", "graph-cancel", 160000), p("graph", "sets-wide", 8000), p("mix", "mixed-cancel", 64000), p("async", "async-pair", 24000), p("fiber", "fiber-cancel", 16000), p("wide", "wide-awaiters", 1600)],
 "D01": [p("core", "delayed", 160000), p("mix", "mixed-cancel", 32000)],
 "D02": [p("graph", "graph-destroy", 96000), p("graph", "graph-threads-drop", 64000), p("mix", "mixed", 48000), p("mix", "mixed-threads", 24000)],
 "G01": [p("gio", "gio-calls", 60000), p("gior", "gio-real", 3000, "R")],
 "G02": [p("async", "async-pair", 96000), p("async", "async-pair-threads", 64000)],
 "G03": [p("async", "async-result", 120000)],
 "B05": [p("mix", "mixed", 160000), p("mix", "mixed-threads", 64000)],
 "H01": [p("chan", "channel-order", 160000), p("wide", "wide-channel", 2400)],
 "H02": [p("chan", "channel-close", 160000), p("wide", "wide-channel", 800)],
 "H03": [p("chan", "channel-threads", 120000)],
 "H04": [p("chan", "channel-drain", 160000)],
 "K01": [p("sched", "push", 40000), p("wide", "wide-push", 2400)],
 "K02": [p("wsq", "steal", 240000)],
 "K03": [p("sched", "pool-shutdown", 48000), p("sched", "pool-heap", 6000)],
 "K05": [p("sem", "semaphore", 64000), p("sem", "semaphore", 32000, "F"), p("sem", "semaphore-real", 8000, "R"), p("wide", "wide-semaphore", 2400)],
 "L01": [p("obj", "references", 160000), p("obj", "object-values", 32000), p("wide", "wide-references", 3200)],
 "L02": [p("obj", "weak-references", 160000), p("wide", "wide-references", 3200)],
 "L03": [p("graph", "graph-heap", 48000), p("graph", "graph-threads-drop", 96000), p("chan", "channel-heap", 40000), p("fiber", "fiber-heap", 32000), p("mix", "mixed-heap", 32000), p("mix", "mixed-cancel", 24000), p("async", "async-pair", 16000), p("async", "async-pair-threads", 16000), p("async", "async-result", 16000), p("time", "timers", 8000), p("time", "timers-threads", 16000), p("time", "cancellables", 12000), p("time", "signals", 2000), p("sem", "semaphore", 8000), p("sched", "pool-heap", 1600), p("gio", "gio-calls", 8000)],
 "T01": [p("time", "timers", 48000), p("time", "timers-threads", 120000), p("mix", "mixed", 16000), p("wide", "wide-timers", 1600)],
 "T03": [p("time", "cancellables", 64000), p("mix", "mixed", 16000)],
 "T04": [p("time", "signals", 12000)],
 "X01": [p("fiber", "fiber-programs", 160000), p("fiber", "fiber-threads", 16000), p("wide", "wide-fibers", 1600)],
 "X02": [p("fiber", "fiber-threads", 64000), p("sched", "push", 6000)],
 "X03": [p("fiber", "fiber-cancel", 120000), p("fiber", "fiber-cancel-threads", 120000), p("mix", "mixed-cancel", 24000)],
 "X04": [p("fiber", "stacks", 16000)],
 "X05": [p("fair", "fairness", 96000)],
}
TECHNIQUE = {}
NOTE = {}
NOT_APPLICABLE = {}
