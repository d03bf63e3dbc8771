"""Workloads per property."""

CHECKS = {}


def w(*args, n=1, timeout=240, bin="ajmon", env=None):
    return dict(args=[str(a) for a in args], n=n, timeout=timeout, bin=bin, env=env or {})


MODEL_RULE = ("one evaluation = one random client history (submissions, resubmissions, cancels, updates, manual retries, "
              "run outcomes, clock steps to 1 us around due times) driven against the real engine, with runs, call results and "
              "get_job compared with a reference model after every step; distinct = different sequences of operations")


def model(pid, profile, quick=(16, 5), thorough=(64, 30), pre_q=(), extra_q=(), extra_t=(), **kw):
    CHECKS[pid] = dict(
        quick=list(pre_q) + [w("model", "--profile", profile, "--scale", quick[1], n=quick[0])] + list(extra_q),
        thorough=[w("model", "--profile", profile, "--scale", thorough[1], n=thorough[0], timeout=900),
                  w("model", "--profile", profile, "--scale", 3, "--backend", "redis", n=8, timeout=900)] + list(extra_t),
        rule=kw.pop("rule", MODEL_RULE), min_distinct=10, **kw)


model("C05", "sched", pre_q=[w("tick", n=4)], extra_t=[w("tick", n=60)])
model("C06", "cron", extra_q=[w("longcron", "--scale", 2, n=4)], extra_t=[w("longcron", "--scale", 3, n=12, timeout=900)])
model("C07", "retry", extra_q=[w("counts", "--scale", 2, n=8)], extra_t=[w("counts", "--scale", 10, n=32, timeout=900), w("counts", "--scale", 2, "--backend", "redis", n=6, timeout=900)])

ASSUME_CLOCK = "the wall clock is the process's CLOCK_REALTIME, which the harness freezes and steps; engine ticks use the real monotonic clock"
ASSUME_STALL = "an effect is called missing only after 8 s of scheduled time with the queue answering hundreds of messages meanwhile"


def reg(pid, quick, thorough, rule, **kw):
    CHECKS[pid] = dict(quick=quick, thorough=thorough, rule=rule, **kw)


reg("C01",
    [w("burst", "--scale", 3, n=14), w("model", "--only", "ran", "--scale", 4, n=4), w("flood", "--scale", 3, n=2), w("backlog", "--scale", 2, n=6)],
    [w("burst", "--scale", 10, n=80, timeout=600), w("model", "--only", "ran", "--scale", 20, n=24, timeout=900), w("flood", "--scale", 10, n=40, timeout=600), w("backlog", "--scale", 6, n=30, timeout=600),
     w("burst", "--scale", 2, "--backend", "redis", n=8, timeout=600)],
    "one evaluation = one submitted job followed to its completion; distinct = different interleavings of run starts and ends",
    assumptions=[ASSUME_STALL], min_distinct=5)
reg("C02",
    [w("once", "--scale", 3, n=12), w("dups", "--scale", 3, n=8), w("model", "--only", "once", "--scale", 4, n=4), w("model", "--profile", "resubmit", "--only", "once", "--scale", 4, n=4)],
    [w("once", "--scale", 10, n=60, timeout=600), w("model", "--only", "once", "--scale", 20, n=24, timeout=900), w("model", "--profile", "resubmit", "--only", "once", "--scale", 20, n=24, timeout=900), w("dups", "--scale", 10, n=40, timeout=600),
     w("once", "--scale", 2, "--backend", "redis", n=6, timeout=600)],
    "one evaluation = one accepted submission whose number of runs and overlaps was counted from the recorded events; distinct = different interleavings",
    min_distinct=5)
reg("C03",
    [w("cap", "--scale", 3, n=12), w("storm", "--scale", 3, n=8)],
    [w("cap", "--scale", 12, n=60, timeout=600), w("storm", "--scale", 10, n=40, timeout=600), w("cap", "--scale", 2, "--backend", "redis", n=6, timeout=600)],
    "one evaluation = one step of a random walk of limits, loads and completions (or one storm) with the number of runs in progress tracked at every event; distinct = different walks / interleavings",
    min_distinct=5)
reg("C04",
    [w("fifo", "--scale", 3, n=10), w("starve", "--scale", 2, n=10)],
    [w("fifo", "--scale", 12, n=48, timeout=600), w("starve", "--scale", 8, n=40, timeout=600), w("fifo", "--scale", 2, "--backend", "redis", n=6, timeout=600)],
    "one evaluation = one queue drained in order (start order against submission order) or one late job followed under load; distinct = different workloads",
    min_distinct=4)
model("C08", "retry", quick=(10, 4), extra_q=[w("backoff", "--scale", 4, n=8)], extra_t=[w("backoff", "--scale", 20, n=32, timeout=900)],
      assumptions=[ASSUME_CLOCK])
model("C09", "cancel", quick=(12, 4), extra_q=[w("rcancel", "--scale", 3, n=10)],
      extra_t=[w("rcancel", "--scale", 12, n=60, timeout=900), w("rcancel", "--scale", 2, "--backend", "redis", n=6, timeout=900)])
model("C10", "update", quick=(12, 4), extra_q=[w("rupdate", "--scale", 3, n=10)],
      extra_t=[w("rupdate", "--scale", 12, n=60, timeout=900), w("rupdate", "--scale", 2, "--backend", "redis", n=6, timeout=900)])
model("C11", "resubmit")
model("C12", "manual", quick=(12, 4), extra_q=[w("rretry", "--scale", 3, n=10)],
      extra_t=[w("rretry", "--scale", 12, n=60, timeout=900), w("rretry", "--scale", 2, "--backend", "redis", n=6, timeout=900)])
model("C13", "life", quick=(12, 4), extra_q=[w("truth", "--scale", 3, n=10)],
      extra_t=[w("truth", "--scale", 12, n=60, timeout=900), w("truth", "--scale", 2, "--backend", "redis", n=6, timeout=900)])
reg("C14",
    [w("plugpre", n=4), w("plug", "--scale", 3, n=18)],
    [w("plugpre", n=60), w("plugpre", "--backend", "redis", n=20), w("plug", "--scale", 12, n=90, timeout=600), w("plug", "--scale", 2, "--backend", "redis", n=6, timeout=600)],
    "one evaluation = one job whose plugin and job callbacks were checked against the order automaton; distinct = different interleavings of callbacks",
    min_distinct=5)
reg("C15",
    [w("fid", "--scale", 3, n=8), w("fid", "--scale", 2, "--backend", "redis", n=4)],
    [w("fid", "--scale", 20, n=40, timeout=900), w("fid", "--scale", 8, "--backend", "redis", n=16, timeout=900)],
    "one evaluation = one payload, context or unserialisable job sent through the engine and compared with what job code and get_job saw; distinct = different values",
    min_distinct=10)
reg("C16",
    [w("lin", "--scale", 3, n=16)],
    [w("lin", "--scale", 30, n=64, timeout=900)],
    "one evaluation = one concurrent history of backend calls decided by a linearizability checker (or one counting storm); distinct = different histories; the same workloads run again under ThreadSanitizer",
    tsan=dict(quick=[w("lin", "--scale", 1, n=6)],
              thorough=[w("lin", "--scale", 6, n=16), w("burst", n=6), w("rcancel", n=6), w("plug", n=6), w("startup", n=12), w("truth", n=4)]),
    min_distinct=10)
reg("C17",
    [w("rdiff", "--scale", 4, n=12)],
    [w("rdiff", "--scale", 40, n=64, timeout=900)],
    "one evaluation = one backend call compared (result and server contents) with the reference, without or with a fault; distinct = different calls with their results",
    assumptions=["the server is this harness's RESP server, with Redis' documented semantics for the list and hash commands"], min_distinct=50)
reg("C18",
    [w("iso", "--scale", 3, "--known", 1, n=12), w("names", n=6)],
    [w("iso", "--scale", 12, "--known", 1, n=60, timeout=600), w("iso", "--scale", 2, "--known", 1, "--backend", "redis", n=6, timeout=600),
     w("names", n=150), w("names", "--backend", "redis", n=30)],
    "one evaluation = one load on one type with the other types observed, or one batch of calls across types; distinct = different loads",
    min_distinct=4)
reg("C19",
    [w("fault", "--scale", 3, n=24)],
    [w("fault", "--scale", 20, n=120, timeout=900)],
    "one evaluation = one job that lived through failing backend calls, its runs, data and state compared with what the calls reported; distinct = different sequences of calls, outcomes and failing operations",
    assumptions=["failing calls have no effect; no run completes while calls fail"], level="fault_enumeration", min_distinct=20)
reg("C20",
    [w("crash", "--slice", i, "--of", 8, "--script", f"@{k}", timeout=400) for k in range(4) for i in range(8)] + [w("mass", n=24)],
    [w("crash", "--slice", i, "--of", 4, "--script", f"@{k}", timeout=900) for k in range(40) for i in range(4)]
    + [w("crash", "--slice", i, "--of", 4, "--script", f"@{100 + k}", "--twice", 1, timeout=900) for k in range(20) for i in range(4)]
    + [w("mass", n=300)],
    "one evaluation = one job judged after a SIGKILL placed after the n-th write command of a scripted workload (or with a full queue and a backlog) and a restart on the surviving data; distinct = (script, crash point)",
    assumptions=["the backend keeps every write it answered (this harness's RESP server outlives the killed process)"],
    level="fault_enumeration", min_distinct=50)
reg("C21",
    [w("startup", n=60)],
    [w("startup", n=800)],
    "one evaluation = one process in which threads race to start, look up and use the engine; distinct = different race shapes",
    min_distinct=5)
reg("C22",
    [w("panics", "--scale", 3, n=12)],
    [w("panics", "--scale", 12, n=60, timeout=600), w("panics", "--scale", 2, "--backend", "redis", n=6, timeout=600)],
    "one evaluation = one panicking run with its neighbours followed to the end; distinct = different positions and states",
    min_distinct=5)
reg("C23",
    [w("--scale", 6, n=10, bin="macrocheck"), w("--twins", 1, bin="macrocheck")],
    [w("--scale", 40, n=60, bin="macrocheck", timeout=600), w("--twins", 1, bin="macrocheck")],
    "one evaluation = one submission through generated functions, the arguments recorded by the body compared with those given; distinct = different (function, arguments)",
    macro=True, min_distinct=50)
reg("C24",
    [w("nest", "--scale", 3, n=14)],
    [w("nest", "--scale", 12, n=70, timeout=600), w("nest", "--scale", 2, "--backend", "redis", n=6, timeout=600)],
    "one evaluation = one job making calls into the engine from its own run; distinct = different nestings and interleavings",
    min_distinct=5)
CHECKS["C25"] = dict(
    quick=[w("model", "--profile", p, "--scale", 2, "--backend", "redis", n=3) for p in ("life", "cancel", "update", "resubmit", "cron", "retry")]
    + [w("model", "--profile", "life", "--scale", 3, n=4)]
    + [w(x, "--scale", 2, "--backend", "redis", n=2) for x in ("fifo", "burst", "cap", "plug", "rcancel")],
    thorough=[w("model", "--profile", p, "--scale", 12, "--backend", "redis", n=10, timeout=900) for p in ("life", "cancel", "update", "resubmit", "manual", "cron", "retry", "sched")]
    + [w("model", "--profile", "life", "--scale", 12, n=16, timeout=900)]
    + [w(x, "--scale", 6, "--backend", "redis", n=12, timeout=900) for x in ("fifo", "burst", "once", "dups", "cap", "storm", "plug", "rcancel", "rupdate", "rretry", "truth", "panics", "nest")],
    rule=MODEL_RULE, min_distinct=10)

# the quick tier runs each workload in many processes with different seeds
for _p, _m in dict(C01=8, C02=12, C03=8, C04=8, C05=4, C06=4, C07=4, C08=5, C09=6, C10=6, C11=4, C12=6, C13=6, C14=10,
                   C15=6, C16=2, C17=8, C18=8, C19=6, C21=8, C22=12, C23=4, C24=10, C25=3).items():
    for _w in CHECKS[_p]["quick"]:
        _w["n"] = _w.get("n", 1) * _m

# engines that have been up for a while before they are used, once per way of starting
for _p, _s in (("C14", "plug"), ("C21", "startup")):
    CHECKS[_p]["quick"].append(w(_s, "--age", 8, n=3))
    CHECKS[_p]["thorough"].append(w(_s, "--age", 45, n=9, timeout=400))

# jobs made without an id, in several processes
for _p in ("C01", "C15"):
    CHECKS[_p]["quick"].append(w("ids", n=1))
    CHECKS[_p]["thorough"].append(w("ids", n=8))
CHECKS["C13"]["quick"].append(w("counts", "--scale", 2, n=4))
CHECKS["C13"]["thorough"].append(w("counts", "--scale", 10, n=16, timeout=900))

# a backend that fails while a queue takes up the jobs of a killed process
for _p in ("C19", "C20"):
    CHECKS[_p]["quick"].append(w("mass", "--err", 1, n=16))
    CHECKS[_p]["thorough"].append(w("mass", "--err", 1, n=160))

# a ready job behind more jobs that are not due than 15 (16) bits count
CHECKS["C04"]["quick"].append(w("bulk", n=1, timeout=400))
CHECKS["C04"]["thorough"].append(w("bulk", "--jobs", 70000, n=2, timeout=1200))
