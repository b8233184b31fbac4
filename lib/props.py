"""One function per property: which specifications are checked and how they are bound."""
import json

PROPS = {}
HOOK_COMMITS = ["078e87b", "cde0454", "8a55062", "c5d81f6", "623b57e"]
TECH_REPLAY = "TLA+ specification checked with TLC; every behaviour it generates is replayed into the real code"
NOTE_REPLAY = ("TLC checks the specification's invariants exhaustively within the stated bounds and the code is compared "
               "with it after every step of every generated behaviour (all transitions of the bounded state graph, plus "
               "long random walks). Assumes the bounds are representative and trusts TLC, the harness and rustc.")
TECH_TRACE = "TLA+ specification checked with TLC; traces recorded from the real code under generated schedules validated against it by TLC"
NOT_APPLICABLE = {}
NOTE_TRACE = ("TLC checks the design-level specification exhaustively on small programs; its random walks and random programs are "
              "run on the real threads under a cooperative scheduler (schedule points inside the code, cfg otel_verif), and TLC "
              "decides for every recorded run whether it is a behaviour of the boundary specification. Schedules are sampled, not "
              "exhausted, on the code; timeouts of several seconds are not exercised.")
META = {i: {"technique": TECH_TRACE, "note": NOTE_TRACE} for i in ["T01", "T02", "L01", "L02", "A01", "S01", "M01", "M11"]}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


@prop("X01")
def x01(c):
    c.build()
    for cfg in ["quick", "deep", "over"] + (["deeper", "wide"] if c.thorough else []):
        c.replay("ctxstack", c.generate("ContextStack", f"ContextStack_{cfg}.cfg"))
    c.replay("ctxstack", c.generate("ContextStack", "ContextStack_sim.cfg",
                                    sim=(3000 if c.thorough else 300, 300)))


def context_values(c):
    for cfg in ["quick", "deep"]:
        c.replay("ctxval", c.generate("ContextValues", f"ContextValues_{cfg}.cfg"))
    c.replay("ctxval", c.generate("ContextValues", "ContextValues_sim.cfg",
                                  sim=(20000 if c.thorough else 1000, 60)))


@prop("X02")
def x02(c):
    c.build()
    context_values(c)


@prop("X03")
def x03(c):
    c.build()
    for cfg in ["quick", "kinds"]:
        c.replay("futures", c.generate("Futures", f"Futures_{cfg}.cfg"))
    c.replay("futures", c.generate("Futures", "Futures_sim.cfg",
                                   sim=(5000 if c.thorough else 500, 300)))


@prop("P01")
def p01(c):
    c.build()
    c.replay("prop", c.generate("W3C", "W3C_quick.cfg"))
    if c.thorough:
        c.replay("prop", c.generate("W3C", "W3C_deep.cfg"))


@prop("P02")
def p02(c):
    c.build()
    c.replay("prop", c.generate("TraceStateGrammar", "TraceStateGrammar_quick.cfg"))
    c.replay("prop", c.generate("TraceStateEdits", "TraceStateEdits_quick.cfg"))
    c.replay("prop", c.generate("TraceStateEdits", "TraceStateEdits_sim.cfg",
                                sim=(5000 if c.thorough else 150, 130)))


@prop("P03")
def p03(c):
    c.build()
    for cfg in ["pairs", "bytes", "big"]:
        c.replay("prop", c.generate("BaggageStore", f"BaggageStore_{cfg}.cfg"))
    c.replay("prop", c.generate("BaggageStore", "BaggageStore_sim.cfg",
                                sim=(5000 if c.thorough else 150, 300)))
    c.replay("prop", c.generate("BaggageNames", "BaggageNames_quick.cfg"))
    context_values(c)


@prop("P04")
def p04(c):
    c.build()
    c.replay("prop", c.generate("BaggageWire", f"BaggageWire_{'deep' if c.thorough else 'quick'}.cfg"))


@prop("P05")
def p05(c):
    c.build()
    c.replay("prop", c.generate("JaegerB3", "JaegerB3_quick.cfg"))


@prop("P06")
def p06(c):
    c.build()
    c.replay("prop", c.generate("Composite", f"Composite_{'deep' if c.thorough else 'quick'}.cfg"))


def span_life(c):
    for cfg in ["quick", "two", "zero"] + (["deep"] if c.thorough else []):
        c.replay("span", c.generate("SpanLife", f"SpanLife_{cfg}.cfg", limit=None if c.thorough else 12000))
    for cfg in ["sim", "sim2"]:
        c.replay("span", c.generate("SpanLife", f"SpanLife_{cfg}.cfg", sim=(1000 if c.thorough else 100, 200)))


@prop("T03")
def t03(c):
    c.build()
    span_life(c)


@prop("T06")
def t06(c):
    c.build()
    span_life(c)


def span_tree(c):
    c.replay("tree", c.generate("SpanTree", f"SpanTree_{'deep' if c.thorough else 'quick'}.cfg"))
    c.replay("tree", c.generate("SpanTree", "SpanTree_sim.cfg", sim=(2000 if c.thorough else 200, 130)))


@prop("T04")
def t04(c):
    c.build()
    span_tree(c)
    # the ids handed out by two processes
    ts = [c.record("ids", {"k": 2000 if c.thorough else 300}, tag=str(i)) for i in range(2)]
    c.validate("IdSource", "IdSource.cfg", [sum((t[0] for t in ts if t), [])])


@prop("T05")
def t05(c):
    c.build()
    span_tree(c)
    # the decisions of two processes about the same trace ids
    ts = [c.record("ratio", {"ids": 2000 if c.thorough else 200}, tag=str(i)) for i in range(2)]
    if all(ts):
        c.validate("RatioSampler", "RatioSampler.cfg", [a + b for a, b in zip(*ts)])


@prop("L03")
def l03(c):
    c.build()
    for cfg in ["quick", "mods"] + (["deep"] if c.thorough else []):
        c.replay("logrec", c.generate("LogRecords", f"LogRecords_{cfg}.cfg", limit=None if c.thorough else 8000))
    c.replay("logrec", c.generate("LogRecords", "LogRecords_sim.cfg", sim=(3000 if c.thorough else 200, 310)))


def metrics(c, groups, sims=()):
    """Metrics.tla: groups of setups explored exhaustively, and random walks over mixed setups."""
    for g in groups:
        c.replay("metrics", c.generate("Metrics", f"Metrics_{g}_{'deep' if c.thorough else 'quick'}.cfg", timeout=800, heap="8g"))
    for sm, num in sims:
        c.replay("metrics", c.generate("Metrics", f"Metrics_sim_{sm}.cfg", sim=(num * (20 if c.thorough else 1), 300), heap="8g"))


LOW = {"cum": {k: "cum" for k in "cuhge"}, "delta": {"c": "delta", "u": "cum", "h": "delta", "g": "delta", "e": "delta"},
       "low": {"c": "delta", "u": "cum", "h": "delta", "g": "cum", "e": "delta"}}


def meter_runs(c, kinds, n, share_walks=.3, fresh=.35):
    """Programs and schedules for threads that record and collect: walks of ValueMap.tla, and
    random ones (a part of them without any scheduler)."""
    import random
    r = random.Random(c.seed + 11)

    def reader(p):
        return {"pref": p, "temp": LOW[p], "reuse": r.random() < .5}
    out = []
    walks = []
    per = int(n * share_walks) // 3
    for lim in (1, 2, 3):
        walks += c.generate("ValueMap", f"ValueMap_sim{lim}.cfg", sim=(per, 300), limit=per)
    names = {"e": "", "x": "a1", "y": "a1;b1", "z": "b2;a2"}
    for w in walks:
        w = json.loads(w)[0]
        kind = r.choice(kinds)
        out.append({"insts": [{"kind": kind, "limit": w["limit"]}],
                    "readers": [reader(r.choice(["delta", "delta", "cum"]))],
                    "prog": {t: [["col", 0] if o == "collect" else ["rec", 0, names[o]] for o in ops] for t, ops in w["prog"].items()},
                    "sched": w["sched"], "seed": r.randrange(1 << 40), "fresh": r.random() < .3})
    sets = ["", "a1", "a2", "a1;b1", "b1", "a1f", "b2;a2", "a1s"]
    while len(out) < n:
        ks = [r.choice(kinds) for _ in range(r.choice([1, 1, 2]))]
        rs = [reader(r.choice(["delta", "delta", "cum", "low"])) for _ in range(r.choice([1, 1, 2]))]
        free = r.random() < .2
        pool = sets[: r.choice([1, 2, 3, 5, 8])]
        prog = {}
        nt = r.randint(2, 4)
        big = 10 if free else 5
        for t in range(nt):
            ops = [["rec", r.randrange(len(ks)), r.choice(pool)] for _ in range(r.randint(1, big))]
            prog[f"t{t}"] = ops
        for k in range(len(rs)):   # one thread collects for each reader
            ops = prog[f"t{k}"]
            for _ in range(r.randint(1, 3)):
                ops.insert(r.randint(0, len(ops)), ["col", k])
        out.append({"insts": [{"kind": k, "limit": r.choice([0, 0, 1, 2, 3])} for k in ks], "readers": rs, "prog": prog,
                    "seed": r.randrange(1 << 40), "fresh": r.random() < fresh, "free": free})
    return out


def value_map_models(c):
    for cfg in ["quick", "two"] + (["large", "large2"] if c.thorough else []):
        c.model_check("ValueMap", f"ValueMap_{cfg}.cfg")
    for cfg, inv in [("norecheck", "Conserved"), ("nocas", "Conserved"), ("nohold", "Conserved"),
                     ("apart", "NothingEmpty"), ("stale", "Capped")]:
        c.model_check("ValueMap", f"ValueMap_{cfg}.cfg", expect_violation=f"Invariant {inv} is violated")


def meter_races(c, kinds, n, judge, **kw):
    sc = meter_runs(c, kinds, n * (8 if c.thorough else 1), **kw)
    c.validate("MeterTrace", f"MeterTrace_{judge}.cfg", c.record_sharded("meter", sc), timeout=800)


@prop("M01")
def m01(c):
    c.build()
    value_map_models(c)
    meter_races(c, ["cu", "cf", "ui", "uf"], 2000, "sums")
    metrics(c, [], [("mix", 150), ("mix2", 50)])


@prop("M02")
def m02(c):
    c.build()
    metrics(c, ["sets"], [("mix", 150)])


@prop("M03")
def m03(c):
    c.build()
    meter_races(c, ["cu", "cf", "ui", "hu", "ef", "gi"], 900, "all")
    metrics(c, ["limit"], [("mix2", 150)])


@prop("M04")
def m04(c):
    c.build()
    meter_races(c, ["hu", "hf"], 900, "sums")
    metrics(c, ["hist", "histv"], [("mix", 100)])


@prop("M06")
def m06(c):
    c.build()
    meter_races(c, ["gu", "gi", "gf"], 1500, "gauges")
    metrics(c, ["gauges"], [("mix", 100)])


@prop("M07")
def m07(c):
    c.build()
    metrics(c, ["obs"], [("mix", 150)])


@prop("M08")
def m08(c):
    c.build()
    metrics(c, ["windows", "ident"], [("mix", 100), ("all", 300)])


@prop("M09")
def m09(c):
    c.build()
    meter_races(c, ["cu", "uf", "hf", "gu"], 700, "all", share_walks=0, fresh=1)
    metrics(c, ["views", "ident"], [("mix", 100), ("mix2", 100)])


@prop("M10")
def m10(c):
    c.build()
    metrics(c, ["kinds"], [("mix", 150), ("mix2", 100)])


def periodic_runs(c, n, kinds):
    import random
    r = random.Random(c.seed + 23)
    out = []
    for i in range(n):
        k = kinds[i % len(kinds)]
        s = {"kind": k, "temp": r.choice(["delta", "delta", "cum", "low"]), "seed": r.randrange(1 << 40)}
        if r.random() < .3:
            s["fail"] = r.choice([1, 2, 3])
        s["fail_down"] = r.random() < .1
        prog = {}
        timer = r.random() < .12
        single = r.random() < .4
        ticks = r.random() < .5
        for t in ["p1", "p2", "p3", "c1"][: r.randint(1, 4)]:
            ops = []
            for _ in range(r.randint(1, 6)):
                o = r.choices(["rec", "flush", "shutdown"], [7, 3, .5])[0]
                ops.append("rec" if o != "rec" and single and t != "p1" else o)
                if k == "async" and r.random() < .25:
                    ops.append(r.choice(["tick", "tick", "release"] if ticks else ["xtimeout", "release"]))
            prog[t] = ops
        if k == "async" and r.random() < .4:
            s["pend"] = r.choice([1, 2, 3])
            prog["z"] = ["release", "xtimeout", "tick" if ticks else "release", "release"] * 4 if r.random() < .6 else ["xtimeout", "release", "xtimeout"] * 4
        s["prog"] = prog
        s["tail"] = r.choice([["rec", "shutdown", "rec", "flush", "shutdown"], ["rec", "flush", "rec", "shutdown", "flush"],
                              ["rec", "flush", "rec", "drop", "rec"], ["drop", "rec"]])
        if timer:
            s["delay_ms"] = 3 if k != "async" else 0
            s["tail"] = ["settle", "rec", "rec", "settle", "flush", "rec", "settle"] + s["tail"]
        out.append(s)
    return out


@prop("M11")
def m11(c):
    c.build()
    sc = periodic_runs(c, 4000 * (6 if c.thorough else 1), ["thread", "thread", "async", "async", "atokio", "atcur"])
    c.validate("PeriodicTrace", "PeriodicTrace.cfg", c.record_sharded("periodic", sc), timeout=800)


@prop("M12")
def m12(c):
    c.build()
    c.replay("providers", c.generate("Providers", "Providers_meter.cfg"))
    c.replay("providers", c.generate("Providers", "Providers_msim.cfg", sim=(4000 if c.thorough else 300, 220)))
    c.validate("ProviderRace", "ProviderRace.cfg",
               c.record("provrace", {"rounds": 400000 if c.thorough else 60000, "kinds": ["meter"]}))
    metrics(c, ["bad", "ident"], [("all", 300)])


@prop("M05")
def m05(c):
    c.build()
    meter_races(c, ["eu", "ef"], 700, "sums")
    c.replay("expo", c.generate("ExpoHistogram", f"ExpoHistogram_{'deep' if c.thorough else 'quick'}.cfg", heap="8g", timeout=850))
    c.replay("expo", c.generate("ExpoHistogram", "ExpoHistogram_sim.cfg", sim=(10000 if c.thorough else 500, 150)))


# ---------------------------------------------------------------- processors under schedules
def walks(c, n, kinds):
    """Programs and schedules from random walks of the design-level specification."""
    out = []
    for cfg in ["BatchWorker_sim.cfg", "BatchWorker_sim11.cfg", "BatchWorker_sim32.cfg", "BatchWorker_sim31.cfg"]:
        for i, b in enumerate(c.generate("BatchWorker", cfg, sim=(n, 400), limit=n)):
            s = json.loads(b)[0]
            s.update(kind=kinds[i % len(kinds)], seed=c.seed * 100000 + i)
            if i % 5 == 4:
                s["fail"] = 2
            out.append(s)
    return out


def random_runs(c, n, kinds, asy=False, timer_every=8):
    import random
    r = random.Random(c.seed)
    out = []
    for i in range(n):
        s = {"kind": kinds[i % len(kinds)], "seed": r.randrange(1 << 40)}
        s["cap"] = r.choice([1, 2, 2, 3, 4, 6])
        s["batch"] = r.randint(1, s["cap"])
        if r.random() < .25:
            s["fail"] = r.choice([1, 2, 3])
        prog = {}
        timer = i % timer_every == timer_every - 1 and not asy
        heavy = r.random() < .2
        for t in ["p1", "p2", "p3", "c1"][: r.randint(1, 4)]:
            ops = []
            for _ in range(r.randint(6, 14) if heavy else r.randint(1, 5)):
                ops.append(r.choices(["emit", "flush", "shutdown"], [8, 2, .4])[0])
                if "span" in s["kind"] and s["kind"] != "span" and r.random() < .1:
                    ops.append("unsampled")
                if asy and r.random() < .25:
                    ops.append(r.choice(["tick", "tick", "release", "xtimeout"]))
            if t == "c1" and r.random() < .6:
                ops.append(r.choice(["flush", "shutdown"]))
            prog[t] = ops
        if asy:
            if r.random() < .4:
                s["pend"] = r.choice([1, 2, 3])
                prog["z"] = ["release", "xtimeout", "tick", "release"] * 6
            s["conc"] = r.choice([1, 1, 2, 3])
        if timer:
            s.update(cap=64, delay_ms=3, batch=r.choice([1, 2, 5, 64]))
            s["prog"] = {t: ["emit"] * r.randint(1, 4) for t in ["p1", "p2"]}
            s["tail"] = ["settle", "emit", "settle", "emit", "emit", "settle", "shutdown", "emit", "flush", "shutdown"]
        else:
            s["prog"] = prog
        if r.random() < .2:
            s["tail"] = ["emit", "flush", "emit", "shutdown", "shutdown", "emit", "flush"]
        out.append(s)
    return out


def full_batches(c, n, kinds):
    """Runs that drop nothing, and then watch whether full batches leave without the timer."""
    import random
    r = random.Random(c.seed + 7)
    out = []
    for i in range(n):
        s = {"kind": kinds[i % len(kinds)], "seed": r.randrange(1 << 40), "cap": 64, "batch": r.choice([1, 2, 2, 3, 4, 5])}
        if r.random() < .3:
            s["fail"] = r.choice([1, 2, 3])
        s["prog"] = {t: [r.choices(["emit", "flush"], [7, 1])[0] for _ in range(r.randint(1, 9))]
                     for t in ["p1", "p2", "p3"][: r.randint(1, 3)]}
        s["tail"] = ["idle", "emit", "emit", "idle", "emit", "idle", "emit", "emit", "emit", "idle", "shutdown", "emit"]
        if s["kind"] in ("aspan", "alog"):   # the harness holds the timer of these
            s["timer"] = True
            s["tail"][-3:-3] = ["tick", "settle", "emit", "tick", "settle"]
        out.append(s)
    return out


def batch_models(c, kind):
    """The design itself: every interleaving of small programs, and the designs the code base
    had before, whose defects TLC has to find."""
    if c.thorough:
        c.model_check("BatchWorker", f"BatchWorker_{kind}_large.cfg", timeout=1500)
    c.model_check("BatchWorker", f"BatchWorker_{kind}.cfg")
    c.model_check("BatchWorker", "BatchWorker_live.cfg")
    if kind == "log":
        c.model_check("BatchWorker", "BatchWorker_late.cfg", expect_violation="Invariant Drained is violated")
        c.model_check("BatchWorker", "BatchWorker_under.cfg", expect_violation="Invariant NoUnderflow is violated")
        c.model_check("BatchWorker", "BatchWorker_spin.cfg", expect_violation="Temporal property AllReturn was violated")
    else:
        c.model_check("BatchWorker", "BatchWorker_single.cfg", expect_violation="Invariant Drained is violated")


def batch(c, kind, aspect):
    c.build()
    batch_models(c, kind)
    n = 4 if c.thorough else 1
    sc = walks(c, 150 * n, [kind]) + random_runs(c, 900 * n, [kind]) + full_batches(c, 120 * n, [kind])
    c.validate("BatchTrace", f"BatchTrace_{aspect}.cfg", c.record_sharded("proc", sc), timeout=800)
    if kind == "span" and aspect == "deliver":
        sc = [{"kind": "span", "cap": 4, "batch": b, "seed": c.seed + b,
               "prog": {"p1": ["emit", "unsampled", "emit", "flush"]}} for b in (1, 2, 4)]
        c.validate("BatchTrace", f"BatchTrace_{aspect}.cfg", c.record_sharded("proc", sc, shards=1), label="unsampled")


@prop("T01")
def t01(c):
    batch(c, "span", "deliver")


@prop("T02")
def t02(c):
    batch(c, "span", "drain")


@prop("L01")
def l01(c):
    batch(c, "log", "deliver")


@prop("L02")
def l02(c):
    batch(c, "log", "drain")


@prop("A01")
def a01(c):
    c.build()
    n = 4 if c.thorough else 1
    kinds = ["aspan", "alog", "acspan", "aclog", "atspan", "atlog"]
    sc = walks(c, 60 * n, ["aspan", "alog"]) + random_runs(c, 700 * n, ["aspan", "alog"], asy=True)
    sc += random_runs(c, 90 * n, kinds[2:]) + full_batches(c, 120 * n, kinds)
    c.validate("BatchTrace", "BatchTrace_both.cfg", c.record_sharded("proc", sc), timeout=800)


@prop("S01")
def s01(c):
    c.build()
    n = 4 if c.thorough else 1
    sc = walks(c, 60 * n, ["sspan", "slog"]) + random_runs(c, 600 * n, ["sspan", "slog"], timer_every=10**9)
    c.validate("SimpleTrace", "SimpleTrace.cfg", c.record_sharded("proc", sc), timeout=800)


@prop("S02")
def s02(c):
    c.build()
    for cfg in ["trace", "log"] + (["deep"] if c.thorough else []):
        c.replay("providers", c.generate("Providers", f"Providers_{cfg}.cfg"))
    c.replay("providers", c.generate("Providers", "Providers_sim.cfg", sim=(4000 if c.thorough else 400, 220)))
    c.validate("ProviderRace", "ProviderRace.cfg", c.record("provrace", {"rounds": 400000 if c.thorough else 60000, "kinds": ["trace", "log"]}))


@prop("R01")
def r01(c):
    c.build()
    for cfg in ["small", "env"]:
        c.replay("resource", c.generate("Resources", f"Resources_{cfg}.cfg"))
    c.replay("resource", c.generate("Resources", "Resources_sim.cfg", sim=(3000 if c.thorough else 150, 60)))


@prop("C01")
def c01(c):
    c.build()
    for part in ["batch", "delays", "timers", "limits", "sampler"] + (["wbatch", "wdelays", "wlimits"] if c.thorough else []):
        c.replay("config", c.generate("Config", f"Config_{part}.cfg"))


@prop("O01")
def o01(c):
    c.build()
    for part in ["endpoints", "encodings", "timeouts", "headers"]:
        c.replay("otlp", c.generate("OtlpConfig", f"OtlpConfig_{part}.cfg"))


@prop("O02")
def o02(c):
    c.build()
    for part in ["spans", "logs", "metrics"]:
        c.replay("otlp", c.generate("OtlpMap", f"OtlpMap_{part}_{'deep' if c.thorough else 'quick'}.cfg"))
        c.replay("otlp", c.generate("OtlpMap", f"OtlpMap_{part}_sim.cfg", sim=(20000 if c.thorough else 1500, 4)))


@prop("O03")
def o03(c):
    c.build()
    c.replay("otlp", c.generate("OtlpLife", "OtlpLife_quick.cfg"))
    c.replay("otlp", c.generate("OtlpLife", "OtlpLife_sim.cfg", sim=(5000 if c.thorough else 600, 80)))


def appender(c, runs):
    """Behaviours of Appenders.tla for both builds of the bridges."""
    for mode in ["plain", "rich"]:
        c.build("appenders", "vha", "rich" if mode == "rich" else None)
        for name, sim in runs(mode):
            c.replay("appender", c.generate("Appenders", f"Appenders_{name}.cfg", sim=sim))


@prop("G01")
def g01(c):
    n = 10 if c.thorough else 1
    def runs(mode):
        yield from [(f"logvalues_{mode}", None), (f"logtexts_{mode}", None), (f"filters_log_{mode}", None),
                    (f"walk_log_{mode}", (400 * n, 200))]
        if c.thorough:
            yield (f"short_log_{mode}", None)
        if mode == "rich":
            yield from [("serde", None), ("serdedeep", None), ("serderandom", (4000 * n, 4))]
    appender(c, runs)


@prop("G02")
def g02(c):
    n = 10 if c.thorough else 1
    def runs(mode):
        yield from [(f"evvalues_{mode}", None), (f"evtexts_{mode}", None), (f"filters_event_{mode}", None),
                    (f"evrandom_{mode}", (3000 * n, 4)), (f"walk_event_{mode}", (600 * n, 200))]
        if c.thorough or mode == "rich":
            yield (f"short_event_{mode}", None)
    appender(c, runs)


@prop("Z01")
def z01(c):
    c.build()
    for part in ["config", "map", "life"]:
        c.replay("zipkin", c.generate("Zipkin", f"Zipkin_{part}.cfg"))
    c.replay("zipkin", c.generate("Zipkin", "Zipkin_walk.cfg", sim=(6000 if c.thorough else 600, 30)))


@prop("T07")
def t07(c):
    c.build()
    for part in ["config", "change", "decisions", "under", "bucket", "life"]:
        c.replay("remote", c.generate("JaegerRemote", f"JaegerRemote_{part}.cfg"))
    c.replay("remote", c.generate("JaegerRemote", "JaegerRemote_walk.cfg", sim=(10000 if c.thorough else 1000, 300)))


@prop("P07")
def p07(c):
    c.build()
    for part in ["edits", "carries"]:
        c.replay("carrier", c.generate("Carriers", f"Carriers_{part}.cfg"))
    c.replay("carrier", c.generate("Carriers", "Carriers_walk.cfg", sim=(10000 if c.thorough else 1000, 200)))


@prop("T08")
def t08(c):
    c.build()
    # the state is the process's: one behaviour at a time
    for part in ["traces", "measures", "carriers"]:
        c.replay("globals", c.generate("Globals", f"Globals_{part}.cfg"), jobs=1)
    c.replay("globals", c.generate("Globals", "Globals_walk.cfg", sim=(6000 if c.thorough else 600, 300)), jobs=1)
    # spans whose kind is hidden behave as those that are not
    for cfg in ["quick", "two", "zero"]:
        c.replay("span", c.generate("SpanLife", f"SpanLife_{cfg}.cfg", limit=None if c.thorough else 8000), env={"VH_BOXED": "1"})
    c.replay("span", c.generate("SpanLife", "SpanLife_sim.cfg", sim=(1000 if c.thorough else 100, 200)), env={"VH_BOXED": "1"})
