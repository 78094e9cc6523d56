"""Device properties: model check TsxSign over a scenario family, replay the whole labelled graph."""
import os, time, traceback
from multiprocessing import Pool
from . import tlc

CFG = """INIT InitEmit
NEXT Next
VIEW View
CONSTANTS Fam="%s" Focus={%s} MaxSess=%d
INVARIANT SafetyInv
PROPERTY DeadProp FreshProp
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def model(job):
    fam, focus, ms = job
    cfg = CFG % (fam, ",".join('"%s"' % f for f in focus), ms)
    r = tlc.run("TsxSign", cfg, workers=2, timeout=800)
    from . import device
    g = device.graphs(r["lines"])
    return job, {"distinct": r["distinct"], "generated": r["generated"], "depth": r["depth"]}, g


def replay(a):
    gr, seed, kw = a
    t = time.time()
    try:
        from . import device
        x = device.explore(gr, seed, **kw)
    except Exception as e:
        x = {"scn": gr.scn["id"], "stat": {}, "missed": 0, "problems": [
            {"what": "replay stopped: %r" % e, "path": [], "scenario": gr.scn["id"], "trace": traceback.format_exc()}]}
    x["t"] = time.time() - t
    return x


# what each property explores: (family, deviations, sessions, replay options)
PLAN = {
    "S01": {"quick": [("small", "order", 1), ("off1", "order", 1)],
            "thorough": [("small", "order", 1), ("off", "order", 1), ("three", "order", 1), ("core", "-", 1), ("off4", "order", 1), ("two", "order,perm", 1)]},
    "S02": {"quick": [("rej", "order", 1), ("chg", "-", 1), ("pid", "-", 1), ("vers", "-", 1), ("show", "-", 1)],
            "thorough": [("rej", "order", 2), ("chg", "-", 1), ("pid", "-", 1), ("vers", "-", 1), ("show", "-", 1), ("keys", "-", 1), ("fee", "-", 1)]},
    "S03": {"quick": [("one", "sess,dead", 2), ("two1", "sess,dead", 2)],
            "thorough": [("one", "sess,dead", 2), ("two", "sess,dead", 2), ("one", "sess,order", 2), ("one", "sess", 3), ("rej", "sess,dead", 2)]},
    "S04": {"quick": [("outs", "out", 1), ("off1", "out", 1), ("mout", "far", 1)],
            "thorough": [("core", "out", 1), ("off", "out", 1), ("keys", "out", 1), ("wide", "out", 1), ("manyout", "far", 1), ("chg", "out", 1)]},
    "S05": {"quick": [("pair", "perm", 1), ("pair", "vini,sign", 1), ("one", "input,vini,sign", 1), ("three", "perms,vini,sign", 1), ("own", "-", 1), ("many", "far", 1)],
            "thorough": [("core", "perm", 1), ("core", "vini,sign", 1), ("pair", "input,vini,sign", 1), ("three", "perms,vini,sign", 1), ("three", "perm", 1), ("four", "perms", 1), ("own", "input", 1), ("many", "far", 1)]},
    "S06": {"quick": [("fee", "-", 1), ("wrap", "-", 1), ("infl", "input", 1), ("pair", "sign", 1), ("three", "perms", 1)],
            "thorough": [("fee", "-", 1), ("wrap", "-", 1), ("core", "sign,input", 1), ("three", "perms,sign", 1), ("four", "perms", 1), ("off", "bp", 1), ("wide", "-", 1)]},
    "S07": {"quick": [("chg", "-", 1), ("keys", "-", 1), ("pid", "-", 1)],
            "thorough": [("chg", "out", 1), ("keys", "-", 1), ("pid", "-", 1), ("own", "-", 1)]},
    "S08": {"quick": [("grp", "-", 1), ("off", "bp", 1), ("off4", "bp", 1), ("wide", "bp", 1), ("vers", "-", 1)],
            "thorough": [("grp", "bp", 1), ("off", "bp,out,order", 1), ("off4", "bp,out", 1), ("off5", "bp", 1), ("wide", "bp,out", 1), ("vers", "bp", 1), ("manyout", "bp", 1)]},
}


def check(c):
    plan = PLAN[c.prop]["thorough" if c.thorough else "quick"]
    jobs = [(f, [x for x in fo.split(",") if x != "-"], ms) for f, fo, ms in plan]
    seeds = [c.seed] if not c.thorough else [c.seed, c.seed + 1]
    work = []
    with Pool(4) as p:
        for job, r, g in p.imap_unordered(model, jobs):
            c.add(states=r["distinct"], transitions=r["generated"])
            for gr in g.values():
                for s in seeds:
                    work.append((gr.edges * (gr.scn["nIn"] + len(gr.scn["dst"])), gr, s, job))
    work.sort(key=lambda x: -x[0])
    kw = {"walks": 2 if not c.thorough else 6, "probes": 1 if not c.thorough else 2}
    with Pool(min(8, os.cpu_count() or 8)) as p:
        for x in p.imap_unordered(replay, [(g, s, kw) for _, g, s, _ in work], 1):
            st = x["stat"]
            if os.environ.get("VERIF_TIMES"):
                print("%6.1fs %s %s" % (x["t"], x["scn"], st))
            c.add(traces_validated_against_impl=st.get("edges", 0), scenarios=1, probes_after_refusal=st.get("probes", 0),
                  accepted=st.get("acks", 0), refused=st.get("refusals", 0), answers_compared_with_reference=st.get("content_checks", 0),
                  walk_steps=st.get("walk_steps", 0), states_not_reached_in_code=x["missed"])
            for pr in x["problems"]:
                c.fail("%s: %s" % (x["scn"], pr["what"]), "%s after %s" % (pr["what"], pr["path"][-4:]), pr)
            c.sample({"scenario": x["scn"], "edges": st.get("edges"), "states": st.get("states")})
    if c.cov.get("states_not_reached_in_code"):
        # states the code need not visit: where the specification leaves a choice
        c.cov["note"] = "unvisited states are the other branch of a choice the specification leaves open"
