#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: decide one property on the current source of /repo.

exit 0: no violation (proved, or recorded in the evidence as undecided)
exit 1: violation; prints VIOLATION property=<id> replay=<path>
exit 2: the source could not be analysed at all (it does not compile)
"""
import json, os, re, sys, time, traceback
sys.setrecursionlimit(30000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    from sa import core, facts, props
    pid = sys.argv[1]
    t0 = time.time()
    P = props.PROPS[pid]
    try:
        prog = core.load()
    except facts.FactsError as e:
        print("cannot analyse: %s" % e)
        return 2
    cache = {}
    order = core.closure(P["groups"])
    for g in order:
        core.run_group(prog, g, cache, g in P["groups"])
        core.note_contracts(prog, g, cache[g])
    known = load_known()
    viol, und, n, ok = [], [], 0, 0
    fns, paths, unm, loops = set(), 0, {}, []
    per = {}
    for g in order:
        c = cache[g]
        paths += c.paths
        fns |= c.fns_seen
        unm.update(c.unmodelled)
        loops += [str(x)[:160] for x in c.loops]
        own = g in P["groups"]
        flt = P.get("keys")
        gn = go = 0
        for k, o in sorted(c.obs.items()):
            if flt and not any(f(g, k) for f in flt):
                continue
            gn += o.n
            go += o.ok
            if not own:
                continue
            if o.viol:
                viol.append((g, k, o))
            elif o.und:
                und.append((g, k, o))
        per[g] = {"obligations": gn, "discharged": go, "seconds": round(c.wall, 2), "rules": len(c.obs), "notes": c.notes[:5]}
        if own:
            n, ok = n + gn, ok + go
    rc = 0
    shown = []
    for g, k, o in viol:
        key = "%s: %s" % (g, k)
        hit = [x for x in known if x["property"] == pid and x["kind"] == "known" and x["key"] == key]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
            continue
        shown.append((key, o))
    vd = os.path.join(core.VERIF, "evidence")
    os.makedirs(vd, exist_ok=True)
    replay = os.path.join(vd, pid + ".replay.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    if shown:
        rc = 1
        with open(replay, "w") as f:
            f.write("property %s: %s\n\n" % (pid, P["title"]))
            for key, o in shown:
                f.write("rule      %s\nconstruct %s\n" % (key, o.where))
                for d in o.viol:
                    f.write("          %s\n" % d)
                f.write("\n")
            f.write("re-run: python3-vt /verif/check.py %s\n" % pid)
        for key, o in shown[:12]:
            print("  %s [%s]: %s" % (key, o.where, str(o.viol[0])[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    ev = {
        "property": pid, "tier": core.TIER, "seed": core.SEED, "level": P["level"],
        "coverage": {
            "obligations": n, "discharged": ok,
            "checker_cmd": "python3-vt /verif/check.py %s" % pid,
            "trusted_base": ["rustc's MIR construction (nightly toolchain installed here)", "/verif/driver (MIR to JSON)",
                             "/verif/sa: abstract interpreter, abstract domain and the models of std/regex/num-bigint functions listed in sa/models.py"],
            "explanation": P["explain"],
            "functions_analysed": sorted(prog.fns[i].full for i in fns if i in prog.fns and prog.fns[i].local),
            "paths": paths, "groups": per,
            "samples": [dict(rule="%s: %s" % (g, k), construct=o.where, obligations=o.n) for g in P["groups"]
                        for k, o in sorted(cache[g].obs.items())[:6]],
            "undecided": [dict(rule="%s: %s" % (g, k), construct=o.where, why=str(o.und[0])[:400]) for g, k, o in und],
            "unmodelled_calls": {str(k): str(v)[:120] for k, v in unm.items()},
            "loops": sorted(set(loops))[:60],
        },
        "assumptions": P.get("assume", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(shown),
    }
    with open(os.path.join(vd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d obligations, %d discharged, %d undecided rules, %d violations, %.1fs" % (pid, n, ok, len(und), len(shown), time.time() - t0))
    return rc


def load_known():
    """Lines of known-findings.txt: 'known: property=<id> key=<group: rule> what=<text>' (reported as
    KNOWN-FINDING) or 'fixed: property=<id> <commit> <text>' (suppresses nothing)."""
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) key=(.*?) what=(.*)$", l)
            if m:
                out.append({"kind": "known", "property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return out


if __name__ == "__main__":
    res = []

    def go():
        try:
            res.append(main())
        except SystemExit as e:
            res.append(e.code)
        except BaseException:
            traceback.print_exc()
            res.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0])
