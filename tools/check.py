#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]: decide one property on /repo's working tree.

exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": broken; 2: the check itself failed.
"""
import argparse, collections, copy, json, os, random, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from registry import CHECKS

KNOWN = os.path.join(vlib.VERIF, "known_findings.json")


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)) if k.get("property") == pid and k.get("status") == "known"]


def matches(known, rej, event):
    """A known finding names the session, the reason and (part of) the event that fails."""
    m = known["match"]
    if "session" in m and m["session"] != rej["session"].split("#")[0]:
        return False
    if "why" in m and m["why"] != rej["why"]:
        return False
    return all(event.get(k) == v for k, v in m.get("event", {}).items())


def set_path(ev, path, fn):
    """Apply fn at a dotted path; returns False if the path does not exist."""
    keys = path.split(".")
    o = ev
    for k in keys[:-1]:
        if k == "*":
            if not isinstance(o, list) or not o:
                return False
            o = o[len(o) // 2]
        elif isinstance(o, dict) and k in o:
            o = o[k]
        elif isinstance(o, list) and k.isdigit() and int(k) < len(o):
            o = o[int(k)]
        else:
            return False
    k = keys[-1]
    if k == "*":
        if not isinstance(o, list) or not o:
            return False
        i = len(o) // 2
        v = fn(o[i])
        if v == o[i]:
            return False
        o[i] = v
        return True
    if isinstance(o, list) and k.isdigit() and int(k) < len(o):
        k = int(k)
    elif not isinstance(o, dict) or k not in o:
        return False
    v = fn(o[k])
    if v == o[k]:
        return False
    o[k] = v
    return True


def corruptor(kind):
    def fn(v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, int):
            return v + 1 if kind == "inc" else (v + 2) % 4
        if isinstance(v, list) and v:
            return v[:-1]
        if isinstance(v, list):
            return [0]
        return v
    return fn


def corrupt_sessions(sessions, spec, rnd, per=2):
    """Copies of real sessions, each with one recorded result changed: the specification must reject every one."""
    out = []
    for kind, paths in spec.items():
        cands = [(s, i) for s in sessions for i, e in enumerate(s["ev"]) if e["e"] == kind]
        rnd.shuffle(cands)
        for path in paths:
            done = 0
            guard = None
            if isinstance(path, tuple):
                path, guard = path
            for s, i in cands:
                try:
                    if guard and not guard(s["ev"][i]):
                        continue
                except (KeyError, IndexError):      # an event of this kind without that result
                    continue
                c = {"name": "~%s.%s.%d" % (kind, path, done), "ev": copy.deepcopy(s["ev"][:i + 1])}
                if set_path(c["ev"][i], path, corruptor("inc")):
                    out.append((c, i + 1))
                    done += 1
                if done >= per:
                    break
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    pid, tier, seed = a.property, a.tier, a.seed
    chk = CHECKS[pid]
    t0 = time.time()
    work = os.path.join(vlib.WORK, pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    states = transitions = traces = 0
    samples, violations, known_hit, notes = [], [], [], []
    counts = collections.Counter()
    known = load_known(pid)
    rnd = random.Random(seed)

    # 1. the implementation: build from the working tree, drive, validate what it did
    parts = [p for p in chk["parts"] if tier in p.get("tiers", ("quick", "thorough"))]
    bykey = collections.defaultdict(list)
    for p in parts:
        bykey[p.get("san")].append(p["topic"])
    exes = {}
    for san, topics in bykey.items():
        for t, e in vlib.build(sorted(set(topics)), san).items():
            exes[(san, t)] = e
    for p in parts:
        name = p.get("name", p["topic"])
        w = os.path.join(work, name)
        args = ["--seed", str(seed), "--tier", tier] + [str(x) for x in p.get("args", [])]
        sessions, status = vlib.run_driver(exes[(p.get("san"), p["topic"])], w, args,
                                           timeout=p.get("timeout", {}).get(tier, 240 if tier == "quick" else 1500),
                                           env=p.get("env"))
        if p.get("filter"):
            sessions = p["filter"](sessions)
        for s in sessions:
            for e in s["ev"]:
                counts[e["e"]] += 1
        if any(len({x["name"] for x in g}) != len(g) for g in [sessions]):
            raise vlib.InfraError("session names are not unique")
        corrupted = corrupt_sessions(sessions, p.get("corrupt", {}), rnd)
        traces += len(sessions)
        rej, st = vlib.validate(p["module"], sessions + [c for c, _ in corrupted], w,
                                timeout=600 if tier == "quick" else 3000, strict=False, consts=p.get("consts"))
        states += st["distinct"]
        transitions += max(0, st["distinct"] - len(sessions) - len(corrupted))
        hit = {x["session"] for x in rej if x["session"].startswith("~")}
        missed = [c["name"] for c, _ in corrupted if c["name"] not in hit]
        rej = [x for x in rej if not x["session"].startswith("~")]
        if missed and not (violations or known_hit or rej):
            raise vlib.InfraError("corrupted traces were accepted: %s" % missed[:5])
        counts["corrupted traces rejected"] += len(hit)
        by = {s["name"]: s for s in sessions}
        expect = sum(len(s["ev"]) + 1 for s in sessions) + sum(len(c["ev"]) + 1 for c, _ in corrupted)
        if not rej and not hit and st["distinct"] != expect:
            raise vlib.InfraError("trace validation incomplete: %d of %d states" % (st["distinct"], expect))
        for x in rej:
            ev = by[x["session"]]["ev"][x["event"] - 1]
            if p.get("claims") and ev["e"] != "died" and not p["claims"](ev, x["why"]):
                counts["rejections left to other checks"] += 1
                continue
            k = next((k for k in known if matches(k, x, ev)), None)
            (known_hit if k else violations).append((k, p, x, ev, by[x["session"]]))
        if status != "ok" and not any(v[3]["e"] == "died" for v in violations + known_hit):
            raise vlib.InfraError("driver ended with %s but the specification accepted its trace" % status)
        if sessions and len(samples) < 6:
            s = rnd.choice(sessions)
            samples.append({"session": s["name"], "events": s["ev"][:6]})
    for kind, n in chk.get("need", {}).items():
        if counts[kind] < n and not violations:
            raise vlib.InfraError("only %d events of kind %s were observed, expected at least %d" % (counts[kind], kind, n))

    # 2. the specification itself: exhaustive model checking of the abstract models
    for m in chk.get("models", []):
        if tier not in m.get("tiers", ("quick", "thorough")):
            continue
        r = vlib.model_check(m["module"], m["cfg"], os.path.join(work, "mc"), timeout=400 if tier == "quick" else 3000, refute=m.get("refute", False))
        states += r["distinct"]
        transitions += r["generated"]
        notes.append("%s/%s: %d distinct states, %.1fs%s" % (m["module"], m["cfg"], r["distinct"], r["wall"], " (mistake in it found)" if m.get("refute") else ""))
        if r["distinct"] < m.get("min_states", 1):
            raise vlib.InfraError("model %s has only %d states" % (m["module"], r["distinct"]))

    # 3. report
    for k in {k["id"]: k for k, *_ in known_hit}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rdir = os.path.join(vlib.VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    reported = collections.Counter()
    for n, (_, p, x, ev, s) in enumerate(violations):
        key = (x["why"], x["session"].split("#")[0])
        reported[key] += 1
        if reported[key] > 1 or len(reported) > 10:
            continue
        path = os.path.join(rdir, "%s-%d.json" % (pid, n))
        json.dump({"property": pid, "driver": p["topic"], "args": p.get("args", []), "seed": seed, "tier": tier,
                   "module": p["module"], "session": s["name"], "event_index": x["event"], "why": x["why"], "event": ev,
                   "history": s["ev"][max(0, x["event"] - 40):x["event"]],
                   "context": s["ev"][0] if s["ev"] else None}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s, event %d: %s: %s" % (x["session"], x["event"], x["why"], json.dumps(ev)[:400]))
    cov = {"states": states, "transitions": transitions, "traces_validated_against_impl": traces, "samples": samples,
           "events_by_kind": dict(counts), "models": notes,
           "explanation": chk.get("coverage", "")}
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"), "coverage": cov,
               "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
               "violations": len(violations)},
              open(os.path.join(vlib.VERIF, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d traces, %d states, %d violations, %.1fs" % (pid, tier, traces, states, len(violations), time.time() - t0))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        rc = main()
    except vlib.InfraError as e:
        print("CHECK-ERROR:", e, file=sys.stderr)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
