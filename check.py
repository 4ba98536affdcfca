#!/usr/bin/env python3
"""check.py C05 [--tier quick|thorough]

Decides one property on /repo's current tree: the proof stage (contracts discharged by a
deductive verifier on code extracted from /repo now), then the replay stage (real code run
on generated inputs), which supplies the failing input behind a failed obligation and is the
bounded stand-in where no obligation reaches.

Exit 0: held on everything explored (or undecided, which is printed).  Exit 1: VIOLATION.
"""
import fcntl, json, os, resource, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
EVID = os.path.join(ROOT, "evidence")
sys.path.insert(0, os.path.join(ROOT, "proof"))
MEM = 10 << 30


def limited():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def known():
    out = {}
    with open(os.path.join(ROOT, "KNOWN_FINDINGS")) as f:
        for l in f:
            l = l.strip()
            if l.startswith("finding:"):
                _, prop, ident, what = l.split(None, 3)
                out[(prop.split("=", 1)[1], ident.split("=", 1)[1])] = what
    return out


def replay(prop, tier, seed, t0):
    """Returns (report or None, note, violation)"""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true", VERIF_TIER=tier, VERIF_SEED=str(seed))
    env.pop("RUSTFLAGS", None)
    name = prop.lower()
    crate = os.path.join(ROOT, "replay")
    b = subprocess.run(["cargo", "build", "--offline", "--bin", name], cwd=crate, env=env, capture_output=True, text=True)
    if b.returncode != 0:
        return None, "the replay crate does not build against the current tree:\n" + b.stderr[-6000:], None
    out = os.path.join(BUILD, f"{prop}.replay.json")
    for f in (out, out + ".current"):
        if os.path.exists(f):
            os.remove(f)
    budget = 240 if tier == "quick" else 3000
    env["REPLAY_BUDGET_S"] = str(budget)
    hard = budget + 120
    try:
        r = subprocess.run([os.path.join(BUILD, "target/debug", name), out], cwd=crate, env=env, capture_output=True, text=True, timeout=hard, preexec_fn=limited)
        why = None if r.returncode == 0 and os.path.exists(out) else f"the process ended with status {r.returncode}\n{r.stderr[-2000:]}"
    except subprocess.TimeoutExpired:
        why = f"no answer within {hard} s"
    if why is not None:
        cur = ""
        if os.path.exists(out + ".current"):
            cur = open(out + ".current", errors="replace").read()[:20000]
        return None, why, {"key": "crash-or-hang", "input": cur, "where": why}
    return json.load(open(out)), "", None


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    import proof
    pr = proof.run(prop, tier)
    rep, note, crash = replay(prop, tier, seed, t0)
    kf = known()
    viol = []
    if crash:
        viol.append(crash)
    if rep:
        viol += rep["violations"]
        for f in rep["findings"]:
            if (prop, f["id"]) in kf:
                print(f"KNOWN-FINDING: property={prop} {f['id']}: {f['what']}"[:3000])
            else:
                viol.append({"key": f["id"], "input": f["what"], "where": "finding not listed in KNOWN_FINDINGS"})
    failed = [o for o in pr["obligations"] if o["status"] == "failed"]
    discharged = [o for o in pr["obligations"] if o["status"] == "discharged"]
    undecided = [o for o in pr["obligations"] if o["status"] == "undecided"]
    cov = {
        "evaluations": rep["evaluations"] if rep else 0,
        "distinct_nontrivial": rep["distinct_nontrivial"] if rep else 0,
        "rule": rep["rule"] if rep else note,
        "samples": rep["samples"] if rep else [],
        "obligations": len(pr["obligations"]),
        "discharged": len(discharged),
        "checker_cmd": "; ".join(pr["commands"]) or "none",
        "trusted_base": pr["trusted"],
        "functions_under_contract": pr["functions"],
        "obligation_list": [{k: o[k] for k in ("name", "status", "backend") if k in o} for o in pr["obligations"]],
        "undecided": [f"{o['name']}: {o.get('detail', '')[:400]}" for o in undecided],
        "solver_s": round(pr["solver_s"], 2),
        "bounded_part": pr["bounded"],
        "replay_note": note,
    }
    level = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    level = next((c["level"] for c in level["checks"] if c["property"] == prop), "other")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": pr["assumptions"], "violations": len(viol) + (1 if failed else 0), "wall_s": round(time.time() - t0, 2)}
    if level == "other":
        cov["explanation"] = pr["bounded"] or "see DESIGN.md"
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    for o in undecided:
        print(f"UNDECIDED {prop} {o['name']}: {o.get('detail', '')[:600]}")
    if note and not crash:
        print(f"UNDECIDED {prop} replay: {note[-1500:]}")
    path = os.path.join(EVID, f"{prop}.replay.json")
    if viol:
        json.dump({"property": prop, "reproduce": f"{ROOT}/replay: VERIF_SEED={seed} VERIF_TIER={tier} cargo run --offline --bin {prop.lower()} OUT.json",
                   "violations": viol, "failed_obligations": failed}, open(path, "w"), indent=1)
        for v in viol[:6]:
            print(f"  {v['key']}: {v['input'][:600]}")
        for o in failed:
            print(f"  failed obligation {o['name']}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if failed:
        json.dump({"property": prop, "violations": [], "failed_obligations": failed}, open(path, "w"), indent=1)
        for o in failed:
            print(f"  failed obligation {o['name']}: {o.get('detail', '')[:1500]}")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        sys.exit(1)
    if os.path.exists(path):
        os.remove(path)
    print(f"{prop} held: {len(discharged)}/{len(pr['obligations'])} obligations discharged, {cov['evaluations']} replay cases ({tier}, {ev['wall_s']} s)")


if __name__ == "__main__":
    main()
