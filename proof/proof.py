"""Proof stage: contracts in proof/units/*.vspec, placed on code extracted from /repo's current
sources by vx (proof/vx), discharged by Verus.

A unit file has sections that start with a line `//@ KIND ARGS`:
  include FILE              text of proof/FILE
  use UNIT fn               (contracts of another unit, assumed here, proved there)
  consts FILE               every integer constant of a source file
  item FILE NAME [noclone] [eq]  a struct, enum or constant, as extracted
  fn FILE PATH {json}       a function; the section's text is its requires/ensures
  external FILE PATH {json} the same, body not verified here (its contract is assumed)
  loop N / before N / after N / loopstart N / loopend N / bodystart / bodyend / let NAME[#n] / stmt CALLED[#n] (if_ for an if) / tail
  raw                       verus text (spec functions, lemmas)
"""
from concurrent.futures import ThreadPoolExecutor
import hashlib, json, os, re, subprocess, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.path.join(ROOT, ".build")
REPO = os.environ.get("VERIF_REPO", "/repo")
UNITS = os.path.join(HERE, "units")

GENUINE = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
           "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied", "possible bit shift",
           "unable to prove", "requires not satisfied", "recommendation not met", "could not prove termination", "split precondition failure",
           "split postcondition failure", "split assertion failure", "loop invariant not satisfied", "possible overflow", "index out of bounds",
           "cannot show", "unreachable", "panic", "array index", "exec")


def empty():
    return {"obligations": [], "commands": [], "trusted": [], "functions": [], "solver_s": 0.0, "bounded": "", "assumptions": []}


def build_vx():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "vx"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(HERE, "vx"), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("vx does not build: " + r.stderr[-2000:])
    return os.path.join(BUILD, "vx", "debug", "vx")


def parse_unit(name):
    secs, cur = [], None
    for ln in open(os.path.join(UNITS, name + ".vspec")):
        m = re.match(r"//@ (\S+)\s*(.*)", ln)
        if m:
            cur = {"kind": m.group(1), "args": m.group(2).strip(), "text": ""}
            secs.append(cur)
        elif cur is not None:
            cur["text"] += ln
    out = []
    fn = None
    for s in secs:
        if s["kind"] == "use":
            other, path = s["args"].split(None, 1)
            got = [x for x in parse_unit(other) if x["kind"] == "fn" and x["path"] == path.strip() and not x["opts"].get("name")]
            if len(got) != 1:
                raise Lost(f"no contract of {path} in unit {other}")
            x = got[0]
            fn = dict(x, kind="external", opts=dict(x["opts"], why=f"discharged in unit {other}"))
            fn["hints"] = []
            out.append(fn)
            continue
        if s["kind"] in ("fn", "external"):
            a = s["args"].split("{", 1)
            file, path = a[0].split(None, 1)
            opts = json.loads("{" + a[1]) if len(a) > 1 else {}
            fn = {"kind": s["kind"], "file": file, "path": path.strip(), "opts": opts, "spec": s["text"], "hints": []}
            out.append(fn)
        elif s["kind"] in ("loop", "before", "after", "loopstart", "loopend", "bodystart", "bodyend", "let", "stmt", "tail"):
            fn["hints"].append((s["kind"], s["args"], s["text"]))
        else:
            out.append(s)
    return out


def pretty(src):
    out, ind, line = [], 0, ""
    i, n = 0, len(src)
    par = 0
    while i < n:
        c = src[i]
        if c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            line += src[i:j + 1]
            i = j + 1
            continue
        if c == "{":
            out.append("    " * ind + line.strip() + " {")
            line = ""
            ind += 1
        elif c == "}":
            if line.strip():
                out.append("    " * ind + line.strip())
            ind -= 1
            line = "}"
        elif c == ";":
            par_bal = line.count("[") - line.count("]")
            if par_bal > 0:
                line += ";"
            else:
                out.append("    " * ind + line.strip() + ";")
                line = ""
        else:
            line += c
        i += 1
    if line.strip():
        out.append("    " * ind + line.strip())
    return "\n".join(out)


class Lost(Exception):
    pass


def weave(body, hints, info, vac=False):
    """Replace vx's markers by the sidecar's annotations."""
    by = {}
    for k, a, t in hints:
        by.setdefault((k, a.split("#")[0]), []).append((a, t))
    used = set()
    letcount = {}

    def take(kind, key):
        r = []
        for a, t in by.get((kind, key), []):
            if "#" in a:
                continue
            used.add((kind, a))
            r.append(t)
        return "\n".join(r)

    # loops
    def loop_sub(m):
        k = m.group(1)
        return "\n" + take("loop", k) + "\n{ " + take("loopstart", k)
    body = re.sub(r"\{\s*VXLOOP\s*!\s*\(\s*(\d+)\s*\)\s*;", loop_sub, body)
    body = re.sub(r"VXEND\s*!\s*\(\s*(\d+)\s*\)\s*;", lambda m: take("loopend", m.group(1)), body)
    body = re.sub(r"VXBEFORE\s*!\s*\(\s*(\d+)\s*\)\s*;", lambda m: take("before", m.group(1)), body)
    body = re.sub(r"VXAFTER\s*!\s*\(\s*(\d+)\s*\)\s*;", lambda m: take("after", m.group(1)), body)

    def let_sub(m, kind="let"):
        nm = m.group(1)
        letcount[kind, nm] = letcount.get((kind, nm), 0) + 1
        r = []
        for a, t in by.get((kind, nm), []):
            want = int(a.split("#")[1]) if "#" in a else 1
            if want == letcount[kind, nm]:
                used.add((kind, a))
                r.append(t)
        return "\n".join(r)
    body = re.sub(r"VXLET\s*!\s*\(\s*(\w+)\s*\)\s*;", let_sub, body)
    body = re.sub(r"VXSTMT\s*!\s*\(\s*(\w+)\s*\)\s*;", lambda m: let_sub(m, "stmt"), body)
    body = re.sub(r"VXTAIL\s*!\s*\(\s*\)\s*;", lambda m: take("tail", ""), body)
    def clos_sub(m):
        c = info["closures"][int(m.group(1))]
        ps = ", ".join(f"vp_{i}: {ty}" for i, ty in enumerate(c["params"]))
        return f"|{ps}| -> ({c['ret']}) " + (f"requires {c['requires']} " if c.get("requires") else "") + f"ensures {c['ensures']} "
    body = re.sub(r"\|\s*VXCLOS_(\d+)\s*\|", clos_sub, body)
    start = take("bodystart", "")
    end = take("bodyend", "")
    if vac:
        start = "proof { assert(false); }\n" + start
    if end:
        if info["ret"]:
            body = "{ " + start + " let vx_ret = " + body + ";\n" + end + "\nvx_ret }"
        else:
            inner = body.rstrip()[:-1].rstrip()
            inner += "" if inner[-1:] in ";}{" else ";"
            body = "{ " + start + inner + "\n" + end + "\n} }"
    elif start:
        body = "{ " + start + body + "}"
    missing = [f"{k} {a}" for k, a, _ in hints if (k, a) not in used and k not in ("bodystart", "bodyend")]
    if missing:
        raise Lost("annotation anchors no longer in the function: " + ", ".join(missing))
    return body


def assemble(unit, vx, vac=False):
    secs = parse_unit(unit)
    glob = {"rename": {}, "drop": ["F", "Stark252PrimeField"], "methods": {m: "vx_" + m for m in ("saturating_add", "saturating_sub", "saturating_mul", "checked_add", "checked_sub", "checked_mul", "is_power_of_two", "trailing_zeros")}, "paths": {}}
    req = {"root": os.path.join(REPO, "src"), "fns": [], "items": [], "consts": []}
    for s in secs:
        if s["kind"] == "config":
            c = json.loads(s["text"])
            for k in c:
                if isinstance(glob[k], dict):
                    glob[k].update(c[k])
                else:
                    glob[k] += c[k]
    req.update(glob)
    for s in secs:
        if s["kind"] in ("fn", "external"):
            req["fns"].append(dict(s["opts"], file=s["file"], path=s["path"], tail=any(h == "tail" for h, _, _ in s["hints"])))
        elif s["kind"] == "item":
            a = s["args"].split()
            req["items"].append({"file": a[0], "name": a[1]})
        elif s["kind"] == "consts":
            req["consts"].append(s["args"])
    r = subprocess.run([vx], input=json.dumps(req), capture_output=True, text=True)
    if r.returncode != 0:
        raise Lost("extraction stopped: " + r.stderr[-600:])
    ans = json.loads(r.stdout)
    fns = iter(ans["fns"])
    items = iter(ans["items"])
    out = []          # (text, owner)
    problems = {}     # function -> reason
    functions = []
    lifetimes = {}    # struct with a lifetime -> its parameter
    trusted = []
    consts_done = False
    for s in secs:
        k = s["kind"]
        if k == "include":
            t = open(os.path.join(HERE, s["args"])).read()
            out.append((t, "prelude"))
        elif k == "raw":
            out.append((s["text"], "raw"))
        elif k == "consts":
            if not consts_done:
                consts_done = True
                seen = set()
                for c in ans["consts"]:
                    if c["name"] not in seen:
                        seen.add(c["name"])
                        out.append((c["src"] + "\n", "consts"))
        elif k == "item":
            a = next(items)
            if "error" in a:
                problems["item " + a["name"]] = a["error"]
                continue
            out.append((pretty(a["src"]) + "\n", "item " + a["name"]))
            lt = re.search(r"struct (\w+)\s*<\s*('\w+)\s*>", a["src"])
            if lt:
                lifetimes[lt.group(1)] = f"<{lt.group(2)}>"
            flags = s["args"].split()[2:]
            if "noclone" not in flags and ("struct" in a["src"] or "enum" in a["src"]):
                m = re.search(r"(struct|enum) (\w+)", a["src"])
                nm = m.group(2)
                out.append((f"impl Clone for {nm} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n", "item"))
            if "copy" in flags:
                out.append((f"impl Copy for {nm} {{}}\n", "item"))
            if "eq" in flags:
                out.append((f"impl vstd::std_specs::cmp::PartialEqSpecImpl for {nm} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &{nm}) -> bool {{ *self == *other }} }}\n"
                            f"impl PartialEq for {nm} {{ #[verifier::external_body] fn eq(&self, other: &{nm}) -> (r: bool) {{ unimplemented!() }} }}\nimpl Eq for {nm} {{}}\n", "item"))
        elif k in ("fn", "external"):
            f = next(fns)
            p = s["path"]
            if "error" in f:
                problems[p] = f["error"]
                continue
            if f["unsupported"]:
                problems[p] = "outside the dialect: " + "; ".join(f["unsupported"])[:500]
                if k == "fn":
                    continue
            o = s["opts"]
            try:
                for nm, ty in o.get("types", {}).items():
                    f["body"] = re.sub(r"let (mut )?" + nm + r"\s*=", lambda m: f"let {m.group(1) or ''}{nm} : {ty} =", f["body"])
                want = len({a for h, a, _ in s["hints"] if h == "loop"})
                if k == "fn" and f["loops"] != want and not o.get("loops_any"):
                    raise Lost(f"{f['loops']} loops, annotated for {want}")
                f["closures"] = o.get("closures", [])
                body = weave(f["body"], s["hints"], f, vac) if k == "fn" else "{ unimplemented!() }"
            except Lost as e:
                problems[p] = str(e)
                continue
            name = o.get("name", f["name"])
            attrs = ["#[verifier::loop_isolation(false)]"] if k == "fn" and f["loops"] and not o.get("isolate") else []
            if k == "external":
                attrs.append("#[verifier::external_body]")
                trusted.append(f"{p}: contract assumed ({o.get('why', 'not verified in this unit')})")
            else:
                functions.append({"function": f"{f['file']}: {p}", "loops": f["loops"], "sha": hashlib.sha256(f["raw"].encode()).hexdigest()[:16]})
            if "rlimit" in o:
                attrs.append(f"#[verifier::rlimit({o['rlimit']})]")
            attrs += o.get("attrs", [])
            gen = f"<{', '.join(f['generics'])}>" if f["generics"] else ""
            ret = f" -> (ret: {f['ret']})" if f["ret"] else ""
            params = ", ".join(o["params"][i] if i < len(o.get("params", [])) and o["params"][i] else x for i, x in enumerate(f["params"]))
            txt = "\n".join(attrs) + f"\npub fn {name}{gen}({params}){ret}\n{s['spec']}\n" + pretty(body) + "\n"
            if f["self_ty"] and not o.get("free"):
                st = f["self_ty"].rstrip("!")
                lt = lifetimes.get(st, "")
                txt = f"impl{lt} {st}{lt} {{\n{txt}}}\n"
            out.append((txt, o.get("name", p)))
    if not vac:
        out.append(("proof fn vx_canary() ensures false {}\n", "canary"))
    text, owners, line = "", [], 1
    text = "#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, unreachable_code, non_snake_case)]\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n"
    line = text.count("\n") + 1
    for t, o in out:
        if not t.endswith("\n"):
            t += "\n"
        n = t.count("\n")
        owners.append((line, line + n - 1, o))
        text += t
        line += n
    text += "}\nfn main() {}\n"
    return text, owners, problems, functions, trusted, ans


SEEDS = int(os.environ.get("VERIF_SEEDS", "3"))


def verus(path, rlimit, timeout, seed=0):
    opts = ["--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}"] if seed else []
    cmd = ["verus", path, "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--num-threads", "4", "--multiple-errors", "3"] + opts + ["--", "--error-format=json"]
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return None, [], time.time() - t, cmd
    diags = []
    for ln in r.stderr.splitlines():
        if ln.startswith("{"):
            try:
                diags.append(json.loads(ln))
            except ValueError:
                pass
    try:
        js = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        js = {}
    return js, diags, time.time() - t, cmd


def breakdown(js):
    out = {}
    for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            n = f["function"]
            t, ok = out.get(n, (0, True))
            out[n] = (t + f.get("time", 0), ok and f.get("success", True))
    return out


def run_unit(unit, vx, tier):
    res = empty()
    d = os.path.join(BUILD, "proof")
    os.makedirs(d, exist_ok=True)
    try:
        text, owners, problems, functions, trusted, ans = assemble(unit, vx)
    except Lost as e:
        res["obligations"].append({"name": f"{unit}: extraction", "status": "undecided", "backend": "vx", "detail": str(e)})
        return res
    path = os.path.join(d, unit + ".rs")
    open(path, "w").write(text)
    for p, why in problems.items():
        res["obligations"].append({"name": f"{unit}: {p}", "status": "undecided", "backend": "vx", "detail": why})
    for p in ans["parse_errors"]:
        res["obligations"].append({"name": f"{unit}: {p}", "status": "undecided", "backend": "vx", "detail": "does not parse"})
    rl = 60 if tier == "quick" else 300
    js, diags, secs, cmd = verus(path, rl, 280 if tier == "quick" else 1500)
    res["commands"].append("verus proof/" + unit + ".rs (assembled from /repo by vx + proof/units/" + unit + ".vspec)")
    res["solver_s"] = secs
    res["functions"] = functions
    res["trusted"] = trusted
    if js is None:
        res["obligations"].append({"name": unit, "status": "undecided", "backend": "verus/z3", "detail": "no answer in time"})
        return res

    def owner(ln):
        for a, b, o in owners:
            if a <= ln <= b:
                return o
        return "?"
    lines = text.split("\n")

    def fn_at(ln):
        for k in range(ln - 1, -1, -1):
            m = re.search(r"\bfn (\w+)", lines[k])
            if m and not lines[k].strip().startswith("//"):
                return m.group(1)
        return "?"
    def judge(diags):
        failed, undec, compile_err = {}, {}, []
        for dg in diags:
            if dg.get("level") != "error" or dg["message"].startswith("aborting due to"):
                continue
            sp = dg.get("spans") or []
            msg = dg["message"]
            genuine = dg.get("code") is None and any(g in msg for g in GENUINE) and sp
            rl_hit = "rlimit" in msg.lower() or "resource limit" in msg.lower() or "timed out" in msg.lower()
            # the function whose body fails: a postcondition's body-end span, or the primary one
            cand = [s for s in sp if s["file_name"].endswith(unit + ".rs")]
            loc = [s for s in cand if s.get("label") and ("end of the function body" in s["label"] or "at this" in s["label"] or "exit" in s["label"])] or [s for s in cand if s["is_primary"]] or cand
            if msg.startswith("precondition"):
                loc = [s for s in cand if s["is_primary"]] or cand
            ln = loc[0]["line_start"] if loc else 0
            o = owner(ln)
            f = fn_at(ln)
            key = (o if o not in ("raw", "prelude", "item") else f)
            if f == "vx_canary" and genuine:
                failed.setdefault("vx_canary", []).append(msg)
            elif rl_hit:
                undec.setdefault(key, []).append(msg)
            elif genuine:
                failed.setdefault(key, []).append(dg["rendered"])
            else:
                compile_err.append((key, dg["rendered"]))
        return failed, undec, compile_err
    failed, undec, compile_err = judge(diags)
    bd = breakdown(js)
    # a search that gives up is not an answer: the obligations not discharged are put to the solver again from other seeds
    seed = 0
    while seed < SEEDS and not compile_err and js.get("verification-results") and (set(failed) | set(undec)) - {"vx_canary"} and secs * (seed + 2) / (seed + 1) < (300 if tier == "quick" else 2400):
        seed += 1
        js2, dg2, s2, _ = verus(path, rl, 280 if tier == "quick" else 1500, seed)
        secs += s2
        res["solver_s"] = secs
        if js2 is None:
            continue
        f2, u2, c2 = judge(dg2)
        if c2 or not js2.get("verification-results"):
            continue
        for n, (t, ok) in breakdown(js2).items():
            bd[n] = (bd.get(n, (0, False))[0] + t, ok or bd.get(n, (0, False))[1])
        still = set(f2) | set(u2)
        for k in list(failed):
            if k not in still and k != "vx_canary":
                failed.pop(k)
        for k in list(undec):
            if k not in still:
                undec.pop(k)
            elif k in f2:
                failed[k] = f2[k]
                undec.pop(k)
        if "vx_canary" not in f2:
            failed.pop("vx_canary", None)
    if compile_err or not js.get("verification-results"):
        det = "; ".join(f"[{k}] {m[:300]}" for k, m in compile_err[:4]) or "verus gave no result: " + str(diags)[:400]
        res["obligations"].append({"name": unit, "status": "undecided", "backend": "verus/z3", "detail": "the assembled unit is not accepted: " + det})
        return res
    if "vx_canary" not in failed:
        res["obligations"].append({"name": f"{unit}: vacuity canary", "status": "undecided", "backend": "verus/z3", "detail": "`ensures false` was accepted or not reached: the unit's axioms are inconsistent, nothing in it counts"})
        return res
    failed.pop("vx_canary")
    own = set()
    for a, b, o in owners:
        if o != "prelude":
            own |= set(re.findall(r"\bfn (\w+)", "\n".join(lines[a - 1:b])))
    names = {}
    for k in failed:
        names[k.rsplit("::", 1)[-1]] = k
    for k in undec:
        names.setdefault(k.rsplit("::", 1)[-1], k)
    seen = set()
    for n, (t, ok) in sorted(bd.items()):
        short = n.split("::", 1)[-1] if "::" in n else n
        last = short.rsplit("::", 1)[-1]
        if last == "vx_canary" or (last not in own and not last.startswith("theorem_")):
            continue
        if ok:
            res["obligations"].append({"name": f"{unit}: {short}", "status": "discharged", "backend": "verus/z3"})
            continue
        k = names.get(last)
        if k in failed:
            seen.add(k)
            res["obligations"].append({"name": f"{unit}: {k}", "status": "failed", "backend": "verus/z3", "detail": "\n".join(failed[k])[:4000]})
        else:
            if k:
                seen.add(k)
            res["obligations"].append({"name": f"{unit}: {k or short}", "status": "undecided", "backend": "verus/z3", "detail": "\n".join(undec.get(k, ["no verdict"]))[:600]})
    for k in failed:
        if k not in seen:
            res["obligations"].append({"name": f"{unit}: {k}", "status": "failed", "backend": "verus/z3", "detail": "\n".join(failed[k])[:4000]})
    for k in undec:
        if k not in seen:
            res["obligations"].append({"name": f"{unit}: {k}", "status": "undecided", "backend": "verus/z3", "detail": "\n".join(undec[k])[:600]})
    # everything taken on trust, read off the assembled text
    for m in re.finditer(r"(external_body|\bassume\s*\(|\badmit\s*\(|uninterp spec fn \w+|broadcast axiom fn \w+|axiom fn \w+)", text):
        pass
    ext = re.findall(r"external_body\][^{;]*?\bfn (\w+)", text)
    mine = "\n".join("\n".join(lines[a - 1:b]) for a, b, o in owners if o != "prelude")
    ext = [e for e in ext if re.search(r"\b" + e + r"\b", mine)]
    ops = [o for o in ("+", "-", "*", "==") if "FE" in mine] and ["operators + - * == on field elements"]
    if ext:
        res["trusted"].append(f"{unit}: contracts assumed for external functions: " + ", ".join(sorted(set(ext)) + ops))
    ax = re.findall(r"axiom fn (\w+)", text)
    if ax:
        res["trusted"].append(f"{unit}: axioms: " + ", ".join(sorted(set(ax))))
    n_assume = len(re.findall(r"\b(?:assume|admit)\s*\(", text))
    if n_assume:
        res["assumptions"].append(f"{unit}: {n_assume} assume/admit statements in the assembled text")
    if tier != "quick":
        try:
            vt, ow, _, _, _, _ = assemble(unit, vx, vac=True)
            vp = os.path.join(d, unit + "_vac.rs")
            open(vp, "w").write(vt)
            js2, dg2, s2, _ = verus(vp, rl, 1500)
            res["solver_s"] += s2
            lines2 = vt.split("\n")
            hit = set()
            for dg in dg2:
                for s in dg.get("spans") or []:
                    if dg["message"] == "assertion failed" and s["is_primary"]:
                        for a, b, o in ow:
                            if a <= s["line_start"] <= b:
                                hit.add(o)
            vac = [f["function"].split(": ", 1)[1] for f in functions if f["function"].split(": ", 1)[1] not in hit]
            for f in vac:
                res["obligations"].append({"name": f"{unit}: {f} precondition satisfiable", "status": "undecided", "backend": "verus/z3", "detail": "assert(false) at the start of the body was accepted or not reached"})
            if not vac:
                res["obligations"].append({"name": f"{unit}: no precondition is contradictory ({len(functions)} functions)", "status": "discharged", "backend": "verus/z3"})
        except Lost:
            pass
    return res


def run(prop, tier):
    plan = json.load(open(os.path.join(HERE, "plan.json")))
    p = plan.get(prop)
    res = empty()
    if not p:
        return res
    try:
        vx = build_vx()
    except RuntimeError as e:
        res["obligations"].append({"name": "vx", "status": "undecided", "backend": "vx", "detail": str(e)})
        return res
    with ThreadPoolExecutor(3) as pool:
        done = list(pool.map(lambda u: run_unit(u, vx, tier), p["units"]))
    for r in done:
        for k in ("obligations", "commands", "trusted", "functions", "assumptions"):
            res[k] += r[k]
        res["solver_s"] += r["solver_s"]
    res["bounded"] = p.get("bounded", "")
    res["assumptions"] += p.get("assumptions", [])
    return res


if __name__ == "__main__":
    import sys
    vx = build_vx()
    if sys.argv[1] == "--dump":     # show the extracted code of a unit with no regard to its annotations
        pu = parse_unit

        def loose(n):
            s = pu(n)
            for x in s:
                if x["kind"] == "fn":
                    x["opts"]["loops_any"] = True
                    x["hints"] = []
            return s
        parse_unit = loose
        t, ow, pb, _, _, _ = assemble(sys.argv[2], vx)
        ls = t.split("\n")
        for a, b, o in ow:
            if o not in ("prelude", "raw", "item", "consts", "canary") and (len(sys.argv) < 4 or sys.argv[3] in o):
                print("\n".join(ls[a - 1:b]))
        print(pb)
        sys.exit(0)
    bad = 0
    for u in sys.argv[1:]:
        r = run_unit(u, vx, os.environ.get("VERIF_TIER", "quick"))
        for o in r["obligations"]:
            if o["status"] != "discharged":
                bad += 1
                print(o["status"].upper(), o["name"], "\n", o.get("detail", "")[:2500])
        print(u, sum(o["status"] == "discharged" for o in r["obligations"]), "/", len(r["obligations"]), f"{r['solver_s']:.1f}s", *r["trusted"], sep="\n  ")
    sys.exit(bad > 0)
