#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's current tree.

Builds the crate from /repo together with the harnesses, once to LLVM IR and once natively; runs
the symbolic executor (engine/) over the harnesses of the property; replays every counterexample
against the native code; writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored. Exit 1: violated (VIOLATION line). Exit 2: no answer.
"""
import fcntl, json, os, random, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN, OUTSIDE, CONTRACTS  # noqa: E402

ENGINE = os.path.join(V, "engine/target/release/symex")
IR = os.path.join(V, "harness/target/release/deps/harness.ll")
REPLAY = os.path.join(V, "harness/target/native/debug/replay")
EVID = os.path.join(V, "evidence")
T0 = time.time()
NOTES = []


def say(*a):
    print(*a, flush=True)


def run(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                          errors="replace", **kw)


def tail(s, n=25):
    return "\n".join(s.strip().splitlines()[-n:])


class NoAnswer(Exception):
    pass


def build_engine():
    r = run(["cargo", "build", "--release", "--offline", "-q"], 900, cwd=os.path.join(V, "engine"))
    if r.returncode != 0 or not os.path.exists(ENGINE):
        raise NoAnswer("the engine does not build:\n" + tail(r.stderr))


FEATURES = [
    ([], "all"),
    (["--no-default-features", "--features", "literals"], "without the literal's operations"),
    (["--no-default-features", "--features", "builder"], "without compiled literals"),
    (["--no-default-features"], "without literals"),
]


def build_harness():
    """The features the harnesses could be built with, and the compiler's word on those not."""
    first = None
    for feat, what in FEATURES:
        r = run([os.path.join(V, "harness/build.sh"), "ir"] + feat, 600)
        if r.returncode != 0:
            first = first or r.stderr
            continue
        f = list(feat)
        if f and "--features" in f:
            f = ["--no-default-features", "--features", "native," + f[-1]]
        r2 = run([os.path.join(V, "harness/build.sh"), "native"] + f, 600)
        if r2.returncode != 0:
            first = first or r2.stderr
            continue
        return what, first
    raise NoAnswer("the harnesses do not build against /repo:\n" + tail(first or "", 40))


# ---------------------------------------------------------------- replay

def replay(h, inputs, timeout=20):
    """(code, text): 0 passed, 1 failed, 9 out of proportion, 'hang', 3/4/5 not applicable."""
    p = os.path.join(EVID, "tmp.%d" % os.getpid())
    with open(p, "w") as f:
        f.write(" ".join(map(str, inputs)))
    try:
        r = run([REPLAY, h, p], timeout)
        return r.returncode, (r.stdout.strip().splitlines() or [""])[0]
    except subprocess.TimeoutExpired:
        return "hang", "no end within %d s" % timeout
    finally:
        os.unlink(p)


def batch(lines, timeout=240):
    """One result (code, status, outs, covers) per line 'name n n n'."""
    p = os.path.join(EVID, "batch.%d" % os.getpid())
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    try:
        r = run([REPLAY, "--batch", p], timeout)
        out = r.stdout.splitlines()
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace").splitlines() if isinstance(e.stdout, bytes) else (e.stdout or "").splitlines()
    finally:
        os.unlink(p)
    res = []
    for l in out:
        f = l.split("\t")
        if len(f) >= 4 and f[0].lstrip("-").isdigit():
            res.append((int(f[0]), f[1], f[2], f[3]))
        else:
            res.append((-1, l, "", ""))
    return res


def failing(code):
    return code == 1 or code == 9 or code == "hang" or (isinstance(code, int) and (code < 0 or code >= 100))


def search(h, cands, rng, tries=4000):
    """Values of number inputs that make an unconfirmed counterexample fail natively.

    The engine keeps the digits of symbolic numbers abstract, so a counterexample in which text
    was rounded or cut names the path but not always digits that show it."""
    lines, ins = [], []
    for inputs, widths in cands:
        wide = [i for i, w in enumerate(widths) if w >= 32]
        if not wide:
            continue
        for _ in range(tries // max(1, len(cands))):
            v = list(inputs)
            how = rng.randrange(4)
            for i in wide:
                if how == 3 and rng.random() < .5:
                    continue
                w = widths[i]
                x = rng.getrandbits(w)
                k = rng.randrange(4)
                if w == 32 and k == 0:
                    x = (rng.randrange(107, 147) << 23) | rng.getrandbits(23) | (rng.getrandbits(1) << 31)
                elif k == 1:
                    x = rng.randrange(1000000)
                elif k == 2:
                    x = rng.randrange(1000000000)
                v[i] = x
            lines.append(h + " " + " ".join(map(str, v)))
            ins.append(v)
    for (c, s, _, _), v in zip(batch(lines), ins):
        if failing(c):
            return v, c, s
    return None


# ---------------------------------------------------------------- known findings

def known():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) inputs=(\S+) (.*)", l)
            if m:
                out.append((m[1], m[2], m[3].replace(",", " "), m[4].strip()))
    return out


# ---------------------------------------------------------------- one property

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    rng = random.Random(seed)
    os.makedirs(EVID, exist_ok=True)
    lock = open(os.path.join(EVID, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    plan = PLAN[prop]
    build_engine()
    built, log = build_harness()
    tb = time.time()
    violations = []
    if prop == "C18" and built in ("without compiled literals", "without literals") and log:
        p = os.path.join(EVID, "C18-literals.log")
        with open(p, "w") as f:
            f.write("Literals within the documented syntax do not compile:\n\n" + tail(log, 200))
        violations.append(("literals within the documented syntax do not compile", p))
    have = set(re.findall(r"^define [^\n]*@(c\d\d_\w+)\(", open(IR).read(), re.M))
    todo = [(h, s) for h, s in plan[tier] if h in have]
    absent = [h for h, _ in plan[tier] if h not in have]
    if not todo and not violations:
        raise NoAnswer("no harness of this property could be built:\n" + tail(log or "", 40))

    outp = os.path.join(EVID, "out.%d.json" % os.getpid())
    data = {"harnesses": []}
    if todo:
        cmd = [ENGINE, IR, "--jobs", str(os.cpu_count() or 4), "--out", outp, "--samples", "12",
               "--xcheck", "100" if tier == "quick" else "20", "--z3-ms", "4000" if tier == "quick" else "20000",
               "--harness", ",".join("%s:%d" % x for x in todo)]
        limit = sum(s for _, s in todo) + 60 * len(todo) + 60
        try:
            r = run(cmd, limit)
        except subprocess.TimeoutExpired:
            raise NoAnswer("the engine did not end")
        if r.returncode != 0 or not os.path.exists(outp):
            raise NoAnswer("the engine failed (%s):\n%s" % (r.returncode, tail(r.stderr)))
        data = json.load(open(outp))
        os.unlink(outp)
        for l in r.stderr.splitlines():
            say(l[:400])
    tv = time.time()

    # counterexamples, against the real code
    seen_known = []
    unconfirmed = []
    confirmed = 0
    for h in data["harnesses"]:
        for c in h["candidates"]:
            hit = None
            for i in c["inputs"][:6]:
                code, text = replay(h["name"], i, 20)
                if failing(code):
                    hit = (i, code, text)
                    break
            if not hit and len(c["inputs"]) > 6:
                rest = c["inputs"][6:]
                for i, g in zip(rest, batch([h["name"] + " " + " ".join(map(str, i)) for i in rest])):
                    if failing(g[0]):
                        hit = (i, g[0], g[1])
                        break
            if not hit and c["kind"] != "undecided":
                s = search(h["name"], list(zip(c["inputs"], c["widths"]))[:12], rng)
                if s:
                    hit = (s[0], s[1], s[2])
            if not hit and c["kind"] == "undecided":
                continue  # a path left undecided (counted as incomplete) whose model passes natively
            if not hit:
                unconfirmed.append({"harness": h["name"], "kind": c["kind"], "message": c["msg"], "paths": c["count"]})
                continue
            confirmed += 1
            record(prop, h["name"], hit, c, violations, seen_known)

    # sampled paths, against the real code
    lines, want, who = [], [], []
    for h in data["harnesses"]:
        for s in h["samples"]:
            lines.append(h["name"] + " " + " ".join(map(str, s["inputs"])))
            want.append(" ".join(map(str, s["outs"])))
            who.append((h["name"], s["inputs"]))
    # witnesses of what the harnesses reach
    cov = []
    for h in data["harnesses"]:
        for name, i in h["covers"].items():
            cov.append((h["name"], name))
            lines.append(h["name"] + " " + " ".join(map(str, i)))
            who.append((h["name"], i))
    got = batch(lines) if lines else []
    agree = 0
    differ = []
    for k, g in enumerate(got):
        if k < len(want):
            if g[0] == 0 and g[2] == want[k]:
                agree += 1
            else:
                differ.append({"harness": who[k][0], "inputs": who[k][1][:60], "native": list(g[:3]), "engine": want[k]})
    covered = {}
    for k, (h, name) in enumerate(cov):
        j = len(want) + k
        ok = j < len(got) and got[j][0] == 0 and name in got[j][3].split("|")
        covered["%s: %s" % (h, name)] = ok
        if ok:
            agree += 1
    # the real code fails on inputs the engine passed: still a failure of the real code
    for k, g in enumerate(got):
        if g[0] == 1 and not violations:
            h, i = who[k]
            code, text = replay(h, i)
            if code == 1:
                record(prop, h, (i, code, text), {"kind": "replay", "msg": text, "stack": []}, violations, seen_known)

    contracts = None
    if prop in CONTRACTS:
        n = 100000 if tier == "quick" else 3000000
        r = run([REPLAY, "--contracts", str(seed), str(n)], 600)
        contracts = (r.stdout.strip().splitlines() or ["?"])[-1]
        if r.returncode != 0:
            NOTES.append("number text contracts fail: " + tail(r.stdout, 5))

    evidence(prop, tier, seed, data, todo, absent, built, tb, tv, violations, unconfirmed, confirmed, agree, differ,
             covered, contracts, seen_known)
    for t in seen_known:
        say("KNOWN-FINDING: property=%s %s" % (prop, t))
    for u in unconfirmed:
        say("not confirmed natively (no alarm):", json.dumps(u)[:300])
    for d in differ[:5]:
        say("engine and native code differ (no alarm):", json.dumps(d)[:300])
    if violations:
        for what, p in violations:
            say("violated:", what)
        say("VIOLATION property=%s replay=%s" % (prop, violations[0][1]))
        return 1
    say("%s held on everything explored (%s, %.0f s)" % (prop, tier, time.time() - T0))
    return 0


def record(prop, h, hit, c, violations, seen_known):
    i, code, text = hit
    key = " ".join(map(str, i))
    for kp, kh, ki, kt in known():
        if kp == prop and kh == h and ki == key:
            if kt not in seen_known:
                seen_known.append(kt)
            return
    p = os.path.join(EVID, "%s-%s-%d.txt" % (prop, h, len(violations) + 1))
    with open(p, "w") as f:
        f.write(key + "\n")
    with open(p[:-4] + ".json", "w") as f:
        json.dump({"property": prop, "harness": h, "inputs": i, "engine": {k: c.get(k) for k in ("kind", "msg", "stack")},
                   "native": [code, text], "paths": c.get("count"),
                   "replay": "harness/target/native/debug/replay %s %s" % (h, p)}, f, indent=1)
    violations.append(("%s: %s (native: %s)" % (h, c["msg"], text), p))


def demangle(n):
    """The identifiers of a v0 mangled name."""
    out = []
    i = 2
    while i < len(n):
        c = n[i]
        if c.isdigit():
            m = re.match(r"(\d+)_?", n[i:])
            l = int(m[1]) if m[1][0] != "0" else 0
            i += (m.end() if l else 1)
            if l:
                out.append(n[i:i + l])
                i += l
            continue
        m = re.match(r"s[0-9a-zA-Z]*_(?=\d|[CNM])|B[0-9a-zA-Z]*_", n[i:])
        i += m.end() if m else 1
    return "::".join(x for x in out if x)


def evidence(prop, tier, seed, data, todo, absent, built, tb, tv, violations, unconfirmed, confirmed, agree, differ,
             covered, contracts, seen_known):
    H = data["harnesses"]

    def tot(k):
        return sum(h[k] for h in H)

    budgets = dict(todo)
    mine = {f for h in H for f in h["funcs"]}
    funcs = sorted({d for d in map(demangle, mine) if d.startswith("bvh_anim::")})
    nfun = len({f for h in H for f in h["funcs"]})
    complete = all(not h["incomplete"] for h in H) and not absent
    cov = {
        "states": tot("paths") + tot("pruned") + tot("stopped") + tot("forks"),
        "transitions": tot("steps"),
        "traces_validated_against_impl": agree + confirmed,
        "samples": [{"harness": h["name"], "inputs": s["inputs"][:40], "outputs": s["outs"][:20]}
                    for h in H for s in h["samples"][:1]][:12],
        "exhaustive": complete,
        "explanation": "states: symbolic states (ends of paths and forks); transitions: LLVM instructions executed "
                       "symbolically; traces_validated_against_impl: solver-chosen inputs of explored paths on which "
                       "the native build gave the outputs, or reached the points, the engine predicted. Each path stands for all inputs "
                       "that satisfy its condition. A check on a path is decided by the solver unless both sides are the "
                       "same term or constant there (checks_same_term). Splits on a one-byte input are enumerated from "
                       "its 256-value domain; that no value is left out is asked of Z3 (closed_by_solver, repeats from cache).",
        "checks": tot("checks"),
        "checks_same_term": tot("checks_folded"),
        "checks_by_solver": tot("checks_solver"),
        "paths_completed": tot("paths"),
        "paths_infeasible": tot("pruned"),
        "solver": {"queries": tot("z3_calls"), "sat": tot("z3_sat"), "unsat": tot("z3_unsat"), "unknown": tot("z3_unknown"),
                   "seconds": round(tot("z3_secs"), 2), "by_byte_domain": tot("dom_decided"), "closed_by_solver": tot("xchecked"),
                   "answered_from_cache": tot("cache_hits"), "name": "Z3 (bit-vectors and IEEE floats)"},
        "bounds": {h["name"]: BOUNDS(h["name"]) for h in H},
        "outside_the_bounds": OUTSIDE.get(prop, OUTSIDE["*"]),
        "harnesses": [{"name": h["name"], "seconds": h["secs"], "budget": budgets.get(h["name"]), "paths": h["paths"],
                       "forks": h["forks"], "checks": h["checks"], "symbolic_inputs": h["max_inputs"],
                       "longest_path": h["max_path_steps"], "incomplete": {k[:160]: n for k, n in list(h["incomplete"].items())[:6]},
                       "candidates": len(h["candidates"])} for h in H],
        "functions_encoded": {"of_bvh_anim": funcs[:150], "bvh_anim_total": len(funcs), "all_crates_total": nfun},
        "reached": {k: v for k, v in list(covered.items())[:60]},
        "engine_native_differences": differ[:5],
        "unconfirmed_candidates": unconfirmed[:10],
        "known_findings": seen_known,
        "harnesses_not_built": absent,
        "built": built,
        "seconds": {"build": round(tb - T0, 1), "engine": round(tv - tb, 1)},
    }
    if contracts:
        cov["number_text_contracts"] = contracts
    if NOTES:
        cov["notes"] = NOTES
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": [
            "rustc's LLVM IR (opt-level 1, panic=abort, overflow checks on) of the crate and its dependencies means what the engine gives it; sampled paths are replayed natively",
            "the text of a symbolic number is abstract: writing then reading it gives the number back (contracts tested natively on edge and random values)",
            "memory allocation succeeds unless out of proportion to the input",
        ],
        "wall_s": round(time.time() - T0, 2), "violations": len(violations),
    }
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        cov["functions_encoded"]["of_bvh_anim"] = funcs[:40]
        cov["samples"] = cov["samples"][:4]
        s = json.dumps(ev, indent=0)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        f.write(s + "\n")


def BOUNDS(name):
    from plan import BOUND
    return BOUND.get(name, "")


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        try:
            build_engine()
            say(build_harness()[0])
        except (NoAnswer, subprocess.TimeoutExpired) as e:
            say(str(e))
            sys.exit(1)
        sys.exit(0)
    try:
        sys.exit(main())
    except NoAnswer as e:
        say("no answer:", e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        say("no answer: time out:", e)
        sys.exit(2)
