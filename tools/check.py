#!/usr/bin/env python3
"""Decides one property: generates cases, runs the real code on them, and has
TLC decide whether every recorded run is a behaviour of the specification.

usage: check.py PROPERTY [--replay FILE]
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree while developing


class Broken(Exception):
    """The machinery itself failed; neither a pass nor a violation."""


def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise Broken("timeout: " + " ".join(cmd)[:300])
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


GOENV = {"CGO_ENABLED": "1", "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GOWORK": "off", "HOME": "/root", "VERIF_SPEC": os.path.join(VERIF, "spec"),
         "PATH": "/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"}


def build(work, race=False):
    """Builds the harness against /repo's working tree."""
    src = os.path.join(work, "src")
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    exe = os.path.join(work, "harness")
    if REPO != "/repo":
        mod = open(os.path.join(src, "go.mod")).read()
        open(os.path.join(src, "go.mod"), "w").write(mod.replace("=> /repo", "=> " + REPO))
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", exe, "."]
    rc, out, err = run(cmd, 600, GOENV, src)
    if rc != 0:
        raise Broken("the harness does not build against /repo:\n" + out + err)
    return exe


def tlc(work, part, env, timeout):
    """Runs TLC on a specification module; returns (states generated, distinct)."""
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx8g", "-Djava.io.tmpdir=" + meta, "-cp", JAR,
           "tlc2.TLC", "-workers", "8", "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final",
           "-config", part["module"] + ".cfg", part["module"] + ".tla"]
    rc, out, err = run(cmd, timeout, env, os.path.join(VERIF, "spec"))
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if rc != 0 or not m or "No error has been found" not in out:
        i = out.find("Error:")
        raise Broken("TLC on %s failed (rc %d):\n%s\n%s" % (part["module"], rc, out[i if i >= 0 else -3000:][:4000], err[-2000:]))
    return int(m.group(1)), int(m.group(2))


def read_verdicts(path):
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line:
                out.append(json.loads(json.loads(line)))
    return out


def known_findings(prop):
    out = {}
    for line in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8"):
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


class Stats:
    def __init__(self):
        self.cases = self.runs = self.states = self.distinct = self.long = self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.bad = []      # (part, case, run index, verdict)
        self.known = {}
        self.parts = []


def enumerate_part(ctx, part, n, rounds):
    """TLC enumerates behaviours or grammars of a module; the code replays them."""
    work, enum, st = ctx["work"], part["enum"], ctx["stats"]
    out = os.path.join(work, "behaviours")
    if os.path.exists(out):
        os.remove(out)
    env = {"HISTORIES": out, "DEPTH": str(n), "SET": part.get("set", "")}
    gen, dist = tlc(work, {"module": enum}, env, 1500)
    st.states += gen
    st.distinct += dist
    items = [json.loads(r) for r in sorted(json.loads(l) for l in open(out, encoding="utf-8") if l.strip())]
    os.remove(out)
    cases = part["wrap"](items, part)
    bads = []
    size = part.get("batch", len(cases))
    for i in range(0, len(cases), size):
        bads += conf_part(ctx["exe"], work, ctx["prop"], part, 0, 0, st, cases[i:i + size])
        if bads:
            break
    return bads


def conf_part(exe, work, prop, part, seed, n, st, cases=None, timeout=8):
    """One generate-record-check round."""
    d = tempfile.mkdtemp(prefix="part", dir=work)
    if cases is None:
        rc, out, err = run([exe, "gen", part["profile"], str(seed), str(n), d], 600, GOENV)
        if rc != 0:
            raise Broken("generator: " + out[-2000:] + err[-3000:])
    else:
        with open(os.path.join(d, "cases.ndjson"), "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        if part.get("filter"):
            rc, out, err = run([exe, "filter", d], 600, GOENV)
            if rc != 0:
                raise Broken("filter: " + out[-2000:] + err[-3000:])
    if part.get("packages"):  # have the tool write a package for each case
        rc, out, err = run([exe, "packages", d, os.path.join(os.path.dirname(exe), "src")], 800, GOENV)
        if rc != 0:
            raise Broken("packages: " + out[-2000:] + err[-3000:])
    rc, out, err = run([exe, "record", d, str(timeout)], 1500, {**GOENV, "VERIF_RACE": "1"} if PROPS[prop].get("race") else GOENV)
    if rc != 0:
        raise Broken("recorder: " + out[-2000:] + err[-3000:])
    ncases, nruns, odd = map(int, out.split())
    vf = os.path.join(d, "verdicts")
    env = {"CASES": os.path.join(d, "tlc.ndjson"), "VERDICTS": vf, "PEG": part.get("peg", "0")}
    gen, dist = tlc(work, part, env, 3000)
    vs = read_verdicts(vf)
    if len(vs) != nruns:
        raise Broken("TLC decided %d of %d runs" % (len(vs), nruns))
    cs = [json.loads(l) for l in open(os.path.join(d, "cases.ndjson"), encoding="utf-8")]
    bads = []
    for v in vs:
        c = cs[v["ci"] - 1]
        oc = v["v"] if v["v"] != "ok" else v["exp"].get("o", "ok")
        st.outcomes[oc] = st.outcomes.get(oc, 0) + 1
        if v["v"] == "long":
            st.long += 1
            continue
        st.traces += 1
        if v["v"] == "gen":
            raise Broken("the generator and the specification disagree on what a text means: " + json.dumps(c)[:3000])
        if v["v"] == "bad":
            bads.append((c, v))
    if cases is None and len(st.samples) < 4 and cs:
        for v in vs[len(vs) // 2: len(vs) // 2 + 2]:
            c = dict(cs[v["ci"] - 1])
            c["runs"] = [c["runs"][v["ri"] - 1]]
            st.samples.append({"part": part["name"], "case": c, "expected": v["exp"], "verdict": v["v"]})
    st.cases += ncases
    st.runs += nruns
    st.states += gen
    st.distinct += dist
    obs = None
    if bads:
        obs = [json.loads(l) for l in open(os.path.join(d, "tlc.ndjson"), encoding="utf-8")]
    res = []
    for c, v in bads:
        o = obs[v["ci"] - 1]["runs"][v["ri"] - 1].get("obs")
        res.append((part, c, v, o))
    shutil.rmtree(d, ignore_errors=True)
    return res


def split(c, ri):
    """The case with only the runs up to and including ri (history matters)."""
    c = dict(c)
    if c["kind"] != "reuse":
        c["runs"] = c["runs"][:ri]
    return c


def main():
    prop = sys.argv[1]
    spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    st = Stats()
    known = known_findings(prop)
    violations = []
    try:
        exe = build(work, spec.get("race", False))
        ctx = {"exe": exe, "work": work, "prop": prop, "stats": st, "run": run, "tlc": tlc, "Broken": Broken,
               "read_verdicts": read_verdicts, "build": build, "goenv": GOENV, "tier": tier, "seed": seed, "verif": VERIF}
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            r = json.load(open(sys.argv[3]))
            part = [p for p in spec["parts"] if p["name"] == r["part"]][0]
            bad = conf_part(exe, work, prop, part, 0, 0, st, [r["case"]])
            for b in bad:
                print(json.dumps({"expected": b[2]["exp"], "observed": b[3]}))
            print("still fails" if bad else "holds")
            return 1 if bad else 0
        budget = spec.get("budget", 700)
        rounds = 0
        while True:
            for part in spec["parts"]:
                if rounds > 0 and part.get("once"):
                    continue
                n = part["n"] if tier == "quick" else part.get("n_thorough", 4 * part["n"])
                if "enum" in part:
                    bads = enumerate_part(ctx, part, n, rounds)
                elif "func" in part:
                    bads = part["func"](ctx, part, n, rounds)
                else:
                    bads = conf_part(exe, work, prop, part, seed * 1000 + rounds, n, st)
                for b in bads:
                    k = b[1].get("known")
                    if k and k in known:
                        st.known[k] = known[k]
                        continue
                    st.bad.append(b)
                if st.bad:
                    break
            rounds += 1
            if st.bad or tier == "quick" or time.time() - t0 > budget * rounds / (rounds + 1.0):
                break
        # confirm in isolation: every violation must show up again on its own
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        skipped = [b for b in st.bad if isinstance(b[3], dict) and b[3].get("o") == "skipped"]
        st.bad = [b for b in st.bad if b not in skipped]
        st.bad.sort(key=lambda b: len(json.dumps(b[1])))
        t1 = time.time()
        for i, (part, c, v, o) in enumerate(st.bad[:4]):
            if violations and time.time() - t1 > 60:
                break
            alone = split(c, v["ri"]) if "ri" in v else c
            if "func" not in part:
                scratch = Stats()
                again = conf_part(exe, work, prop, part, 0, 0, scratch, [alone], 20)
                if not any(a[2]["ri"] == v["ri"] for a in again):
                    # resource trouble (a stalled worker) and not a behaviour
                    if isinstance(o, dict) and o.get("o") in ("hang", "crash", "skipped"):
                        continue
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, i + 1))
            with open(path, "w") as f:
                json.dump({"property": prop, "part": part["name"], "module": part.get("module"), "case": alone,
                           "run": v.get("ri"), "expected": v.get("exp"), "observed": o,
                           "rerun": "python3 tools/check.py %s --replay %s" % (prop, path)}, f, indent=1, ensure_ascii=False)
            violations.append(path)
        if st.bad and not violations:
            raise Broken("mismatches were seen that do not repeat: " + json.dumps([b[3] for b in st.bad[:3]])[:2000])
    except Broken as e:
        print("CHECK BROKEN %s: %s" % (prop, e), file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for k in sorted(st.known):
        print("KNOWN-FINDING: property=%s %s" % (prop, st.known[k]))
    for p in violations:
        print("VIOLATION property=%s replay=%s" % (prop, p))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {"states": st.states, "transitions": max(0, st.states - st.runs), "distinct_states": st.distinct,
                       "traces_validated_against_impl": st.traces, "cases": st.cases, "rounds": rounds,
                       "undecided_over_step_bound": st.long, "outcomes": st.outcomes,
                       "samples": st.samples or ["none"], **({"parts": st.parts} if st.parts else {})},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s %s: %d cases, %d runs decided, %d states, %d violations, %.1fs" %
          (prop, tier, st.cases, st.traces, st.states, len(violations), time.time() - t0))
    return 1 if violations else 0


sys.exit(main())
