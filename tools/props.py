"""What each check runs: generator profile, specification module, sizes."""


def conf(name, profile, n, module="Conf", **kw):
    return dict(name=name, profile=profile, module=module, n=n, **kw)


def histories(hs, part):
    return [{"kind": "scan", "runs": [{"ev": h} for h in hs[i:i + 50]]} for i in range(0, len(hs), 50)]


def grammars(gs, part):
    """Every enumerated grammar on every short input."""
    ins = [""]
    last = [""]
    for _ in range(part["maxlen"]):
        last = [w + c for w in last for c in part["alphabet"]]
        ins += last
    return [{"id": i, "kind": part["kind"], "g": g, "cmp": part["cmp"], "runs": [{"rule": "s", "in": w, **v} for w in ins for v in part["variants"]],
             **part["more"]} for i, g in enumerate(gs)]


def every(set, alphabet, maxlen, n, n_thorough, cmp, name="every small grammar", kind="parse", variants=[{}], more={}, **kw):
    """All grammars of up to n nodes of a universe of Universe.tla."""
    kw.setdefault("module", "Session" if kind == "session" else "Conf")
    return conf(name, "-", n, enum="Universe", wrap=grammars, n_thorough=n_thorough, once=True, set=set, alphabet=alphabet,
                maxlen=maxlen, cmp=cmp, kind=kind, variants=variants, more=more, filter=True, batch=2000, **kw)


def pairs(gs, part):
    """Every enumerated grammar against every other one."""
    return [{"id": i, "kind": "diff", "g": g, "runs": [{"data": {"what": "grammars", "g2": h}} for h in gs]} for i, g in enumerate(gs)]


def texts(gs, part):
    """Every enumerated grammar as a text."""
    return [{"id": i, "kind": "text", "g": g, "cmp": part["cmp"], "runs": [part["run"]], "data": {"plain": part["plain"], "want": part["want"]}}
            for i, g in enumerate(gs)]


def every_text(set, n, n_thorough, cmp, run={}, plain=False, want=True):
    return conf("every small grammar", "-", n, module="Text", enum="Universe", wrap=texts, n_thorough=n_thorough, once=True, set=set, cmp=cmp,
                run=run, plain=plain, want=want, filter=True, batch=2000)


HANDLERS = [{"ext": {"p": h}} for h in ({"act": "eat", "n": 1}, {"act": "lit", "n": 0, "s": "a"}, {"act": "err", "n": 1}, {"act": "stop", "n": 1})] + [{"ext": {}}]
ESCAPES = [{"esc": dict(e, open="(", close=")")} for e in ({"act": "eat", "n": 1}, {"act": "lit", "n": 0, "s": "ab"}, {"act": "sub", "n": 0, "rule": "s"}, {"act": "err", "n": 0})]

PROPS = {
    "C01": dict(parts=[conf("random", "C01", 12000, peg="1"),
                       every("choice", "ab", 3, 4, 5, [], peg="1")]),
    "C02": dict(parts=[conf("random", "C02", 10000, peg="1"),
                       every("trees", "ab", 3, 4, 5, ["tree"], peg="1")]),
    "C03": dict(parts=[conf("random", "C03", 10000, peg="1"),
                       every("delims", "a,", 4, 4, 5, ["tree"], peg="1")]),
    "C04": dict(parts=[conf("random", "C04", 10000, peg="1"),
                       every("stack", "ab", 3, 4, 5, ["tree"], peg="1")]),
    "C05": dict(parts=[conf("random", "C05", 10000, peg="1"),
                       every("commits", "ab", 3, 4, 5, ["kind", "tree"], peg="1")]),
    "C06": dict(parts=[conf("insertion", "C06", 350, module="Text"), conf("neutral", "C06n", 8000, peg="0")]),
    "C07": dict(parts=[conf("random", "C07", 10000, peg="1"),
                       every("refs", "ab", 3, 3, 4, ["tree"], peg="1")]),
    "C08": dict(parts=[conf("random", "C08", 10000, peg="1"), conf("conversion", "C08a", 6000, module="Session"),
                       every("scopes", "abc", 2, 4, 5, ["tree"], peg="1")]),
    "C09": dict(parts=[conf("random", "C09", 10000, peg="1"),
                       every("wrap", "ab ", 3, 3, 4, ["tree"], peg="1")]),
    "C10": dict(parts=[conf("random", "C10", 10000, peg="1"),
                       every("looks", "ab", 3, 4, 5, ["kind", "tree"], peg="1")]),
    "C11": dict(parts=[conf("random", "C11", 10000, peg="1"),
                       every("calls", "ab", 2, 3, 4, ["kind", "tree", "log"], variants=HANDLERS, more={"refs": ["x"]})]),
    "C12": dict(parts=[conf("random", "C12", 10000, peg="1"),
                       every("escapes", ["a", "b", "(", ")"], 3, 3, 4, ["kind", "tree", "log"], variants=ESCAPES)]),
    "C13": dict(parts=[conf("every short history", "-", 2, module="ScanConf", enum="ScanEnum", wrap=histories, n_thorough=3, once=True),
                       conf("random histories", "C13s", 6000, module="ScanConf"), conf("positions", "C13p", 9000, module="Pos")]),
    "C14": dict(race=True, parts=[conf("histories", "C14", 5000, module="Session")]),
    "C15": dict(parts=[conf("random", "C15", 14000, module="Session"),
                       every("lists", "ab", 3, 3, 4, ["ast"], kind="session"),
                       every("chains", "a,", 3, 3, 4, ["ast"], kind="session", name="every small list")]),
    "C16": dict(parts=[conf("random", "C16", 14000, module="Session"),
                       every("lists", "ab", 3, 3, 4, ["back"], kind="session")]),
    "C17": dict(parts=[conf("random", "C17", 14000, module="Session"),
                       every("chains", "a,", 3, 3, 4, ["unparse"], kind="session"),
                       every("trees", "ab", 2, 3, 4, ["unparse"], kind="session", name="every small grammar with groups")]),
    "C18": dict(parts=[conf("random", "C18", 500, module="Text"),
                       every_text("texts", 2, 3, ["grammar"])]),
    "C19": dict(parts=[conf("random", "C19", 600, module="Text")]),
    "C20": dict(parts=[conf("random", "C20", 500, module="Text"),
                       every_text("loops", 3, 4, ["faults"], run={"ins": ["", "x", "y", "xy", "yx", "xxy"]}, plain=True, want=False)]),
    "C21": dict(parts=[conf("random", "C21", 400, module="Text")]),
    "C22": dict(parts=[conf("graphs", "C22", 800, module="Imports"), conf("command line", "C22c", 400, module="Imports")]),
    "C23": dict(parts=[conf("grammars", "C23", 3000, module="CodeGen")]),
    "C24": dict(parts=[conf("walks", "C24", 1000, module="Walker")]),
    "C27": dict(parts=[conf("packages", "C27", 250, module="Packages", packages=True, n_thorough=400)]),
    "C25": dict(parts=[conf("own grammar", "C25g", 1, module="Text", once=True), conf("texts", "C25t", 120), conf("mutated", "C25m", 2500)]),
    "C26": dict(parts=[conf("random", "C26", 10000, peg="1"),
                       every("commits", "ab", 3, 3, 5, ["kind", "fpos"], more={"data": {"render": True, "twice": True}})]),
    "C28": dict(parts=[conf("random", "C28", 8000, module="Show")]),
    "C30": dict(parts=[conf("random", "C30", 8000, module="Diff"),
                       conf("every pair of small grammars", "-", 2, module="Diff", enum="Universe", wrap=pairs, n_thorough=2, once=True, set="pairs",
                            batch=100)]),
    "C31": dict(parts=[conf("views", "C31", 8000, module="Show"), conf("drawings", "C31d", 4000, module="DrawConf")]),
    "C29": dict(parts=[conf("command line", "C29", 700, module="Show")]),
}
