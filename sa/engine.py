"""Runs the rules registered for a property and collects findings and coverage."""
import json
import os

from .project import Project, AnalysisBroken
from . import refcheck, scopes

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, where, what, detail="", line=0):
        self.rule, self.where, self.what, self.detail, self.line = rule, where, what, detail, line

    @property
    def key(self):
        return "%s %s %s" % (self.rule, self.where, self.what)

    def report(self):
        s = "[%s] %s: %s" % (self.rule, self.where, self.what)
        if self.line:
            s += " (line %d)" % self.line
        if self.detail:
            s += "\n    " + self.detail.replace("\n", "\n    ")
        return s


class Result:
    def __init__(self):
        self.findings, self.coverage, self.assumptions = [], {}, []
        self.level, self.summary = "other", ""


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                ln = ln.strip()
                if not ln:
                    continue
                d = json.loads(ln)
                if d.get("status") == "known" and d["property"] == prop:
                    out.append(d)
    return out


ASSUME = [
    "numpy/scipy/scikit-learn functions are deterministic functions of their arguments with their documented meaning",
    "arithmetic is compared over the reals (algebraic identities), not in floating point",
    "the reference definitions in /verif/ref are the reviewed intended behaviour",
]


def check(prop, tier):
    from . import rules
    res = Result()
    code = Project()
    jobs_n = 0
    if prop in scopes.REF:
        ctx = refcheck.Ctx(code=code)
        sel = scopes.select(prop, [q for q, _ in ctx.obligations])
        cls = dict(ctx.obligations)
        jobs = [(q, cls[q], [c.pattern for c in cs]) for q, cs in sel.items()]
        if not jobs:
            raise AnalysisBroken("no obligations selected for %s" % prop)
        out = refcheck.run(ctx, jobs)
        n = {"equal": 0, "different": 0, "unknown": 0}
        unknown = []
        for q, (d, note) in sorted(out.items()):
            for comp, (st, txt) in d.items():
                n[st] += 1
                if st == "different":
                    res.findings.append(Finding("reference", q, comp, txt))
                elif st == "unknown":
                    unknown.append("%s %s: %s" % (q, comp, txt[:160]))
        jobs_n = len(jobs)
        res.coverage.update(functions_compared=len(jobs), components_compared=sum(n.values()), components_equal=n["equal"],
                            components_different=n["different"], components_undecided=n["unknown"], undecided=unknown[:60],
                            functions=sorted(sel)[:400])
        res.assumptions += ASSUME
    for name, fn in rules.RULES.get(prop, ()):
        fs, cov = fn(code)
        res.findings += [Finding(name, *f) if isinstance(f, tuple) else f for f in fs]
        res.coverage[name] = cov
    res.coverage["program"] = code.stats()
    res.coverage["explanation"] = EXPLAIN if prop in scopes.REF else EXPLAIN_RULE
    res.summary = "%d functions compared with their reference, %s; rules: %s" % (
        jobs_n, {k: v for k, v in res.coverage.items() if k.startswith("components_")}, ", ".join(n for n, _ in rules.RULES.get(prop, ())) or "none")
    return res


EXPLAIN = ("Every listed function of /repo is parsed afresh, lowered to a gated value graph (loops to header values with their next/initial/exit terms, "
           "heap writes to functional updates, internal calls inlined or kept as calls to functions that are obligations of their own), and each component "
           "is compared with the value graph of its reference definition by exact algebraic normal forms and case splits over the gate conditions. "
           "'different' is reported only when every construct involved is interpreted; 'undecided' components are listed.")
EXPLAIN_RULE = "Every construct listed by the rule is enumerated from the freshly parsed source and checked against the rule; counts are per run."
