"""Rules over the events of the value-graph construction (stores, attribute writes, calls, reads), one per property.

Every public function and method of the package is lowered once with all package calls expanded; each rule
inspects the recorded events.  A rule reports a specific construct; what it cannot decide it counts."""
import ast
import os
import re
import signal

from .project import Project, ClassInfo, AnalysisBroken
from .terms import *
from .terms import mk
from .vg import Interp, Arr, Obj
from .terms import const
from .compare import compare
from . import refcheck, scopes

# helpers whose documented purpose is to change their argument in place
IN_PLACE = {
    "regain.utils.normalize_matrix": "rescales the matrix in place by documented contract",
    "regain.utils.ensure_posdef": "inplace=True by documented option",
    "regain.math.fill_diagonal": "fills the diagonal in place, like numpy.fill_diagonal",
}
# helpers whose documented purpose is to reconfigure the process
CONFIGURERS = {"regain.utils.suppress_stdout": "context manager that redirects and restores sys.stdout",
               "regain.utils.init_logger": "sets up logging on request"}
# not part of the estimation/scoring/evaluation interface
NOT_ESTIMATION = re.compile(r"^regain\.(datasets|data|plotting|scripts)\b|\.plot|\.wrapper\.")
SAMPLERS = re.compile(r"^regain\.bayesian\.")
PURE_METHODS = re.compile(r"^(score|predict\w*|transform|error_norm|get_\w+|decision_function|_decision_function|mahalanobis|logpdf|pdf)$")
BAD_NUMPY = {"numpy." + x for x in ("int", "float", "bool", "object", "complex", "str", "long", "unicode", "typeDict")}
CONFIG = {"numpy.seterr", "numpy.set_printoptions", "os.chdir", "os.putenv", "sys.setrecursionlimit", "logging.basicConfig", "numpy.seterrcall",
          "os.umask", "signal.signal", "locale.setlocale", "sklearn.set_config", "warnings.resetwarnings", "matplotlib.use"}
FILTER = {"warnings.filterwarnings", "warnings.simplefilter"}


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def lower(p, qual, cq, atoms=()):
    f, c = refcheck.locate(p, qual, cq)
    i = Interp(p, atoms)
    return i, i.run_function(f, self_cls=c or f.cls), f, c


def ctor_params(p, c):
    init = p.find_method(c, "__init__")
    if init is None or init.mod.external and not init.pos:
        return []
    return [x for x in init.pos[1:] + init.kwonly]


def site(e, f):
    """the construct: function it lies in, and the entry point it was reached from"""
    return e["func"]


def array_evidence(interp, t):
    """is the value t used as an array anywhere in this lowering"""
    seen = set()
    terms = []
    for e in interp.events:
        for k in ("value", "pc", "term", "cond", "rvalue", "recv"):
            v = e.get(k)
            if isinstance(v, T):
                terms.append(v)
        for k in ("args",):
            for v in e.get(k) or ():
                if isinstance(v, T):
                    terms.append(v)
    for x in terms:
        for y in walk(x, seen):
            if y.op in ("idx", "tr", "diag", "len") and y.args[0] is t:
                return True
            if y.op == "attr" and y.args[0] is t and y.args[1] in ("shape", "ndim", "T", "size", "dtype", "copy", "sum", "mean", "dot", "ravel"):
                return True
            if y.op == "bin" and y.args[0] == "@" and t in y.args[1:]:
                return True
    return False


def infeasible(pc):
    """the path condition is contradictory (case split over its gate conditions)"""
    if pc.op == "const":
        return not pc.args[0]
    return compare(ite(pc, const(1), const(0)), const(0), limit=400).status == "equal"


# ---------------------------------------------------------------- C01
def c01_one(p, q, cq):
    i, r, f, c = lower(p, q, cq)
    out, n, und = [], 0, []
    fields = r.fields() if r.st is not None else {}
    dyn = any(e["kind"] == "setattr" and e["field"] is None for e in i.events)
    init = p.find_method(c, "__init__")
    for name in init.pos[1:] + init.kwonly:
        n += 1
        v = fields.get(name)
        if v is None:
            if dyn or init.kwarg:
                und.append("%s.%s" % (cq, name))
            else:
                out.append(("constructor", cq, "argument %s is not stored" % name, "no attribute of that name is set by __init__", init.node.lineno))
            continue
        if v.op == "param" and v.args[-1] == name:
            continue
        out.append(("constructor", cq, "argument %s is not stored unchanged" % name, "self.%s = %s" % (name, show(v)[:200]), init.node.lineno))
    return out, n, und


# ---------------------------------------------------------------- C02
def c02_one(p, q, cq):
    i, r, f, c = lower(p, q, cq)
    params = set(ctor_params(p, c))
    out, n, und = [], 0, []
    selfobj = mk("selfobj")
    for e in i.events:
        if e["kind"] == "setattr":
            n += 1
            if selfobj in e["roots"]:
                if e["field"] in params and e.get("rvalue") is not mk("self0", e["field"]):
                    out.append(("rebinds", q, "self.%s is reassigned in %s" % (e["field"], e["func"]), "", e["line"]))
            else:
                for t in e["roots"]:
                    if t.op == "self0" and t.args[0] in params:
                        out.append(("mutates", q, "attribute %s of hyper-parameter %s is set in %s" % (e["field"], t.args[0], e["func"]), "", e["line"]))
        elif e["kind"] == "delattr":
            if e["field"] in params:
                out.append(("rebinds", q, "self.%s is deleted in %s" % (e["field"], e["func"]), "", e["line"]))
        elif e["kind"] == "store":
            n += 1
            for t in e["roots"]:
                while t is not None and t.op == "attr":
                    t = t.args[0]
                if t is not None and t.op == "self0" and t.args[0] in params:
                    if e["mode"] == "aug?" and not array_evidence(i, t):
                        und.append("%s line %d: %s may be a number" % (e["func"], e["line"], show(t)))
                        continue
                    out.append(("mutates", q, "hyper-parameter %s is modified in place in %s" % (t.args[0], e["func"]), e["mode"], e["line"]))
        elif e["kind"] == "fitcall":
            n += 1
            for t in e["roots"]:
                if t.op == "self0" and t.args[0] in params:
                    out.append(("mutates", q, "hyper-parameter %s is fitted in place in %s" % (t.args[0], e["func"]), "", e["line"]))
    return out, n, und


# ---------------------------------------------------------------- C04
def c04_one(p, q, cq):
    i, r, f, c = lower(p, q, cq)
    out, n, und = [], 0, []
    if f.qual in IN_PLACE:
        return out, 0, ["%s: %s" % (f.qual, IN_PLACE[f.qual])]
    for e in i.events:
        if e["kind"] == "store":
            n += 1
            for t in e["roots"]:
                while t is not None and t.op == "attr":
                    t = t.args[0]
                if t is None or t.op != "param":
                    continue
                if e["mode"] == "aug?" and not array_evidence(i, t):
                    und.append("%s line %d: %s may be a number" % (e["func"], e["line"], show(t)))
                    continue
                out.append(("caller-array", q, "argument %s is modified in place in %s" % (t.args[-1], e["func"]), e["mode"], e["line"]))
    return out, n, und


# ---------------------------------------------------------------- C15
def verbose_gated(pc):
    for x in walk(pc):
        if x.op in ("param", "self0") and re.search(r"verb|log_print|debug", str(x.args[-1])):
            return True
    return False


# estimators and helpers of scikit-learn that draw from numpy's global generator unless given random_state
STOCHASTIC = {"LogisticRegression", "LinearSVC", "KMeans", "MiniBatchKMeans", "GaussianMixture", "BayesianGaussianMixture", "SGDClassifier", "SGDRegressor",
              "RandomForestClassifier", "RandomForestRegressor", "train_test_split", "resample", "shuffle", "randomized_svd"}


def unseeded(e):
    if e["kind"] not in ("ext", "construct"):
        return None
    name = e["q"] if e["kind"] == "ext" else e["cls"]
    x, d = name.split(".")[-1], e["kw"]
    if not name.startswith("sklearn.") or x not in STOCHASTIC or "**" in d:
        return None
    if x == "LogisticRegression" and not ("solver" in d and is_const(d["solver"], "liblinear", "sag", "saga")):
        return None
    return x if "random_state" not in d or is_const(d["random_state"], None) else None


def c15_one(p, q, cq):
    i, r, f, c = lower(p, q, cq)
    out, n, und = [], 0, []
    params = set(ctor_params(p, c)) if c is not None else set()
    selfobj = mk("selfobj")
    pure = cq is not None and PURE_METHODS.match(f.name)
    sampler = bool(SAMPLERS.match(q))
    seen = set()
    if q in CONFIGURERS:
        return [], 0, ["%s: %s" % (q, CONFIGURERS[q])]
    for e in i.events:
        k = e["kind"]
        x = unseeded(e)
        if x:
            out.append(("random", q, "%s without random_state in %s" % (x, e["func"]), "draws from the global random generator", e["line"]))
        if k == "ext":
            n += 1
            name, a, kw = e["q"], e["args"], e["kw"]
            if name == "builtins.print":
                if any(x.op in ("kwopt", "opaque", "unbound", "dictcomp") for x in walk(e["pc"])):
                    und.append("%s line %d: condition of print not interpreted" % (e["func"], e["line"]))
                elif not verbose_gated(e["pc"]) and not (kw and "file" in kw):
                    out.append(("prints", q, "print in %s is not conditional on verbose" % e["func"], show(e["pc"])[:200], e["line"]))
            elif name.startswith("numpy.random.") or name.startswith("random."):
                tail = name.split(".")[-1]
                if tail in ("RandomState", "default_rng", "Random", "SeedSequence", "Generator") and (a or kw) and not any(is_const(x, None) for x in a):
                    continue
                if tail == "seed" or not sampler:
                    out.append(("random", q, "%s in %s" % (name, e["func"]), "draws from or reseeds the global random generator", e["line"]))
            elif name in ("os.urandom", "uuid.uuid4", "uuid.uuid1") or name.startswith("secrets."):
                out.append(("random", q, "%s in %s" % (name, e["func"]), "", e["line"]))
            elif name in CONFIG or name in FILTER and not any("catch_warnings" in x for x in e["ctx"]):
                out.append(("configures", q, "%s in %s" % (name, e["func"]), "", e["line"]))
            elif name == "sklearn.utils.check_random_state" and a and is_const(a[0], None):
                out.append(("random", q, "check_random_state(None) in %s" % e["func"], "", e["line"]))
        elif k == "method" and e["attr"] == "rvs" and not sampler and "random_state" not in e["kw"]:
            out.append(("random", q, "rvs without random_state in %s" % e["func"], "", e["line"]))
        elif k == "global_store":
            out.append(("global", q, "module variable %s is rebound in %s" % (e["name"], e["func"]), "", e["line"]))
        elif k == "globmut":
            out.append(("global", q, "shared object %s is modified in %s" % (show(e["target"]), e["func"]), e["mode"], e["line"]))
        elif k == "setattr":
            n += 1
            b = e["obj"]
            if b.op == "glob" or (b.op != "ref" and any(x.op == "attr" and x.args[1] == "__class__" or x.op == "glob" and x.args[0] in ("class", "func") for x in walk(b))):
                out.append(("global", q, "attribute %s of %s is set in %s" % (e["field"], show(b), e["func"]), "", e["line"]))
            if pure and selfobj in e["roots"] and read_elsewhere(p, c, e["field"], e["func"], i):
                out.append(("state", q, "self.%s is set by a method that only evaluates (%s)" % (e["field"], e["func"]), "", e["line"]))
        elif k == "store":
            n += 1
            for t in e["roots"]:
                if t is None:
                    continue
                if pure and t.op == "self0" and not (e["mode"] == "aug?" and not array_evidence(i, t)):
                    out.append(("state", q, "self.%s is modified in place by a method that only evaluates (%s)" % (t.args[0], e["func"]), e["mode"], e["line"]))
                if t.op == "param":
                    d = f.defaults.get(t.args[-1])
                    if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call) and not isinstance(d.func, ast.Lambda):
                        out.append(("default", q, "default argument %s is modified in place in %s" % (t.args[-1], e["func"]), e["mode"], e["line"]))
        elif k == "self_read" and f.name in ("fit", "_fit", "fit_predict", "fit_transform"):
            n += 1
            x = e["field"]
            if x.endswith("_") and not x.startswith("_") and x not in params and x not in seen and "warm_start" not in params:
                seen.add(x)
                if fitted_here(p, c, x):
                    out.append(("history", q, "reads self.%s left by an earlier fit in %s" % (x, e["func"]), "", e["line"]))
    for d in ("lru_cache", "cache", "functools.lru_cache", "functools.cache"):
        if any(x.split("(")[0] == d for x in f.decorators):
            out.append(("global", q, "memoised with %s" % d, "", f.node.lineno))
    return out, n, und


def fitted_here(p, c, x):
    """is attribute x assigned by some method of the class other than the constructor"""
    for k in p.mro(c):
        if isinstance(k, ClassInfo):
            for m in k.methods.values():
                if m.name == "__init__":
                    continue
                for a in ast.walk(m.node):
                    if isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Store) and a.attr == x:
                        return True
    return False


def read_elsewhere(p, c, x, func, interp):
    """can a later call observe attribute x: it is read before being set here, or read by another method"""
    if any(e["kind"] == "self_read" and e["field"] == x for e in interp.events):
        return True
    ks = [k for k in p.all_classes() if c in p.mro(k)] + [k for k in p.mro(c) if isinstance(k, ClassInfo) and not k.mod.external]
    for k in ks:
        for m in k.methods.values():
            if m.qual != func:
                for a in ast.walk(m.node):
                    if isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Load) and a.attr == x:
                        return True
    return False


def c15_modules(p):
    """module-level statements executed at import"""
    out, n = [], 0
    for m in p.modules.values():
        if NOT_ESTIMATION.search(m.name):
            continue
        for st in m.tree.body:
            for x in ast.walk(st) if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.Call):
                    n += 1
                    r = p.resolve_expr(m, x.func)
                    if r is not None and r[0] == "ext" and (r[1] in CONFIG or r[1] in FILTER or r[1] == "builtins.print" or r[1].startswith("numpy.random.")):
                        out.append(("import", m.name, "%s at import" % r[1], "", x.lineno))
    return out, n


# ---------------------------------------------------------------- C16
def filler(p, k, mod, node, f):
    """definitions a call may refer to: a nested function, a function of the project, a method of the class"""
    if isinstance(f, ast.Name):
        out = [x for x in ast.walk(node) if isinstance(x, ast.FunctionDef) and x.name == f.id and x is not node]
        if out:
            return out
    if isinstance(f, ast.Attribute):
        for c in p.mro(k):
            if isinstance(c, ClassInfo) and f.attr in c.methods:
                return [c.methods[f.attr].node]
    r = p.resolve_expr(mod, f)
    if r is not None and r[0] == "func":
        return [p.func(r[1]).node if isinstance(r[1], str) else r[1].node]
    return []


def self_attrs(p, c):
    s = set()
    for k in p.mro(c):
        if isinstance(k, ClassInfo):
            s |= set(k.methods) | set(k.attrs)
            for m in k.methods.values():
                if not m.pos:
                    continue
                me = m.pos[0]
                todo, seen = [(m.node, k.mod, {me})], set()
                while todo:
                    node, mod, names = todo.pop()
                    for a in ast.walk(node):
                        if isinstance(a, ast.Assign) and isinstance(a.value, ast.Name) and a.value.id in names:
                            # another name of the object
                            names = names | {t.id for t in a.targets if isinstance(t, ast.Name)}
                        if isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Store) and isinstance(a.value, ast.Name) and a.value.id in names:
                            s.add(a.attr)
                        if mod.external:
                            continue
                        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ("setattr", "vars") or \
                                isinstance(a, ast.Attribute) and a.attr in ("__dict__", "__setattr__"):
                            return None
                        if isinstance(a, ast.Call):
                            # the object handed to a function that fills it in
                            given = [(i, None) for i, x in enumerate(a.args) if isinstance(x, ast.Name) and x.id in names] + \
                                    [(None, w.arg) for w in a.keywords if isinstance(w.value, ast.Name) and w.value.id in names]
                            if not given:
                                continue
                            for fn in filler(p, k, mod, node, a.func):
                                pos = [x.arg for x in fn.args.posonlyargs + fn.args.args]
                                off = 1 if isinstance(a.func, ast.Attribute) and isinstance(a.func.value, ast.Name) and a.func.value.id in names \
                                    and len(pos) > len(a.args) else 0
                                ps = frozenset([pos[i + off] for i, _ in given if i is not None and i + off < len(pos)] + [w for _, w in given if w])
                                if ps and (id(fn), ps) not in seen:
                                    seen.add((id(fn), ps))
                                    todo.append((fn, mod, set(ps)))
        elif k not in ("object", "builtins.object"):
            return None
    return s


def c16_one(p, q, cq):
    i, r, f, c = lower(p, q, cq)
    out, n, und = [], 0, []
    attrs = {}
    for e in i.events:
        k = e["kind"]
        if k == "unbound":
            n += 1
            if not e.get("local"):
                out.append(("name", q, "name %s in %s is not defined" % (e["name"], e["func"]), "", e["line"]))
            else:
                out.append(("name", q, "local variable %s in %s is read before it is set" % (e["name"], e["func"]), "", e["line"]))
        elif k == "load":
            out.append(("name", q, "variable %s in %s is read where it is never set" % (e["name"], e["func"]), "", e["line"]))
        elif k == "missing_import":
            out.append(("import", q, "%s does not exist (used in %s)" % (e["name"], e["func"]), "", e["line"]))
        elif k == "call":
            n += 1
            for x in e["problems"] if e["problems"] and not infeasible(e["pc"]) else ():
                out.append(("call", q, "call of %s in %s: %s" % (e["callee"], e["func"], x), "", e["line"]))
        elif k == "unpack":
            n += 1
            for cond, ar in e["arity"] or ():
                if ar is not None and not e["star"] and ar != e["n"] and not infeasible(conj(e["pc"], cond)):
                    out.append(("unpack", q, "%d values unpacked into %d names in %s" % (ar, e["n"], e["func"]), show(cond)[:200], e["line"]))
        elif k == "self_read":
            n += 1
            cl = e["cls"]
            if cl is None:
                continue
            if cl not in attrs:
                attrs[cl] = self_attrs(p, p.cls(cl))
            if attrs[cl] is not None and e["field"] not in attrs[cl] and not e["field"].startswith("__"):
                out.append(("attribute", q, "self.%s read in %s is never set by class %s" % (e["field"], e["func"], cl), "", e["line"]))
        elif k == "ext":
            n += 1
            if e["q"] in BAD_NUMPY:
                out.append(("import", q, "%s does not exist (used in %s)" % (e["q"], e["func"]), "", e["line"]))
    return out, n, und


# ---------------------------------------------------------------- driver
_p = None
_f = None


def _job(j):
    q, cq = j
    old = signal.signal(signal.SIGALRM, _alarm)
    try:
        signal.alarm(120)
        r = _f(_p, q, cq)
        signal.alarm(0)
        return q, r, None
    except Timeout:
        return q, None, "time limit"
    except AnalysisBroken as e:
        return q, None, str(e)
    except RecursionError:
        return q, None, "recursion limit"
    except Exception as e:
        import traceback
        return q, None, "internal %r %s" % (e, traceback.format_exc()[-400:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def sweep(p, fn, jobs):
    global _p, _f
    import multiprocessing as mp
    _p, _f = p, fn
    heavy = re.compile(r"ising_sampler|glm_time|[kK]ernel|[sS]imilarity|atent[tT_]|[tT]ime")
    jobs = sorted(jobs, key=lambda j: 0 if heavy.search(j[0]) else 1)
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 2)) as pool:
        res = list(pool.imap_unordered(_job, jobs, chunksize=1))
    finds, n, und, skipped = {}, 0, set(), []
    for q, r, err in res:
        if err:
            skipped.append("%s: %s" % (q, err))
            continue
        out, k, u = r
        n += k
        und |= set(u)
        for rule, where, what, detail, line in out:
            # one report per construct: the same statement reached from several entry points counts once
            key = (rule, what)
            if key not in finds or where < finds[key][1]:
                finds[key] = (rule, where, what, detail, line)
    return list(finds.values()), dict(entry_points=len(jobs), sites=n, undecided=sorted(und)[:60], not_analysed=sorted(skipped)[:40])


def private_functions(p):
    for m in p.modules.values():
        for f in m.functions.values():
            if f.name.startswith("_"):
                yield f.qual, None
        for c in m.classes.values():
            for n in c.methods:
                if n.startswith("_") and n != "__init__":
                    yield c.qual + "." + n, c.qual


def rule(name, fn, select, floor, extra=None, private=False):
    def run(p):
        src = list(refcheck.public_obligations(p))
        if private:
            src = list(dict.fromkeys(src + list(private_functions(p))))
        jobs = [(q, c) for q, c in src if select(p, q, c) and not scopes.SKIP.search(q)]
        if len(jobs) < floor:
            raise AnalysisBroken("%s: only %d entry points found, expected at least %d" % (name, len(jobs), floor))
        fs, cov = sweep(p, fn, jobs)
        if extra is not None:
            f2, n2 = extra(p)
            fs += f2
            cov["module_level_calls"] = n2
        from .engine import Finding
        return [Finding(*f) for f in fs], cov
    return name, run


def _est(p, q, c):
    return c is not None and p.is_estimator(p.cls(c))


SELECT = {
    "C01": lambda p, q, c: _est(p, q, c) and q.endswith(".__init__"),
    "C02": lambda p, q, c: _est(p, q, c) and not q.endswith((".__init__", ".set_params")),
    "C04": lambda p, q, c: not q.endswith(".__init__"),
    "C15": lambda p, q, c: not NOT_ESTIMATION.search(q) and not q.endswith(".__init__"),
    "C16": lambda p, q, c: True,
}
def c23_one(p, q, cq):
    out, n, und = c02_one(p, q, cq)
    return [x for x in out if "modified in place" in x[2] or x[2].startswith("attribute")], n, und


SELECT["C23"] = lambda p, q, c: SELECT["C02"](p, q, c) and q.startswith("regain.discriminant_analysis.")
RULES = {
    "C23": [rule("the wrapped estimator is not altered", c23_one, SELECT["C23"], 2)],
    "C01": [rule("constructor stores its arguments", c01_one, SELECT["C01"], 20)],
    "C02": [rule("hyper-parameters are never written", c02_one, SELECT["C02"], 60)],
    "C04": [rule("no store through a parameter", c04_one, SELECT["C04"], 200)],
    "C15": [rule("no global effects", c15_one, SELECT["C15"], 150, c15_modules)],
    "C16": [rule("names, calls, unpackings and attributes resolve", c16_one, SELECT["C16"], 300, private=True)],
}
