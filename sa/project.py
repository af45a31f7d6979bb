"""Loading and name resolution: every module of the package under /repo, parsed afresh on
each run, plus (on demand, parse only) the installed third-party classes it inherits from."""
import ast
import glob
import os
import warnings

warnings.simplefilter("ignore", SyntaxWarning)

REPO = os.environ.get("SA_REPO", "/repo")
SITE = sorted(glob.glob("/opt/venv/lib/python3*/site-packages"))
EXT_ROOTS = ("sklearn",)  # third-party packages whose *classes* are parsed for inheritance


class AnalysisBroken(Exception):
    """The analysed program no longer has an anchor the rule needs."""


class FuncInfo:
    def __init__(self, mod, node, cls=None, parent=None):
        self.mod, self.node, self.cls, self.parent = mod, node, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        if cls is not None:
            self.qual = "%s.%s" % (cls.qual, self.name)
        elif parent is not None:
            self.qual = "%s.<%s>" % (parent.qual, self.name)
        else:
            self.qual = "%s.%s" % (mod.name, self.name)
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for n, d in zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]

    @property
    def is_method(self):
        return self.cls is not None and "staticmethod" not in self.decorators

    @property
    def path(self):
        return self.mod.relpath

    def params(self):
        return self.pos + self.kwonly

    def __repr__(self):
        return "<F %s>" % self.qual


class ClassInfo:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = "%s.%s" % (mod.name, node.name)
        self.methods = {}
        self.attrs = {}
        self.fields = []  # dataclass / NamedTuple annotated fields, in order
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = FuncInfo(mod, st, cls=self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields.append((st.target.id, st.value))
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.is_record = any("dataclass" in d for d in self.decorators) or any(
            "NamedTuple" in ast.unparse(b) for b in node.bases
        )

    def __repr__(self):
        return "<C %s>" % self.qual


class Desugar(ast.NodeTransformer):
    """match statements over values as the if chains they stand for; others are left (and given up on by the interpreter)"""

    def __init__(self):
        self.n = 0

    def test(self, p, name):
        subj = lambda: ast.Name(name, ast.Load())
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subj(), [ast.Eq()], [p.value]), []
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subj(), [ast.Is()], [ast.Constant(p.value)]), []
        if isinstance(p, ast.MatchOr):
            ts = [self.test(q, name) for q in p.patterns]
            if any(t is None or t[1] for t in ts):
                return None
            return ast.BoolOp(ast.Or(), [t[0] for t in ts]), []
        if isinstance(p, ast.MatchAs):
            bind = [] if p.name is None else [ast.Assign([ast.Name(p.name, ast.Store())], subj())]
            if p.pattern is None:
                return ast.Constant(True), bind
            t = self.test(p.pattern, name)
            return None if t is None else (t[0], t[1] + bind)
        if isinstance(p, ast.MatchSequence) and isinstance(getattr(self, "subject", None), ast.Tuple):
            els = self.subject.elts
            if len(els) != len(p.patterns) or any(isinstance(e, (ast.Starred,)) for e in els) or any(isinstance(q, ast.MatchStar) for q in p.patterns):
                return None
            out, binds = [], []
            keep, self.subject = self.subject, None
            for i, q in enumerate(p.patterns):
                t = self.test(q, "%s_%d" % (name, i))
                if t is None:
                    self.subject = keep
                    return None
                out.append(t[0])
                binds += t[1]
            self.subject = keep
            return (out[0] if len(out) == 1 else ast.BoolOp(ast.And(), out)), binds
        return None

    def visit_Match(self, n):
        self.generic_visit(n)
        self.n += 1
        name = "_match_subject_%d" % self.n
        self.subject = n.subject
        tests = [self.test(c.pattern, name) for c in n.cases]
        self.subject = None
        if any(t is None or (c.guard is not None and t[1]) for t, c in zip(tests, n.cases)):
            return n
        pre = []
        if isinstance(n.subject, ast.Tuple):
            for i, e in enumerate(n.subject.elts):
                pre.append(ast.Assign([ast.Name("%s_%d" % (name, i), ast.Store())], e))
            v = ast.Tuple([ast.Name("%s_%d" % (name, i), ast.Load()) for i in range(len(n.subject.elts))], ast.Load())
        else:
            v = n.subject
        pre.append(ast.Assign([ast.Name(name, ast.Store())], v))
        rest = []
        for (t, binds), c in reversed(list(zip(tests, n.cases))):
            if c.guard is not None:
                t = c.guard if isinstance(t, ast.Constant) else ast.BoolOp(ast.And(), [t, c.guard])
            body = binds + c.body
            if isinstance(t, ast.Constant):
                rest = body
            else:
                rest = [ast.If(t, body, rest)]
        out = pre + rest
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out


class Leave(ast.NodeTransformer):
    """return e  ->  _left_with = e; break"""

    def skip(self, n):
        return n

    visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_For = visit_While = visit_AsyncFunctionDef = skip

    def visit_Return(self, n):
        v = n.value if n.value is not None else ast.Constant(None)
        return [ast.copy_location(ast.Assign([ast.copy_location(ast.Name("_left_with", ast.Store()), n)], ast.copy_location(v, n) if n.value is None else v), n),
                ast.copy_location(ast.Break(), n)]


def own(loop):
    """statements of a loop that are not in a loop or function of their own"""
    todo = list(loop.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.For, ast.While, ast.AsyncFunctionDef)):
            continue
        yield x
        todo += list(ast.iter_child_nodes(x))


def leave_by_break(fn):
    """a loop that is left by a return, as one that is left by a break and followed by the return"""
    for k, s in enumerate(fn.body):
        if not isinstance(s, (ast.For, ast.While)) or s.orelse:
            continue
        rets = {id(x) for x in own(s) if isinstance(x, ast.Return)}
        if not rets or any(isinstance(x, ast.Break) for x in own(s)):
            continue
        inner = {id(x) for y in ast.walk(s) if isinstance(y, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)) and y is not s for x in ast.walk(y) if isinstance(x, ast.Return)}
        if inner:
            continue
        rest = fn.body[k + 1:]
        s.body = [y for x in s.body for y in (lambda r: r if isinstance(r, list) else [r])(Leave().visit(x))]
        if not (isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value):
            end = ast.copy_location(ast.Return(ast.copy_location(ast.Constant(None), s)), s)
            tail = ast.FunctionDef(body=rest)
            leave_by_break(tail)
            rest = tail.body
            s.orelse = rest if rest and isinstance(rest[-1], (ast.Return, ast.Raise)) else rest + [end]
        fn.body = fn.body[:k] + [s, ast.copy_location(ast.Return(ast.copy_location(ast.Name("_left_with", ast.Load()), s)), s)]
        return


def desugared(tree):
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
            leave_by_break(fn)
    if any(isinstance(x, ast.Match) for x in ast.walk(tree)):
        tree = Desugar().visit(tree)
    return tree


class Module:
    def __init__(self, name, path, external=False, src=None):
        self.name, self.path, self.external = name, path, external
        self.spec = False
        self.is_pkg = os.path.basename(path) == "__init__.py"
        if src is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
        self.src = src
        self.tree = desugared(ast.parse(self.src, path))
        self.relpath = os.path.relpath(path, REPO) if not external else path
        self.imports = {}  # local name -> dotted target
        self.stars = []
        self.functions, self.classes, self.assigns = {}, {}, {}
        self._collect(self.tree.body)

    def _abs(self, module, level):
        if not level:
            return module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([module] if module else []))

    def add_import(self, st, table):
        if isinstance(st, ast.Import):
            for al in st.names:
                if al.asname:
                    table[al.asname] = al.name
                else:
                    table[al.name.split(".")[0]] = al.name.split(".")[0]
        else:
            base = self._abs(st.module, st.level)
            for al in st.names:
                if al.name == "*":
                    self.stars.append(base)
                else:
                    table[al.asname or al.name] = base + "." + al.name

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                self.add_import(st, self.imports)
            elif isinstance(st, ast.FunctionDef):
                self.functions[st.name] = FuncInfo(self, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.assigns[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                self._collect(st.body)
                self._collect(getattr(st, "orelse", []))
                for h in getattr(st, "handlers", []):
                    self._collect(h.body)
                self._collect(getattr(st, "finalbody", []))


class Project:
    def __init__(self, repo=None, overlay=None):
        """overlay: relative path -> source text used instead of the file (self-tests of the checker)"""
        overlay = overlay or {}
        self.repo = repo or REPO
        self.modules = {}
        self.ext = {}
        self._mro = {}
        root = os.path.join(self.repo, "regain")
        if not os.path.isdir(root):
            raise AnalysisBroken("package directory %s is missing" % root)
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            rel = os.path.relpath(dp, self.repo).split(os.sep)
            if "tests" in rel or "__pycache__" in rel:
                continue
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                name = ".".join(rel + ([] if f == "__init__.py" else [f[:-3]]))
                try:
                    m = Module(name, path, src=overlay.get(os.path.relpath(path, self.repo)))
                except SyntaxError as e:
                    raise AnalysisBroken("%s does not parse: %s" % (path, e))
                m.relpath = os.path.relpath(path, self.repo)
                self.modules[name] = m

    def add_spec(self, name, path):
        """Reference definitions (written in Python, never executed) analysed by the same machinery."""
        m = Module(name, path)
        m.spec = True
        m.relpath = os.path.relpath(path, os.path.dirname(os.path.dirname(path)))
        self.modules[name] = m
        return m

    # -- external modules -------------------------------------------------------------
    def ext_module(self, name):
        if name in self.ext:
            return self.ext[name]
        m = None
        if name.split(".")[0] in EXT_ROOTS:
            for s in SITE:
                p = os.path.join(s, *name.split("."))
                for cand in (p + ".py", os.path.join(p, "__init__.py")):
                    if os.path.isfile(cand):
                        try:
                            m = Module(name, cand, external=True)
                        except (SyntaxError, UnicodeDecodeError):
                            m = None
                        break
                if m:
                    break
        self.ext[name] = m
        return m

    def module(self, name):
        return self.modules.get(name) or self.ext_module(name)

    # -- resolution -------------------------------------------------------------------
    def resolve_dotted(self, dotted, _seen=None):
        """-> ('func', F) | ('class', C) | ('mod', name) | ('const', mod, ast) | ('ext', dotted)"""
        _seen = _seen or set()
        if dotted in _seen:
            return ("ext", dotted)
        _seen.add(dotted)
        if dotted.startswith("six.moves."):
            return ("ext", "builtins." + dotted.split(".", 2)[2])
        if dotted in self.modules:
            return ("mod", dotted)
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            m = self.module(mn)
            if m is None:
                continue
            r = self.resolve_in(m, parts[i], _seen)
            if r is None:
                if m.external:
                    sub = self.ext_module(mn + "." + parts[i])
                    if sub is not None and i == len(parts) - 1:
                        return ("mod", sub.name)
                    return ("ext", dotted)
                return ("missing", dotted)
            for extra in parts[i + 1:]:
                if r[0] == "class":
                    c = r[1]
                    f = self.find_method(c, extra)
                    if f is not None:
                        r = ("func", f)
                        continue
                    return ("ext", dotted)
                if r[0] == "mod":
                    return self.resolve_dotted(r[1] + "." + ".".join(parts[parts.index(extra):]), _seen)
                return ("ext", dotted)
            return r
        return ("ext", dotted)

    def resolve_in(self, m, name, _seen=None):
        if name in m.functions:
            return ("func", m.functions[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.imports:
            return self.resolve_dotted(m.imports[name], _seen)
        if name in m.assigns:
            return ("const", m, name)
        for s in m.stars:
            sm = self.module(s)
            if sm is not None:
                r = self.resolve_in(sm, name, _seen)
                if r is not None:
                    return r
        if m.is_pkg and (m.name + "." + name) in self.modules:
            return ("mod", m.name + "." + name)
        return None

    def resolve_expr(self, m, node):
        """Resolve Name / dotted Attribute at module level of m."""
        if isinstance(node, ast.Name):
            r = self.resolve_in(m, node.id)
            return r if r is not None else ("ext", "builtins." + node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(m, node.value)
            if b is None:
                return None
            return self.member(b, node.attr)
        return None

    def member(self, b, attr):
        if b[0] == "mod":
            mm = self.module(b[1])
            if mm is None:
                return ("ext", b[1] + "." + attr)
            r = self.resolve_in(mm, attr)
            if r is None:
                if mm.external:
                    return ("ext", b[1] + "." + attr)
                return ("missing", b[1] + "." + attr)
            return r
        if b[0] == "ext":
            return self.resolve_dotted(b[1] + "." + attr) if b[1].split(".")[0] in EXT_ROOTS else ("ext", b[1] + "." + attr)
        if b[0] == "class":
            f = self.find_method(b[1], attr)
            return ("func", f) if f else None
        return None

    # -- classes ----------------------------------------------------------------------
    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = self.resolve_expr(c.mod, b)
            if r and r[0] == "class":
                out.append(r[1])
            elif r and r[0] == "ext":
                out.append(r[1])
        return out

    def mro(self, c):
        if c.qual in self._mro:
            return self._mro[c.qual]
        self._mro[c.qual] = [c]
        seqs = []
        bs = self.bases(c)
        for b in bs:
            seqs.append(list(self.mro(b)) if isinstance(b, ClassInfo) else [b])
        seqs.append(list(bs))
        res = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            seqs = [[x for x in s if x is not h and x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        self._mro[c.qual] = res
        return res

    def find_method(self, c, name, after=None):
        ms = self.mro(c)
        if after is not None:
            idx = [i for i, x in enumerate(ms) if x is after or (isinstance(x, ClassInfo) and x.qual == after.qual)]
            ms = ms[idx[0] + 1:] if idx else []
        for x in ms:
            if isinstance(x, ClassInfo) and name in x.methods:
                return x.methods[name]
        return None

    def find_attr(self, c, name):
        for x in self.mro(c):
            if isinstance(x, ClassInfo) and name in x.attrs:
                return x, x.attrs[name]
        return None

    def is_estimator(self, c):
        return any((isinstance(x, ClassInfo) and x.name == "BaseEstimator") or x == "sklearn.base.BaseEstimator"
                   for x in self.mro(c))

    def all_classes(self):
        for m in self.modules.values():
            if m.spec:
                continue
            for c in m.classes.values():
                yield c

    def all_functions(self):
        for m in self.modules.values():
            if m.spec:
                continue
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f

    def func(self, dotted):
        r = self.resolve_dotted(dotted)
        if r[0] != "func":
            raise AnalysisBroken("function %s not found" % dotted)
        return r[1]

    def cls(self, dotted):
        r = self.resolve_dotted(dotted)
        if r[0] != "class":
            raise AnalysisBroken("class %s not found" % dotted)
        return r[1]

    def stats(self):
        return {
            "modules": sum(1 for m in self.modules.values() if not m.spec),
            "functions": sum(1 for _ in self.all_functions()),
            "classes": sum(1 for _ in self.all_classes()),
        }
