"""Parses the package and resolves names, classes and annotations. Nothing is imported or executed."""
import ast
import os


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished or a file does not parse: the check has no verdict."""


class FuncInfo:
    def __init__(self, module, node, qualname, cls=None):
        self.module = module
        self.node = node
        self.qualname = qualname
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')
        self.decorators = [dec_name(d) for d in getattr(node, 'decorator_list', [])]
        a = node.args
        self.posonly = [p.arg for p in a.posonlyargs]
        self.params = self.posonly + [p.arg for p in a.args]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for name, d in zip(self.params[len(self.params) - len(a.defaults):], a.defaults):
            self.defaults[name] = d
        for name, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[name] = d
        self.annotations = {p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs}
        self.returns = getattr(node, 'returns', None)
        self._scope()

    def _scope(self):
        loc, glob, nonl = set(self.params) | set(self.kwonly), set(), set()
        if self.vararg:
            loc.add(self.vararg)
        if self.kwarg:
            loc.add(self.kwarg)
        self.is_generator = False
        body = self.node.body if isinstance(self.node.body, list) else [self.node.body]

        def targets(t):
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    loc.add(n.id)

        def walk(n, comp=False):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                loc.add(n.name)
                for d in n.decorator_list:
                    walk(d, comp)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                comp = True
            if isinstance(n, ast.Global):
                glob.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                nonl.update(n.names)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_generator = True
            elif isinstance(n, ast.NamedExpr):
                loc.add(n.target.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not comp:
                loc.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    loc.add((al.asname or al.name).split('.')[0])
            elif isinstance(n, ast.MatchAs) and n.name:
                loc.add(n.name)
            elif isinstance(n, ast.MatchStar) and n.name:
                loc.add(n.name)
            for c in ast.iter_child_nodes(n):
                walk(c, comp)

        for s in body:
            walk(s)
        self.locals = loc - glob - nonl
        self.globals = glob
        self.nonlocals = nonl

    @property
    def where(self):
        return f'{self.module.relpath}:{self.node.lineno} {self.qualname}'

    def __repr__(self):
        return f'<func {self.module.name}.{self.qualname}>'


def dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return '?'


class ClassInfo:
    def __init__(self, module, node, qualname, outer=None):
        self.module = module
        self.node = node
        self.name = node.name
        self.qualname = qualname
        self.outer = outer
        self.fullname = f'{module.name}.{qualname}'
        self.methods = {}
        self.attrs = {}          # name -> value node
        self.annotations = {}    # name -> annotation node (in order)
        self.nested = {}
        self.decorators = [dec_name(d) for d in node.decorator_list]
        self.decorator_nodes = node.decorator_list
        self._collect(node.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # property setters / overloads: the last plain definition wins, as at runtime
                if any(dec_name(d) in ('setter', 'deleter', 'overload') for d in s.decorator_list):
                    continue
                self.methods[s.name] = FuncInfo(self.module, s, f'{self.qualname}.{s.name}', self)
            elif isinstance(s, ast.ClassDef):
                self.nested[s.name] = ClassInfo(self.module, s, f'{self.qualname}.{s.name}', self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.annotations[s.target.id] = s.annotation
                if s.value is not None:
                    self.attrs[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._collect(s.body)
                self._collect(s.orelse)

    @property
    def is_dataclass(self):
        return 'dataclass' in self.decorators

    @property
    def is_frozen(self):
        for d in self.decorator_nodes:
            if isinstance(d, ast.Call) and dec_name(d) == 'dataclass':
                for k in d.keywords:
                    if k.arg == 'frozen' and isinstance(k.value, ast.Constant):
                        return bool(k.value.value)
        return False

    def __repr__(self):
        return f'<class {self.fullname}>'


class Module:
    def __init__(self, name, path, relpath, is_pkg):
        self.name, self.path, self.relpath, self.is_pkg = name, path, relpath, is_pkg
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        try:
            self.tree = ast.parse(self.source, path)
        except SyntaxError as e:
            raise AnalysisBroken(f'{relpath} does not parse: {e}')
        self.bindings = {}   # name -> list of (kind, payload)
        self.stars = []      # modules star-imported
        self.functions = []
        self.classes = []
        self._collect(self.tree.body)

    def bind(self, name, kind, payload):
        self.bindings.setdefault(name, []).append((kind, payload))

    def absolute(self, level, mod):
        if level == 0:
            return mod
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([mod] if mod else []))

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(dec_name(d) == 'overload' for d in s.decorator_list):
                    continue
                fi = FuncInfo(self, s, s.name)
                self.functions.append(fi)
                self.bind(s.name, 'func', fi)
            elif isinstance(s, ast.ClassDef):
                ci = ClassInfo(self, s, s.name)
                self.classes.append(ci)
                self.bind(s.name, 'class', ci)
            elif isinstance(s, ast.Import):
                for al in s.names:
                    if al.asname:
                        self.bind(al.asname, 'module', al.name)
                    else:
                        self.bind(al.name.split('.')[0], 'module', al.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = self.absolute(s.level, s.module)
                for al in s.names:
                    if al.name == '*':
                        self.stars.append(base)
                    else:
                        self.bind(al.asname or al.name, 'from', (base, al.name))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.bind(t.id, 'expr', s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.bind(e.id, 'expr', ast.Subscript(
                                    value=s.value, slice=ast.Constant(i), ctx=ast.Load(),
                                    lineno=s.lineno, col_offset=0))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    self.bind(s.target.id, 'expr', s.value)
                else:
                    self.bind(s.target.id, 'decl', s.annotation)
            elif isinstance(s, ast.If):
                self._collect(s.body)
                self._collect(s.orelse)
            elif isinstance(s, ast.Try):
                self._collect(s.body)
                for h in s.handlers:
                    self._collect(h.body)
                self._collect(s.orelse)
                self._collect(s.finalbody)
            elif isinstance(s, ast.With):
                self._collect(s.body)
            elif isinstance(s, (ast.For, ast.While)):
                self._collect(s.body)


class Program:
    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        root = os.path.join(repo, 'pydantic_xml')
        if not os.path.isdir(root):
            raise AnalysisBroken('package directory pydantic_xml not found')
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, repo)
                name = rel[:-3].replace(os.sep, '.')
                is_pkg = False
                if name.endswith('.__init__'):
                    name, is_pkg = name[:-len('.__init__')], True
                self.modules[name] = Module(name, path, rel, is_pkg)
        self.backend = 'lxml'

    def all_functions(self):
        def of_class(c):
            yield from c.methods.values()
            for n in c.nested.values():
                yield from of_class(n)
        for m in self.modules.values():
            yield from m.functions
            for c in m.classes:
                yield from of_class(c)

    def all_classes(self):
        def of_class(c):
            yield c
            for n in c.nested.values():
                yield from of_class(n)
        for m in self.modules.values():
            for c in m.classes:
                yield from of_class(c)

    # -- name resolution: returns (kind, payload) with kind in
    #    func class module extmod ext expr(module, node) decl
    def resolve(self, modname, name, seen=()):
        if (modname, name) in seen:
            return None
        seen = seen + ((modname, name),)
        m = self.modules.get(modname)
        if m is None:
            return ('ext', f'{modname}.{name}')
        cands = m.bindings.get(name, [])
        stars = m.stars
        if modname == 'pydantic_xml.element.native' and stars:
            want = [s for s in stars if s.endswith('.' + self.backend)]
            for s in want:
                if s in self.modules:
                    r = self.resolve(s, name, seen)
                    if r is not None and r[0] != 'missing':
                        return r
        for kind, payload in reversed(cands):
            if kind in ('func', 'class'):
                return (kind, payload)
            if kind == 'module':
                return ('module', payload) if payload in self.modules else ('extmod', payload)
            if kind == 'from':
                base, n = payload
                if base in self.modules:
                    sub = f'{base}.{n}'
                    r = None
                    if n in self.modules[base].bindings or self.modules[base].stars:
                        r = self.resolve(base, n, seen)
                    if (r is None or r[0] == 'missing') and sub in self.modules:
                        return ('module', sub)
                    return r
                return ('ext', f'{base}.{n}')
            if kind == 'expr':
                return ('expr', (m, payload))
        for s in stars:
            if s in self.modules:
                r = self.resolve(s, name, seen)
                if r is not None and r[0] != 'missing':
                    return r
        for kind, payload in cands:
            if kind == 'decl':
                return ('decl', payload)
        if f'{modname}.{name}' in self.modules:
            return ('module', f'{modname}.{name}')
        return ('missing', name)

    def func(self, modname, qualname):
        """Anchor lookup."""
        m = self.modules.get(modname)
        if m is None:
            raise AnalysisBroken(f'module {modname} not found')
        parts = qualname.split('.')
        r = self.resolve(modname, parts[0])
        if r is None or r[0] not in ('func', 'class'):
            raise AnalysisBroken(f'{modname}.{qualname} not found')
        if len(parts) == 1:
            if r[0] == 'func':
                return r[1]
            raise AnalysisBroken(f'{modname}.{qualname} is not a function')
        c = r[1]
        for p in parts[1:-1]:
            if p not in c.nested:
                raise AnalysisBroken(f'{modname}.{qualname} not found')
            c = c.nested[p]
        f = self.lookup_method(c, parts[-1])
        if f is None:
            raise AnalysisBroken(f'{modname}.{qualname} not found')
        return f

    def cls(self, modname, qualname):
        parts = qualname.split('.')
        r = self.resolve(modname, parts[0])
        if r is None or r[0] != 'class':
            raise AnalysisBroken(f'class {modname}.{qualname} not found')
        c = r[1]
        for p in parts[1:]:
            if p not in c.nested:
                raise AnalysisBroken(f'class {modname}.{qualname} not found')
            c = c.nested[p]
        return c

    def _base(self, ci, node):
        if isinstance(node, ast.Subscript):
            node = node.value
        r = self.resolve_expr(ci.module, node, ci.outer)
        return r

    def resolve_expr(self, module, node, outer=None):
        """Resolves a dotted name expression statically to (kind, payload) or None."""
        if isinstance(node, ast.Name):
            c = outer
            while c is not None:
                if node.id in c.nested:
                    return ('class', c.nested[node.id])
                c = c.outer
            r = self.resolve(module.name, node.id)
            if r and r[0] == 'missing':
                return ('builtin', node.id)
            return r
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value, outer)
            if b is None:
                return None
            if b[0] == 'module':
                return self.resolve(b[1], node.attr)
            if b[0] in ('ext', 'extmod'):
                return ('ext', f'{b[1]}.{node.attr}')
            if b[0] == 'class':
                if node.attr in b[1].nested:
                    return ('class', b[1].nested[node.attr])
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.resolve_expr(module, ast.parse(node.value, mode='eval').body, outer)
            except SyntaxError:
                return None
        if isinstance(node, ast.Subscript):
            return self.resolve_expr(module, node.value, outer)
        return None

    def bases(self, ci):
        if not hasattr(ci, '_bases'):
            ci._bases = [b for b in (self._base(ci, n) for n in ci.node.bases) if b is not None]
        return ci._bases

    def mro(self, ci):
        """Linearised list of ClassInfo or ('ext', name)."""
        if hasattr(ci, '_mro'):
            return ci._mro
        ci._mro = [ci]
        seqs = []
        direct = []
        for kind, p in self.bases(ci):
            if kind == 'class':
                seqs.append(list(self.mro(p)))
                direct.append(p)
            else:
                seqs.append([('ext', p)])
                direct.append(('ext', p))
        seqs.append(list(direct))
        out = [ci]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        ci._mro = out
        return out

    def lookup_method(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def ext_bases(self, ci):
        return [c[1] for c in self.mro(ci) if not isinstance(c, ClassInfo)]

    def is_enum(self, ci):
        return any(b in ('enum.Enum', 'enum.IntEnum', 'enum.StrEnum', 'enum.Flag', 'enum.IntFlag')
                   for b in self.ext_bases(ci))

    def is_exception(self, ci):
        return any(b in ('Exception', 'BaseException', 'ValueError', 'TypeError', 'KeyError', 'RuntimeError')
                   or b.endswith('Error') for b in self.ext_bases(ci))

    def issub(self, ci, other):
        return other in self.mro(ci)
