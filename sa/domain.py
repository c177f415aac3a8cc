"""Abstract values: value numbers, linear index forms, segment lists, layered maps, abstract heap objects."""


class Value:
    __slots__ = ()
    havoc = False

    def __eq__(self, other):
        return isinstance(other, Value) and self.key == other.key

    def __hash__(self):
        return hash(self.key)


class Const(Value):
    __slots__ = ('v', 'key')

    def __init__(self, v):
        self.v = v
        self.key = ('c', type(v).__name__, v if not isinstance(v, float) else repr(v))

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = Const(None), Const(True), Const(False)


def const_bool(b):
    return TRUE if b else FALSE


class EnumM(Value):
    """Member of an enumeration class of the package."""
    __slots__ = ('cls', 'name', 'value', 'key')

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value
        self.key = ('enum', cls.fullname, name)

    def __repr__(self):
        return f'{self.cls.name}.{self.name}'


class Sym(Value):
    """Opaque input. typ: '?X' may be None; 'any' unconstrained."""
    __slots__ = ('name', 'typ', 'key', 'havoc', 'meta')

    def __init__(self, name, typ='any', havoc=False, meta=None):
        self.name, self.typ, self.havoc, self.meta = name, typ, havoc, meta
        self.key = ('s', name)

    def __repr__(self):
        return f'<{self.name}>'


def _k(a):
    return a.key if isinstance(a, Value) else a


class Term(Value):
    """Uninterpreted operation over values."""
    __slots__ = ('op', 'args', 'typ', 'key', 'havoc')

    def __init__(self, op, args, typ='any'):
        self.op, self.args, self.typ = op, tuple(args), typ
        self.key = ('t', op) + tuple(_k(a) for a in self.args)
        self.havoc = any(isinstance(a, Value) and is_havoc(a) for a in self.args)

    def __repr__(self):
        if self.op == 'attr':
            return f'{self.args[0]!r}.{self.args[1]}'
        if self.op == 'item':
            return f'{self.args[0]!r}[{self.args[1]!r}]'
        if self.op == 'str':
            return 'f"' + ''.join(str(a.v) if isinstance(a, Const) else '{%r}' % (a,) for a in self.args) + '"'
        return f'{self.op}({", ".join(map(repr, self.args))})'


class Lin(Value):
    """const + sum(coef * var) over integer values."""
    __slots__ = ('vars', 'const', 'key', 'havoc')
    typ = 'int'

    def __init__(self, vars, const):
        self.vars = vars        # key -> (coef, value)
        self.const = const
        self.key = ('lin', const, tuple(sorted(((repr(k), c) for k, (c, v) in vars.items()))))
        self.havoc = any(is_havoc(v) for c, v in vars.values())

    def __repr__(self):
        s = ' + '.join((f'{c}*' if c != 1 else '') + repr(v) for c, v in self.vars.values())
        if self.const:
            s += f' + {self.const}' if self.const > 0 else f' - {-self.const}'
        return f'({s})'


def is_havoc(v):
    return bool(getattr(v, 'havoc', False))


def lin_of(v):
    """(vars, const) or None if v is not integer-like."""
    if isinstance(v, Const):
        if isinstance(v.v, bool) or not isinstance(v.v, int):
            return None
        return {}, v.v
    if isinstance(v, Lin):
        return dict(v.vars), v.const
    if isinstance(v, (Sym, Term)):
        if v.typ in ('str', 'dict', 'list', 'tuple', 'elem', 'bool', 'obj', 'fn', 'cls'):
            return None
        return {v.key: (1, v)}, 0
    return None


def mk_lin(vars, const):
    vars = {k: (c, v) for k, (c, v) in vars.items() if c != 0}
    if not vars:
        return Const(const)
    if const == 0 and len(vars) == 1:
        (c, v), = vars.values()
        if c == 1:
            return v
    return Lin(vars, const)


def lin_comb(a, b, sign=1):
    la, lb = lin_of(a), lin_of(b)
    if la is None or lb is None:
        return None
    vs = dict(la[0])
    for k, (c, v) in lb[0].items():
        c0 = vs[k][0] if k in vs else 0
        vs[k] = (c0 + sign * c, v)
    return mk_lin(vs, la[1] + sign * lb[1])


def lin_scale(a, n):
    la = lin_of(a)
    if la is None:
        return None
    return mk_lin({k: (c * n, v) for k, (c, v) in la[0].items()}, la[1] * n)


# ---- sequences: tuples of segments
#  ('i', value)              one item
#  ('slice', base, lo, hi)   base[lo:hi] of an opaque sequence
#  ('acc', loop, alts)       contributions of the iterations of a loop
#  ('map', loop, alts)       same for comprehensions (not produced separately)
#  ('unk', tag)              unknown content
def seg_key(s):
    if s[0] == 'i':
        return ('i', s[1].key)
    if s[0] == 'slice':
        return ('slice', s[1].key, s[2].key, s[3].key)
    if s[0] == 'acc':
        return ('acc', s[1])
    return s


class TupleV(Value):
    __slots__ = ('segs', 'key', 'havoc')
    typ = 'tuple'

    def __init__(self, segs):
        self.segs = tuple(segs)
        self.key = ('tup',) + tuple(seg_key(s) for s in self.segs)
        self.havoc = any(s[0] == 'unk' or (s[0] == 'i' and is_havoc(s[1])) for s in self.segs)

    @staticmethod
    def of(items):
        return TupleV([('i', x) for x in items])

    @property
    def concrete(self):
        return all(s[0] == 'i' for s in self.segs)

    @property
    def items(self):
        return [s[1] for s in self.segs]

    def __repr__(self):
        return '(' + ', '.join(_seg_repr(s) for s in self.segs) + ')'


def _seg_repr(s):
    if s[0] == 'i':
        return repr(s[1])
    if s[0] == 'slice':
        return f'*{s[1]!r}[{s[2]!r}:{s[3]!r}]'
    return f'*{s[0]}'


class Obj(Value):
    """Heap object, identity by serial number (deterministic along a path)."""
    __slots__ = ('serial', 'key', 'origin', 'alloc')

    def __init__(self, serial, origin='new', alloc=None):
        self.serial = serial
        self.key = ('o', serial)
        self.origin = origin     # 'new' | 'global' | 'input'
        self.alloc = alloc


class ListObj(Obj):
    __slots__ = ('segs',)
    typ = 'list'

    def __init__(self, serial, segs=(), **kw):
        super().__init__(serial, **kw)
        self.segs = list(segs)

    @property
    def concrete(self):
        return all(s[0] == 'i' for s in self.segs)

    @property
    def items(self):
        return [s[1] for s in self.segs]

    def __repr__(self):
        return '[' + ', '.join(_seg_repr(s) for s in self.segs) + ']'


class DictObj(Obj):
    """Layers, later ones win: ('kv', key, value) ('base', value) ('acc', loop, alts) ('unk', tag)."""
    __slots__ = ('layers', 'mapkind')
    typ = 'dict'

    def __init__(self, serial, layers=(), **kw):
        self.mapkind = kw.pop('mapkind', 'dict')
        super().__init__(serial, **kw)
        self.layers = list(layers)

    @property
    def concrete(self):
        return all(s[0] == 'kv' for s in self.layers)

    def canon(self):
        """Content as a hashable normal form: shadowed constant keys removed, order of disjoint constants kept out."""
        out = []
        for la in self.layers:
            if la[0] == 'kv':
                out = [o for o in out if not (o[0] == 'kv' and o[1] == la[1].key)]
                out.append(('kv', la[1].key, la[2].key))
            elif la[0] == 'base':
                out = [o for o in out if not (o[0] == 'base' and o[1] == la[1].key)]
                out.append(('base', la[1].key))
            else:
                out.append((la[0], la[1]))
        return tuple(out)

    def __repr__(self):
        return '{' + ', '.join(
            f'{la[1]!r}: {la[2]!r}' if la[0] == 'kv' else f'**{la[1]!r}' if la[0] == 'base' else f'**{la[0]}'
            for la in self.layers) + '}'


class SetObj(Obj):
    __slots__ = ('items', 'unk', 'bases', 'frozen')
    typ = 'set'

    def __init__(self, serial, items=(), unk=False, bases=(), **kw):
        super().__init__(serial, **kw)
        self.items = list(items)
        self.unk = unk
        self.bases = list(bases)

    def __repr__(self):
        return '{' + ', '.join(map(repr, self.items)) + ('...' if self.unk or self.bases else '') + '}'


class Inst(Obj):
    __slots__ = ('cls', 'attrs')
    typ = 'obj'

    def __init__(self, serial, cls, attrs=None, **kw):
        super().__init__(serial, **kw)
        self.cls = cls           # ClassInfo | SynthClass | ExtV
        self.attrs = dict(attrs or {})

    def __repr__(self):
        n = getattr(self.cls, 'name', self.cls)
        return f'<{n}#{self.serial}>'


class SynthClass(Obj):
    """A class made up by a rule (an abstract user model); bases are ClassInfo / SynthClass."""
    __slots__ = ('name', 'bases', 'attrs', 'meta')
    typ = 'cls'

    def __init__(self, serial, name, bases, attrs=None, meta=None, **kw):
        super().__init__(serial, **kw)
        self.meta = meta         # ClassInfo of the metaclass
        self.name, self.bases, self.attrs = name, bases, dict(attrs or {})

    def __repr__(self):
        return f'<class {self.name}>'


class Frame:
    def __init__(self, serial, module, func=None, parent=None, cls=None):
        self.serial = serial
        self.module, self.func, self.parent, self.cls = module, func, parent, cls
        self.locals = {}
        self.self_val = None
        self.yield_handler = None


class FuncV(Value):
    __slots__ = ('info', 'frame', 'key', 'defaults', 'attrs')
    typ = 'fn'

    def __init__(self, info, frame=None):
        self.info, self.frame = info, frame
        self.defaults = None
        self.attrs = {}
        self.key = ('fn', info.module.name, info.qualname, info.node.lineno, frame.serial if frame else None)

    def __repr__(self):
        return f'<function {self.info.qualname}>'


class BoundV(Value):
    __slots__ = ('func', 'self', 'key')
    typ = 'fn'

    def __init__(self, func, self_):
        self.func, self.self = func, self_
        self.key = ('bound', func.key, self_.key)

    def __repr__(self):
        return f'<bound {self.func!r} of {self.self!r}>'


class ClassV(Value):
    __slots__ = ('ci', 'key')
    typ = 'cls'

    def __init__(self, ci):
        self.ci = ci
        self.key = ('class', ci.fullname)

    def __repr__(self):
        return f'<class {self.ci.name}>'


class ModuleV(Value):
    __slots__ = ('name', 'key')
    typ = 'obj'

    def __init__(self, name):
        self.name = name
        self.key = ('mod', name)

    def __repr__(self):
        return f'<module {self.name}>'


class ExtV(Value):
    """Something of another distribution (or builtin), by dotted name."""
    __slots__ = ('name', 'key')
    typ = 'obj'

    def __init__(self, name):
        self.name = name
        self.key = ('ext', name)

    def __repr__(self):
        return f'<{self.name}>'


class SuperV(Value):
    __slots__ = ('after', 'self', 'key')
    typ = 'obj'

    def __init__(self, after, self_):
        self.after, self.self = after, self_
        self.key = ('super', id(after), self_.key)


class MethV(Value):
    """Method of a builtin container / opaque receiver, not yet called."""
    __slots__ = ('recv', 'name', 'key')
    typ = 'fn'

    def __init__(self, recv, name):
        self.recv, self.name = recv, name
        self.key = ('meth', recv.key, name)

    def __repr__(self):
        return f'{self.recv!r}.{self.name}'


class PartialV(Value):
    __slots__ = ('func', 'args', 'kwargs', 'key')
    typ = 'fn'

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs
        self.key = ('partial', func.key, tuple(a.key for a in args), tuple(sorted((k, v.key) for k, v in kwargs.items())))


class IterV(Value):
    """Lazy iterable: kind in zip enumerate range count items keys values map filter gen genexp chain reversed islice."""
    __slots__ = ('kind', 'parts', 'key', 'n', 'used')
    typ = 'iter'
    _n = 0
    ONE_SHOT = {'zip', 'enumerate', 'map', 'filter', 'gen', 'genexp', 'chain', 'chainiter', 'islice', 'takewhile', 'reversed', 'iter'}

    def __init__(self, kind, *parts):
        self.kind, self.parts = kind, parts
        IterV._n += 1
        self.n, self.used = IterV._n, False
        self.key = ('iter', kind) + tuple(_k(p) if isinstance(p, (Value, str, int, type(None))) else id(p)
                                          for p in parts)

    def __repr__(self):
        return f'<{self.kind} {self.parts}>'


class PyFn(Value):
    """Callable implemented by a rule (stands for an environment function)."""
    __slots__ = ('name', 'fn', 'key')
    typ = 'fn'

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.key = ('pyfn', name)

    def __repr__(self):
        return f'<{self.name}>'


class Ev:
    """Something observable that happens on a path."""
    __slots__ = ('kind', 'name', 'recv', 'args', 'kwargs', 'result', 'where', 'loops', 'raised', 'seq', 'func')

    def __init__(self, kind, name, recv, args, kwargs, where, loops, seq, func):
        self.kind, self.name, self.recv, self.args, self.kwargs = kind, name, recv, args, kwargs
        self.where, self.loops, self.seq, self.func = where, loops, seq, func
        self.result = None
        self.raised = None

    def __repr__(self):
        r = f'{self.recv!r}.' if self.recv is not None else ''
        a = ', '.join([repr(x) for x in self.args] + [f'{k}={v!r}' for k, v in self.kwargs.items()])
        s = f'{self.kind}:{r}{self.name}({a})'
        if self.raised is not None:
            s += f' !{self.raised!r}'
        elif self.result is not None:
            s += f' -> {self.result!r}'
        return s + f' @{self.where}'
