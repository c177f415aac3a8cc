"""Path-partitioned abstract interpreter for the package.

Abstract values are in domain.py. The analysis of an entry point enumerates the branch decisions that the abstract state
leaves open (trace partitioning); a loop over an unknown collection is analysed as "no iteration" plus "an arbitrary
iteration" whose starting state is the inferred loop invariant (induction variables, accumulated sequences, unknown), the
invariant being found by re-analysis until it is stable. Nothing of the package is imported or executed.
"""
import ast
import time
import builtins

from .domain import (
    FALSE, NONE, TRUE, BoundV, ClassV, Const, DictObj, EnumM, Ev, ExtV, Frame, FuncV, Inst, IterV, Lin, ListObj, MethV,
    ModuleV, Obj, PartialV, PyFn, SetObj, SuperV, Sym, SynthClass, Term, TupleV, Value, const_bool, is_havoc, lin_comb,
    lin_of, lin_scale, mk_lin, seg_key,
)
from .loader import AnalysisBroken, ClassInfo, FuncInfo

MAX_DEPTH = 90
MAX_UNROLL = 80


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class PathEnd(Exception):
    def __init__(self, kind, detail=''):
        self.kind, self.detail = kind, detail


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class StopPush(Exception):
    """Stops a push-style iteration started by next()/any()/all()."""
    def __init__(self, token, value=None):
        self.token, self.value = token, value


class Star(Value):
    __slots__ = ('segs', 'key')

    def __init__(self, segs):
        self.segs = segs
        self.key = ('star',) + tuple(seg_key(s) for s in segs)


class Path:
    def __init__(self):
        self.decisions = []     # (where, text, option, loops)
        self.events = []
        self.outcome = None
        self.value = None
        self.notes = []
        self.data = {}
        self.kinds = {}
        self.raised_at = None

    @property
    def precise(self):
        return not self.notes and self.outcome not in ('imprecise', 'limit')

    def trace(self):
        return [f'{d[0]}: {d[1]} -> {d[2]}' for d in self.decisions]

    def ev(self, *names, kind=None):
        return [e for e in self.events if e.name in names and (kind is None or e.kind == kind)]


class LoopCtx:
    def __init__(self, key, serial, k):
        self.key, self.serial, self.k = key, serial, k
        self.writes = {}


BUILTINS = set(dir(builtins))
_DUMPS = {}


def _dump(node):
    r = _DUMPS.get(id(node))
    if r is None:
        r = _DUMPS[id(node)] = (node, ast.dump(node))
    return r[1]


EXC_ALIASES = {
    'pydantic_core.ValidationError': 'pydantic.ValidationError',
    'pydantic_core._pydantic_core.ValidationError': 'pydantic.ValidationError',
    'pydantic.error_wrappers.ValidationError': 'pydantic.ValidationError',
}
EXC_PARENTS = {'pydantic.ValidationError': 'builtins.ValueError', 'mypy.nodes.NameExpr': 'mypy.nodes.RefExpr',
               'mypy.nodes.MemberExpr': 'mypy.nodes.RefExpr', 'mypy.nodes.RefExpr': 'mypy.nodes.Expression',
               'mypy.nodes.CallExpr': 'mypy.nodes.Expression', 'mypy.nodes.StrExpr': 'mypy.nodes.Expression',
               'mypy.nodes.EllipsisExpr': 'mypy.nodes.Expression', 'mypy.nodes.TempNode': 'mypy.nodes.Expression'}


def exc_bases(name):
    name = EXC_ALIASES.get(name, name)
    out = [name]
    while name in EXC_PARENTS:
        name = EXC_PARENTS[name]
        out.append(name)
    if name.startswith('builtins.'):
        c = getattr(builtins, name[9:], None)
        if isinstance(c, type):
            out += ['builtins.' + b.__name__ for b in c.__mro__[1:]]
    else:
        out += ['builtins.Exception', 'builtins.BaseException', 'builtins.object']
    return out


class Forked(BaseException):
    """The configurations have been handed to child processes."""


#: classes of the nodes of a document (lxml: comments and processing instructions are elements too)
NODE_CLASSES = {None: {'_Element', 'Element'}, 'Comment': {'_Comment', '__ContentOnlyElement', '_Element', 'Element'},
                'ProcessingInstruction': {'_ProcessingInstruction', '__ContentOnlyElement', '_Element', 'Element'}}


NOT_BOOL = ('str', 'int', 'float', 'dict', 'list', 'tuple', 'set', 'elem', 'native', 'fn', 'cls', 'none')


class Interp:
    def __init__(self, program, config=None):
        self.p = program
        self.fork = None            # fn(number of options) -> option in a child process, None in the parent
        self.can_fork = False
        self.cfg_floor = 0
        self.unroll = 0
        self.set_orders = False      # sets are iterated the other way round
        self.sym_calls = {}          # what calling an unknown function does
        self.hooks = {}             # 'module.qualname' -> fn(interp, args, kwargs)
        self.ext = {}               # dotted external name -> fn(interp, args, kwargs)
        self.global_values = {}     # (module, name) -> fn(interp) -> Value
        self.sym_methods = None     # fn(interp, recv, name, args, kwargs) -> Value | NotImplemented
        self.raises = None          # fn(interp, ev) -> list of exception names an opaque call may raise
        self.attr_typs = {}         # (typ, attr) -> typ
        self.max_paths = 20000
        self.havoc_modes = {}       # loop key -> {loc: mode}
        self.loop_alts = {}         # (loop key, loc) -> {alt key: (items, decisions in the iteration)}
        self.stats = {'functions': set(), 'calls': 0, 'branches': 0, 'paths': 0, 'rounds': 0}
        from . import externals
        self.x = externals

    # ------------------------------------------------------------ exploration
    def explore(self, thunk):
        """All abstract paths of thunk(self)."""
        paths = []
        self.cfg, self.cfg_arity = [], []
        while True:
            self.havoc_modes, self.loop_alts = {}, {}
            for rnd in range(120):
                self.changed = self.alts_used = False
                before = {k: len(v) for k, v in self.loop_alts.items()}
                self.can_fork = self.fork is not None and rnd == 0
                try:
                    ps = self._explore_once(thunk)
                except Forked:
                    return paths
                self.stats['rounds'] += 1
                if self.out_of_time:
                    if self.changed or self.havoc_modes or self.loop_alts:      # loop invariants may not be stable yet
                        ps[-1].notes.append('time limit')
                        ps = ps[-1:]
                        ps[-1].data.pop('obl', None)
                    break
                if self.changed:
                    self.loop_alts = {}
                    continue
                if self.alts_used and before != {k: len(v) for k, v in self.loop_alts.items()}:
                    continue
                break
            else:
                for p in ps:
                    p.notes.append('loop invariants did not stabilise')
            paths += ps
            if self.out_of_time:
                break
            if len(paths) >= self.max_paths:
                paths[-1].notes.append('path limit')
                break
            cfg, ar = self.cfg[:self.cfg_used], self.cfg_arity[:self.cfg_used]
            while len(cfg) > self.cfg_floor and cfg[-1] + 1 >= ar[-1]:
                cfg.pop()
                ar.pop()
            if len(cfg) <= self.cfg_floor:
                break
            cfg[-1] += 1
            self.cfg, self.cfg_arity = cfg, ar
        self.stats['paths'] += len(paths)
        return paths

    def pick(self, text, options):
        """A choice of configuration: every configuration is analysed by itself."""
        options = list(options)
        if any(not d[4:] for d in self.path.decisions):
            return self.choose(text, options)
        if self.cfg_pos == len(self.cfg):
            c = 0
            if self.can_fork and not self.changed and not self.alts_used and len(options) > 1:
                # the state reached so far is shared: one child process per option
                c = self.fork(len(options))
                if c is None:
                    raise Forked()
                self.cfg_floor = len(self.cfg) + 1
            self.cfg.append(c)
            self.cfg_arity.append(len(options))
        o = options[self.cfg[self.cfg_pos]]
        self.cfg_pos += 1
        self.cfg_used = max(self.cfg_used, self.cfg_pos)
        self.path.decisions.append(('<configuration>', text, o, (), True))
        return o

    def _explore_once(self, thunk):
        paths = []
        prefix, arity = [], []
        self.cfg_used = 0
        while True:
            self._reset(prefix, arity)
            p = self.path
            try:
                p.value = thunk(self)
                p.outcome = 'return'
            except PyRaise as e:
                p.outcome, p.value = 'raise', e.exc
            except PathEnd as e:
                p.outcome, p.value = e.kind, e.detail
                if e.kind in ('imprecise', 'limit'):
                    p.notes.append(str(e.detail))
            except RecursionError:
                p.outcome = 'imprecise'
                p.notes.append('recursion')
            except (BreakSig, ContinueSig, ReturnSig, StopPush) as e:
                p.outcome = 'imprecise'
                p.notes.append(f'stray {type(e).__name__}')
            p.kinds = self.kinds
            p.facts = dict(eq=self.eqs, isin=self.ins, inst=self.insts, ge=list(self.ges))
            paths.append(p)
            if self.changed:
                return paths
            if len(paths) >= self.max_paths:
                p.notes.append('path limit')
                return paths
            if self.deadline is not None and time.time() > self.deadline:
                p.notes.append('time limit')
                self.out_of_time = True
                return paths
            prefix, arity = self.prefix[:self.pos], self.arity[:self.pos]
            while prefix and prefix[-1] + 1 >= arity[-1]:
                prefix.pop()
                arity.pop()
            if not prefix:
                return paths
            prefix[-1] += 1
            self.can_fork = False

    #: when to stop (time.time()), see engine.run
    deadline, out_of_time = None, False

    def _reset(self, prefix, arity):
        self.prefix, self.arity, self.pos = list(prefix), list(arity), 0
        self.cfg_pos = 0
        self.serial = 0
        self.path = Path()
        self.kinds = {}
        self.eqs = {}
        self.ins = {}
        self.insts = {}
        self.ges = []
        self.nes = []
        self.nonneg = {}
        self.stack = []
        self.loops = []
        self.globals_cache = {}
        self.class_attrs = {}
        self.symattrs = {}
        self.shadow = {}
        self.node = None
        self.evseq = 0
        self.freshn = {}
        self.threshold = self.iter_threshold = None
        self.descr = {}
        self._frames = {}
        self.cur_exc = []

    # ------------------------------------------------------------ basics
    def new_serial(self):
        self.serial += 1
        return self.serial

    def where(self):
        if not self.stack:
            return '<rule>'
        f = self.stack[-1]
        ln = getattr(self.node, 'lineno', f.func.node.lineno if f.func else 0)
        q = f.func.qualname if f.func else '<module>'
        return f'{f.module.relpath}:{ln} {q}'

    def note(self, msg):
        msg = f'{msg} at {self.where()}'
        if msg not in self.path.notes:
            self.path.notes.append(msg)

    def imprecise(self, msg):
        raise PathEnd('imprecise', f'{msg} at {self.where()}')

    def choose(self, text, options):
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            if self.arity[self.pos] != len(options):
                self.arity[self.pos] = len(options)
                if c >= len(options):
                    c = self.prefix[self.pos] = len(options) - 1
        else:
            c = 0
            self.prefix.append(0)
            self.arity.append(len(options))
        self.pos += 1
        self.stats['branches'] += 1
        self.path.decisions.append((self.where(), text, options[c], tuple(c.key for c in self.loops)))
        return options[c]

    def fresh(self, name, typ='any', havoc=False, meta=None):
        n = self.freshn.get(name, 0)
        self.freshn[name] = n + 1
        return Sym(f'{name}#{n}', typ, havoc, meta)

    def new_list(self, segs=(), **kw):
        return ListObj(self.new_serial(), segs, alloc=self.where(), **kw)

    def list_of(self, items):
        return self.new_list([('i', x) for x in items])

    def new_dict(self, layers=(), **kw):
        return DictObj(self.new_serial(), layers, alloc=self.where(), **kw)

    def dict_of(self, pairs):
        return self.new_dict([('kv', self.lift(k), v) for k, v in pairs.items()])

    def new_set(self, items=(), **kw):
        return SetObj(self.new_serial(), items, alloc=self.where(), **kw)

    def new_inst(self, cls, attrs=None, **kw):
        return Inst(self.new_serial(), cls, attrs, alloc=self.where(), **kw)

    def lift(self, v):
        if isinstance(v, Value):
            return v
        if v is None or isinstance(v, (bool, int, str, bytes, float)) or v is Ellipsis:
            return Const(v)
        if isinstance(v, tuple):
            return TupleV.of([self.lift(x) for x in v])
        if isinstance(v, list):
            return self.list_of([self.lift(x) for x in v])
        if isinstance(v, dict):
            return self.dict_of({k: self.lift(x) for k, x in v.items()})
        raise TypeError(v)

    def event(self, kind, name, recv=None, args=(), kwargs=None):
        self.evseq += 1
        e = Ev(kind, name, recv, list(args), dict(kwargs or {}), self.where(), tuple(c.key for c in self.loops),
               self.evseq, self.stack[-1].func if self.stack else None)
        self.path.events.append(e)
        return e

    def raise_(self, name, *args):
        raise PyRaise(self.new_inst(ExtV(name), {'args': TupleV.of([self.lift(a) for a in args])}))

    # ------------------------------------------------------------ kinds, equality, order
    def base_kinds(self, v):
        t = getattr(v, 'typ', 'any')
        if t.startswith('?'):
            opt, t = True, t[1:]
        else:
            opt = t in ('any', 'none')
        if t == 'none':
            return {'N'}
        if t in ('elem', 'fn', 'cls', 'obj', 'inst', 'serializer', 'iter', 'model'):
            ks = {'T'}
        else:
            ks = {'F', 'T'}
        if opt:
            ks = ks | {'N'}
        return ks

    def possible(self, v):
        if isinstance(v, Const):
            return {'N'} if v.v is None else {'T'} if v.v else {'F'}
        if isinstance(v, (ListObj, TupleV)):
            if any(s[0] == 'i' for s in v.segs):
                return {'T'}
            if not v.segs:
                return {'F'}
            return self.kinds.get(('content',) + tuple(seg_key(s) for s in v.segs), {'F', 'T'})
        if isinstance(v, DictObj):
            if any(la[0] == 'kv' for la in v.layers):
                return {'T'}
            if not v.layers:
                return {'F'}
            return None
        if isinstance(v, SetObj):
            if v.items:
                return {'T'}
            if not v.unk and not v.bases:
                return {'F'}
            return self.kinds.get(v.key, {'F', 'T'})
        if isinstance(v, EnumM):
            return {'T'} if v.value is None or v.value else {'F'}
        if isinstance(v, Lin):
            d = self.implied_sign(v)
            return d
        if isinstance(v, (Sym, Term)):
            if isinstance(v, Term) and v.op == 'str':
                ks = [self.possible(a) for a in v.args if getattr(a, 'typ', 'str') == 'str']
                if {'T'} in ks:
                    return {'T'}
                if len(ks) == len(v.args) and all(k == {'F'} for k in ks):
                    return {'F'}
            return self.kinds.get(v.key, self.base_kinds(v))
        return {'T'}

    def set_kind(self, v, ks):
        self.kinds[v.key] = set(ks)

    def show(self, v):
        return repr(v)

    def isnone(self, v):
        if not isinstance(v, (Const, Sym, Term)):
            return False
        ks = self.possible(v)
        if 'N' not in ks:
            return False
        if ks == {'N'}:
            return True
        r = self.choose(f'{self.show(v)} is None', [False, True])
        self.set_kind(v, {'N'} if r else ks - {'N'})
        return r

    def truth(self, v):
        if isinstance(v, DictObj):
            ks = self.possible(v)
            if ks is not None:
                return ks == {'T'}
            for la in v.layers:
                if la[0] == 'base':
                    if self.truth(la[1]):
                        return True
                elif la[0] == 'del':
                    continue
                else:
                    return self.truth(Sym(f'content of {la[0]} {la[1]}', 'bool'))
            return False
        if isinstance(v, (ListObj, TupleV)):
            ks = self.possible(v)
            if len(ks) == 1:
                return ks == {'T'}
            if all(s[0] == 'slice' for s in v.segs):
                n = self.seq_len(v)
                return self.decide_ge(lin_comb(n, Const(1), -1), f'{self.show(v)} non-empty')
            ck = ('content',) + tuple(seg_key(s) for s in v.segs)
            r = self.choose(f'{self.show(v)} non-empty', [True, False])
            self.kinds[ck] = {'T'} if r else {'F'}
            return r
        if isinstance(v, Inst):
            f = self.class_lookup(v.cls, '__bool__') or self.class_lookup(v.cls, '__len__')
            if f is not None and isinstance(f[0], FuncInfo):
                return self.truth(self.call(self.bind_method(f[0], v, v.cls), [], {}))
            return True
        if isinstance(v, Lin) or isinstance(v, (Sym, Term)) and v.typ == 'int' and v.key not in self.shadow:
            return not self.int_eq(v, Const(0))
        if isinstance(v, IterV):
            if v.kind in ('items', 'keys', 'values'):
                return self.truth(v.parts[0])
            return True
        if isinstance(v, Sym) and v.key in self.shadow:
            return self.truth(self.shadow[v.key])
        ks = self.possible(v)
        if ks == {'T'}:
            return True
        if 'T' not in ks:
            return False
        r = self.choose(f'bool({self.show(v)})', [True, False])
        self.set_kind(v, {'T'} if r else ks - {'T'})
        return r

    def facts_ge(self, lin):
        keys = set(lin.vars) if isinstance(lin, Lin) else {lin.key}
        out = list(self.ges)
        for k, v in self.nonneg.items():
            out.append(v)
        return out

    def implied_ge(self, v):
        """True / False / None: v >= 0."""
        if isinstance(v, Const):
            return v.v >= 0
        facts = self.facts_ge(v)

        def pos(x, depth, start):
            if isinstance(x, Const):
                return x.v >= 0
            if depth == 0:
                return False
            xl = lin_of(x)
            for i in range(start, len(facts)):
                f = facts[i]
                fl = lin_of(f)
                if not any(k in xl[0] and (xl[0][k][0] > 0) == (fl[0][k][0] > 0) for k in fl[0]):
                    continue
                d = lin_comb(x, f, -1)
                if pos(d, depth - 1, 0):
                    return True
            return False
        if pos(v, 3, 0):
            return True
        neg = lin_comb(lin_scale(v, -1), Const(1), -1)
        if pos(neg, 3, 0):
            return False
        return None

    def implied_sign(self, v):
        return {'F', 'T'}

    def decide_ge(self, v, text=None):
        r = self.implied_ge(v)
        if r is None:
            r = self.choose(text or f'{self.show(v)} >= 0', [True, False])
            if r:
                self.add_ge(v)
            else:
                self.add_ge(lin_comb(lin_scale(v, -1), Const(1), -1))
        return r

    def add_ge(self, v):
        if isinstance(v, Const):
            return
        self.ges.append(v)
        # integer tightening with disequalities
        for ne in list(self.nes):
            for s in (1, -1):
                d = lin_comb(lin_scale(ne, s), Const(0))
                if self.implied_ge(d) and self.implied_ge(lin_comb(d, Const(1), -1)) is None:
                    self.ges.append(lin_comb(d, Const(1), -1))

    def as_len(self, lin):
        """x if lin is exactly len(x)."""
        if isinstance(lin, Term) and lin.op == 'len':
            return lin.args[0]
        return None

    def int_eq(self, a, b):
        d = lin_comb(a, b, -1)
        if isinstance(d, Const):
            return d.v == 0
        dl = lin_of(d)
        if len(dl[0]) == 1:
            (c, v), = dl[0].values()
            x = self.as_len(v)
            if x is not None and dl[1] == 0:
                return not self.truth(x)
            if dl[1] % c and abs(c) != 1:
                return False
        g, l_ = self.implied_ge(d), self.implied_ge(lin_scale(d, -1))
        if g and l_:
            return True
        if g is False or l_ is False:
            return False
        for ne in self.nes:
            if ne.key == d.key or lin_scale(ne, -1).key == d.key:
                return False
        r = self.choose(f'{self.show(a)} == {self.show(b)}', [True, False])
        if r:
            self.ges += [d, lin_scale(d, -1)]
        else:
            self.nes.append(d)
            if g:
                self.ges.append(lin_comb(d, Const(1), -1))
            elif l_:
                self.ges.append(lin_comb(lin_scale(d, -1), Const(1), -1))
        return r

    def canon_key(self, v):
        """Key for equality facts (enum members of str/int enums compare by value with constants)."""
        return v.key

    def eq(self, a, b):
        if a.key == b.key:
            return True
        if type(a) is Const and type(b) is Const and type(a.v) is str:
            return False
        if isinstance(a, EnumM) and isinstance(b, EnumM):
            return False
        if isinstance(a, EnumM) or isinstance(b, EnumM):
            e, o = (a, b) if isinstance(a, EnumM) else (b, a)
            if isinstance(o, Const):
                if any(x in ('str', 'int', 'enum.IntEnum', 'enum.StrEnum') for x in self.p.ext_bases(e.cls)):
                    return e.value == o.v
                return False
        if isinstance(a, Const) and isinstance(b, Const):
            return a.v == b.v
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and x.v is None:
                return self.isnone(y)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and x.v == '' and isinstance(x.v, str) and getattr(y, 'typ', '') in ('str',):
                return not self.truth(y)
        if isinstance(a, (TupleV, ListObj)) and isinstance(b, (TupleV, ListObj)):
            if type(a) is not type(b):
                return False
            if a.concrete and b.concrete:
                if len(a.segs) != len(b.segs):
                    return False
                return all(self.eq(x, y) for x, y in zip(a.items, b.items))
            if isinstance(a, ListObj) and not a.segs:
                return not self.truth(b)
            if isinstance(b, ListObj) and not b.segs:
                return not self.truth(a)
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            if a.canon() == b.canon():
                return True
            if not b.layers:
                return not self.truth(a)
            if not a.layers:
                return not self.truth(b)
        structured = (Obj, TupleV, FuncV, ClassV, BoundV, ModuleV)
        if isinstance(a, structured) and isinstance(b, structured):
            if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls and isinstance(a.cls, ClassInfo) \
                    and a.cls.is_dataclass:
                return all(self.eq(a.attrs[k], b.attrs[k]) for k in a.attrs if k in b.attrs)
            if isinstance(a, (ClassV, SynthClass)) and isinstance(b, (ClassV, SynthClass)):
                return False
            if isinstance(a, (Inst, FuncV, ModuleV, BoundV)) or isinstance(b, (Inst, FuncV, ModuleV, BoundV)):
                return False
        if isinstance(a, structured) and isinstance(b, Const) or isinstance(b, structured) and isinstance(a, Const):
            return False
        if isinstance(a, ExtV) and isinstance(b, (ExtV, Const, Obj, ClassV)):
            return False
        if isinstance(b, ExtV) and isinstance(a, (Const, Obj, ClassV)):
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ExtV) and getattr(y, 'typ', '') in ('str', 'int', 'bool', 'dict', 'list', 'tuple'):
                return False
        if lin_of(a) is not None and lin_of(b) is not None and (
                isinstance(a, Lin) or isinstance(b, Lin) or getattr(a, 'typ', '') == 'int'
                or getattr(b, 'typ', '') == 'int'):
            return self.int_eq(a, b)
        r = self.eq_string(a, b)
        if r is not None:
            return r
        k = (a.key, b.key) if repr(a.key) <= repr(b.key) else (b.key, a.key)
        if k in self.eqs:
            return self.eqs[k]
        # transitivity through constants / known equalities
        for x, y in ((a, b), (b, a)):
            cx = self.known_const(x)
            if cx is not None:
                if isinstance(y, Const):
                    return cx.v == y.v
                cy = self.known_const(y)
                if cy is not None:
                    return cx.v == cy.v
        ra, rb = self.eq_class(a.key), self.eq_class(b.key)
        if ra & rb:
            return True
        for x in ra:
            for y in rb:
                kk = (x, y) if repr(x) <= repr(y) else (y, x)
                if self.eqs.get(kk) is False:
                    return False
        r = self.choose(f'{self.show(a)} == {self.show(b)}', [True, False])
        self.eqs[k] = r
        if r:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Const) and isinstance(y, (Sym, Term)):
                    self.set_kind(y, self.possible(x))
        return r

    def eq_string(self, a, b):
        """Comparison of strings composed of known and unknown parts, where their forms decide it."""
        comp = lambda v: isinstance(v, Term) and v.op == 'str'  # noqa: E731
        known = lambda v: isinstance(v, Const) and isinstance(v.v, str)  # noqa: E731
        if not (comp(a) and (comp(b) or known(b)) or comp(b) and known(a)):
            return None
        x, y = ([*v.args] if comp(v) else [v] for v in (a, b))
        # equal parts at both ends do not matter
        for end in (0, -1):
            while x and y:
                p, q = x[end], y[end]
                if p.key == q.key:
                    x.pop(end)
                    y.pop(end)
                    continue
                if known(p) and known(q):
                    n = min(len(p.v), len(q.v))
                    if (p.v[:n] != q.v[:n]) if end == 0 else (p.v[len(p.v) - n:] != q.v[len(q.v) - n:]):
                        return False
                    for v, part in ((x, p), (y, q)):
                        rest = part.v[n:] if end == 0 else part.v[:len(part.v) - n]
                        if rest:
                            v[end] = Const(rest)
                        else:
                            v.pop(end)
                    continue
                break
        if not x or not y:
            rest = x or y
            if not rest:
                return True
            if any(known(p) and p.v for p in rest):
                return False
            return None if len(rest) > 1 else not self.truth(rest[0])
        if len(x) == 1 and len(y) == 1 and all(p.key not in (a.key, b.key) for p in x + y):
            return self.eq(x[0], y[0])
        return None

    def eq_class(self, key):
        out, todo = {key}, [key]
        while todo:
            k = todo.pop()
            for (x, y), r in self.eqs.items():
                if r:
                    for p, q in ((x, y), (y, x)):
                        if p == k and q not in out:
                            out.add(q)
                            todo.append(q)
        return out

    def known_const(self, v):
        if isinstance(v, Const):
            return v
        for k in self.eq_class(v.key):
            if k[0] == 'c' and k[1] != 'float':
                return Const(k[2])
        return None

    def is_(self, a, b):
        if a.key == b.key:
            if isinstance(a, TupleV):
                return True
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and x.v is None:
                return self.isnone(y)
            if isinstance(x, Const) and isinstance(x.v, bool):
                if isinstance(y, Const):
                    return y.v is x.v
                if getattr(y, 'typ', '') in ('bool', '?bool'):
                    if self.isnone(y):
                        return False
                    return self.truth(y) is x.v
                if not isinstance(y, (Sym, Term)) or y.key in self.shadow \
                        or getattr(y, 'typ', '').lstrip('?') in NOT_BOOL:
                    return False
        if isinstance(a, (Obj, TupleV, FuncV)) and isinstance(b, (Obj, TupleV, FuncV)):
            return False
        if isinstance(a, Const) and isinstance(b, Const):
            return a.v is b.v or (type(a.v) is type(b.v) and a.v == b.v)
        return self.eq(a, b)

    def contains(self, item, cont):
        """item in cont"""
        if isinstance(cont, (Sym, Term)) and cont.key in self.shadow:
            cont = self.shadow[cont.key]
        if isinstance(cont, (TupleV, ListObj)):
            unk = False
            for s in cont.segs:
                if s[0] == 'i':
                    if self.eq(item, s[1]):
                        return True
                else:
                    unk = True
            if not unk:
                return False
            return self.in_fact(item, cont)
        if isinstance(cont, SetObj):
            if type(item) is Const and type(item.v) is str and all(type(x) is Const for x in cont.items):
                if any(x.v == item.v for x in cont.items):
                    return True
            else:
                for x in cont.items:
                    if self.eq(item, x):
                        return True
            for b in cont.bases:
                if self.contains(item, b):
                    return True
            if not cont.unk:
                return False
            return self.in_fact(item, cont)
        if isinstance(cont, DictObj):
            return self.dict_lookup(cont, item) is not None
        if isinstance(cont, IterV):
            if cont.kind == 'keys':
                return self.contains(item, cont.parts[0])
            if cont.kind in ('genexp', 'gen', 'map', 'filter', 'chain', 'values', 'items', 'range', 'zip', 'reversed'):
                return self.contains(item, TupleV(self.materialise(cont)))
        if isinstance(cont, Const) and isinstance(item, Const):
            if isinstance(cont.v, str) and isinstance(item.v, str):
                return item.v in cont.v
            if cont.v is None:
                self.raise_('builtins.TypeError')
        if getattr(cont, 'typ', '') == 'str' and isinstance(item, Const) and isinstance(item.v, str):
            r = self.x.composed_method(self, cont, 'count', [item], {})
            if isinstance(r, Const):
                return r.v > 0
        if isinstance(cont, ClassV) and self.p.is_enum(cont.ci):
            return isinstance(item, EnumM) and item.cls is cont.ci
        if isinstance(cont, Inst):
            f = self.class_lookup(cont.cls, '__contains__')
            if f is not None and isinstance(f[0], FuncInfo):
                return self.truth(self.call(self.bind_method(f[0], cont, cont.cls), [item], {}))
        return self.in_fact(item, cont)

    def in_fact(self, item, cont):
        k = (item.key, cont.key)
        if k in self.ins:
            return self.ins[k]
        meta = getattr(cont, 'meta', None)
        if meta and meta.get('total'):
            return True
        if isinstance(cont, Term) and cont.op == 'item' and isinstance(cont.args[0], Sym) and \
                'of' in (cont.args[0].meta or {}) and isinstance(item, Const) and item.v in ('type', 'loc', 'msg', 'input'):
            return True     # entries of ValidationError.errors()
        if isinstance(cont, (Sym, Term)) and self.possible(cont) is not None and 'T' not in self.possible(cont):
            return False
        r = self.choose(f'{self.show(item)} in {self.show(cont)}', [True, False])
        self.ins[k] = r
        return r

    # ------------------------------------------------------------ dictionaries
    def dict_lookup(self, d, key):
        """Value or None if absent (forks)."""
        for la in reversed(d.layers):
            if la[0] == 'kv':
                if self.eq(key, la[1]):
                    return la[2]
            elif la[0] == 'del':
                if self.eq(key, la[1]):
                    return None
            elif la[0] == 'base':
                if self.in_fact(key, la[1]):
                    return self.base_item(la[1], key)
            else:
                r = self.choose(f'{self.show(key)} in {la[0]} part of {self.show(d)}', [True, False])
                if r:
                    return self.fresh(f'item of {la[0]}', havoc=True)
        return None

    def base_item(self, base, key):
        meta = getattr(base, 'meta', None) or {}
        items = meta.get('items')
        if items is not None and isinstance(key, Const) and key.v in items:
            return items[key.v]
        t = meta.get('val', 'any')
        if t == 'any' and isinstance(base, Term):
            t = self.attr_typs.get(('item', base.op), 'any')
        return Term('item', (base, key), t)

    def track(self, loc, owner_serial, old):
        for c in self.loops:
            if owner_serial < c.serial:
                c.writes.setdefault(loc, old)

    def mutated(self, obj, what, args=()):
        """obj is about to be changed in place."""
        if isinstance(obj, Obj):
            if obj.origin in ('global', 'input') or (self.threshold is not None and obj.serial < self.threshold):
                self.event('mutate', what, obj, args)
            if isinstance(obj, ListObj):
                self.track(('C', obj.serial), obj.serial, tuple(obj.segs))
            elif isinstance(obj, DictObj):
                self.track(('C', obj.serial), obj.serial, tuple(obj.layers))
            elif isinstance(obj, SetObj):
                self.track(('C', obj.serial), obj.serial, (tuple(obj.items), obj.unk, tuple(obj.bases)))
            self.remember(obj)
        else:
            self.event('mutate', what, obj, args)

    def remember(self, obj):
        self.descr[obj.serial] = obj

    def dict_set(self, d, key, value):
        self.mutated(d, 'setitem', (key, value))
        if isinstance(key, Const) or isinstance(key, EnumM):
            d.layers = [la for la in d.layers if not (la[0] == 'kv' and la[1].key == key.key)] \
                if not any(la[0] in ('unk', 'acc', 'del') for la in d.layers) else d.layers
        d.layers = d.layers + [('kv', key, value)]

    def dict_del(self, d, key):
        self.mutated(d, 'delitem', (key,))
        if all(la[0] == 'kv' for la in d.layers) and (
                isinstance(key, (Const, EnumM)) and all(isinstance(la[1], (Const, EnumM)) for la in d.layers)
                or any(la[1].key == key.key for la in d.layers)):
            d.layers = [la for la in d.layers if la[1].key != key.key]
        else:
            d.layers = d.layers + [('del', key)]

    def dict_update(self, d, other):
        self.mutated(d, 'update', (other,))
        d.layers = d.layers + self.as_layers(other)

    def as_layers(self, v):
        if isinstance(v, (Sym, Term)) and v.key in self.shadow:
            v = self.shadow[v.key]
        if isinstance(v, DictObj):
            return list(v.layers)
        if isinstance(v, Const) and v.v is None:
            self.raise_('builtins.TypeError')
        if isinstance(v, (Sym, Term)):
            if self.isnone(v):
                self.raise_('builtins.TypeError')
            return [('base', v)]
        if isinstance(v, IterV) and v.kind == 'items':
            return self.as_layers(v.parts[0])
        # iterable of pairs
        d = self.new_dict()
        self.iterate(v, lambda x: self.dict_set(d, *self.unpack(x, 2)))
        return list(d.layers)

    # ------------------------------------------------------------ sequences
    def seg_len(self, s):
        if s[0] == 'i':
            return Const(1)
        if s[0] == 'slice':
            return lin_comb(s[3], s[2], -1)
        return None

    def seq_len(self, v):
        segs = v.segs
        n = Const(0)
        for s in segs:
            sl = self.seg_len(s)
            if sl is None:
                t = Term('len', (TupleV([x for x in segs]),), 'int')
                self.nonneg[t.key] = t
                return t
            n = lin_comb(n, sl)
        return n

    def len_of(self, v):
        if isinstance(v, (Sym, Term)) and v.key in self.shadow:
            v = self.shadow[v.key]
        if isinstance(v, (TupleV, ListObj)):
            return self.seq_len(v)
        if isinstance(v, Const):
            if isinstance(v.v, (str, bytes)):
                return Const(len(v.v))
            self.raise_('builtins.TypeError')
        if self.x.str_parts(v) is not None:
            return list(self.x.boundaries(v.args))[-1][1]
        if isinstance(v, DictObj) and v.concrete and all(isinstance(la[1], Const) for la in v.layers):
            return Const(len(v.layers))
        if isinstance(v, SetObj) and not v.unk and not v.bases and all(isinstance(x, (Const, EnumM, ClassV)) for x in v.items):
            return Const(len(v.items))
        if isinstance(v, IterV) and v.kind in ('items', 'keys', 'values'):
            return self.len_of(v.parts[0])
        if isinstance(v, Inst):
            f = self.class_lookup(v.cls, '__len__')
            if f is not None and isinstance(f[0], FuncInfo):
                return self.call(self.bind_method(f[0], v, v.cls), [], {})
        if isinstance(v, (Sym, Term)) and self.possible(v) == {'N'}:
            self.raise_('builtins.TypeError')
        if isinstance(v, (Sym, Term)) and v.typ.startswith('?') and self.isnone(v):
            self.raise_('builtins.TypeError')
        meta = getattr(v, 'meta', None) or {}
        if 'len' in meta:
            return meta['len']
        t = Term('len', (v,), 'int')
        self.nonneg[t.key] = t
        return t

    def item_typ(self, base):
        meta = getattr(base, 'meta', None) or {}
        if 'item' in meta:
            return meta['item']
        if isinstance(base, Term):
            return self.attr_typs.get(('item', base.op), 'any')
        return 'any'

    def elem_at(self, base, idx):
        return Term('item', (base, idx), self.item_typ(base))

    def seq_index(self, v, idx, check=True):
        """v[idx] for segment lists."""
        if isinstance(idx, Const) and v.concrete:
            n = len(v.segs)
            if not isinstance(idx.v, int) or not -n <= idx.v < n:
                self.raise_('builtins.IndexError')
            return v.segs[idx.v][1]
        if isinstance(idx, Const) and idx.v < 0:
            idx = lin_comb(self.seq_len(v), idx)
            if isinstance(idx, Const):
                if idx.v < 0:
                    self.raise_('builtins.IndexError')
            elif not self.decide_ge(idx):
                self.raise_('builtins.IndexError')
        elif not isinstance(idx, Const):
            if self.implied_ge(idx) is None:
                if not self.decide_ge(idx, f'{self.show(idx)} >= 0'):
                    n = self.seq_len(v)
                    idx = lin_comb(idx, n)
                    if not self.decide_ge(idx):
                        self.raise_('builtins.IndexError')
            elif self.implied_ge(idx) is False:
                idx = lin_comb(idx, self.seq_len(v))
                if not self.decide_ge(idx):
                    self.raise_('builtins.IndexError')
        pos = Const(0)
        for s in v.segs:
            n = self.seg_len(s)
            if n is None:
                return self.fresh('element of unknown sequence', havoc=True)
            off = lin_comb(idx, pos, -1)
            # off < n ?
            if self.decide_ge(lin_comb(lin_comb(n, off, -1), Const(1), -1), f'{self.show(idx)} within {_seg_txt(s)}'):
                if s[0] == 'i':
                    return s[1]
                return self.elem_at(s[1], lin_comb(s[2], off))
            pos = lin_comb(pos, n)
        self.raise_('builtins.IndexError')

    def split(self, segs, pos):
        """(left, right) at position pos (clamped)."""
        left, right = [], list(segs)
        at = Const(0)
        while right:
            off = lin_comb(pos, at, -1)
            if isinstance(off, Const) and off.v <= 0 or not isinstance(off, Const) and not self.decide_ge(
                    lin_comb(off, Const(1), -1), f'{self.show(off)} > 0'):
                return left, right
            s = right[0]
            n = self.seg_len(s)
            if n is None:
                self.imprecise('position in a sequence of unknown shape')
            if self.decide_ge(lin_comb(off, n, -1), f'{self.show(pos)} beyond {_seg_txt(s)}'):
                left.append(right.pop(0))
                at = lin_comb(at, n)
                continue
            # inside a slice
            mid = lin_comb(s[2], off)
            left.append(('slice', s[1], s[2], mid))
            right[0] = ('slice', s[1], mid, s[3])
            return left, right
        return left, right

    @staticmethod
    def tidy(segs):
        out = []
        for s in segs:
            if s[0] == 'slice' and s[2].key == s[3].key:
                continue
            if out and out[-1][0] == 'slice' and s[0] == 'slice' and out[-1][1].key == s[1].key \
                    and out[-1][3].key == s[2].key:
                out[-1] = ('slice', s[1], out[-1][2], s[3])
                continue
            if s[0] == 'i' and isinstance(s[1], Term) and s[1].op == 'item' and out and out[-1][0] == 'slice' \
                    and s[1].args[0].key == out[-1][1].key and s[1].args[1].key == out[-1][3].key:
                out[-1] = ('slice', out[-1][1], out[-1][2], lin_comb(out[-1][3], Const(1)))
                continue
            out.append(s)
        return out

    def slice_of(self, v, lo, hi):
        segs = list(v.segs)
        n = None

        def norm(x):
            nonlocal n
            if isinstance(x, Const) and isinstance(x.v, int) and x.v < 0:
                if n is None:
                    n = self.seq_len(v)
                y = lin_comb(n, x)
                if isinstance(y, Const):
                    return Const(max(0, y.v))
                return y if self.decide_ge(y) else Const(0)
            return x
        if hi is not None:
            segs, _ = self.split(segs, norm(hi))
        if lo is not None:
            _, segs = self.split(segs, norm(lo))
        return segs

    def to_segs(self, v):
        v = self.seq_view(v)
        if isinstance(v, (ListObj, TupleV)):
            return list(v.segs)
        return self.materialise(v)

    # ------------------------------------------------------------ iteration
    @staticmethod
    def seq_view(v):
        """A native element is the sequence of its sub-elements."""
        if isinstance(v, Inst) and isinstance(v.cls, ExtV) and v.cls.name == 'native.Element':
            return v.attrs['children']
        return v

    def indexable(self, it):
        """(length or None for infinite, at(k)) or None."""
        it = self.seq_view(it)
        if isinstance(it, (Sym, Term)) and it.key in self.shadow:
            it = self.shadow[it.key]
        if isinstance(it, (TupleV, ListObj)):
            if it.concrete:
                items = it.items
                if len(items) > MAX_UNROLL:
                    return None
                return Const(len(items)), (lambda k: items[k.v] if isinstance(k, Const) else None)
            if len(it.segs) == 1 and it.segs[0][0] == 'slice':
                s = it.segs[0]
                return lin_comb(s[3], s[2], -1), (lambda k: self.elem_at(s[1], lin_comb(s[2], k)))
            return None
        if isinstance(it, DictObj):
            if it.concrete:
                ks = [la[1] for la in it.layers]
                return Const(len(ks)), (lambda k: ks[k.v] if isinstance(k, Const) else None)
            if len(it.layers) == 1 and it.layers[0][0] == 'base':
                b = it.layers[0][1]
                return self.len_of(b), (lambda k: self.key_at(b, k))
            return None
        if isinstance(it, (Sym, Term)):
            if it.typ in ('dict', '?dict'):
                return self.len_of(it), (lambda k: self.key_at(it, k))
            return self.len_of(it), (lambda k: self.elem_at(it, k))
        if isinstance(it, Const) and isinstance(it.v, str):
            return Const(len(it.v)), (lambda k: Const(it.v[k.v]))
        if isinstance(it, ClassV) and self.p.is_enum(it.ci):
            ms = self.enum_members(it.ci)
            return Const(len(ms)), (lambda k: ms[k.v])
        if not isinstance(it, IterV):
            return None
        kd, ps = it.kind, it.parts
        if kd == 'count':
            start, step = ps
            return None, (lambda k: lin_comb(start, lin_scale(k, step.v) if isinstance(step, Const) else k))
        if kd == 'range':
            start, stop, step = ps
            if not (isinstance(step, Const) and step.v in (1, -1)):
                if isinstance(start, Const) and isinstance(stop, Const) and isinstance(step, Const):
                    vals = list(range(start.v, stop.v, step.v))
                    return Const(len(vals)), (lambda k: Const(vals[k.v]))
                return None
            n = lin_comb(stop, start, -1) if step.v == 1 else lin_comb(start, stop, -1)
            if n is None:
                return None
            return n, (lambda k: lin_comb(start, lin_scale(k, step.v)))
        if kd == 'enumerate':
            sub = self.indexable(ps[0])
            if sub is None:
                return None
            return sub[0], (lambda k: TupleV.of([lin_comb(ps[1], k), sub[1](k)]))
        if kd == 'zip':
            subs = []
            for q in ps:
                s = self.indexable(q)
                if s is None:
                    q = TupleV(self.materialise(q))
                    s = self.indexable(q)
                    if s is None:
                        return None
                subs.append(s)
            lens = [s[0] for s in subs if s[0] is not None]
            at = lambda k: TupleV.of([s[1](k) for s in subs])  # noqa: E731
            if not lens:
                return None, at
            best = lens[0]
            for n in lens[1:]:
                if isinstance(n, Const) and isinstance(best, Const):
                    best = Const(min(n.v, best.v))
                elif isinstance(n, Const) or isinstance(best, Const):
                    c, o = (n, best) if isinstance(n, Const) else (best, n)
                    # shorter opaque side: decided element by element
                    if self.implied_ge(lin_comb(o, c, -1)):
                        best = c
                    elif self.decide_ge(lin_comb(o, c, -1), f'{self.show(o)} >= {c.v}'):
                        best = c
                    else:
                        for i in range(c.v):
                            if self.int_eq(o, Const(i)):
                                best = Const(i)
                                break
                        else:
                            best = c
                elif n.key != best.key:
                    self.path.data.setdefault('ziplens', []).append((best, n, self.where()))
            return best, at
        if kd in ('items', 'values', 'keys'):
            d = ps[0]
            if isinstance(d, (Sym, Term)) and d.key in self.shadow:
                d = self.shadow[d.key]
            if isinstance(d, DictObj):
                if d.concrete:
                    las = self.dedup_layers(d)
                    pick = {'items': lambda la: TupleV.of([la[1], la[2]]), 'values': lambda la: la[2],
                            'keys': lambda la: la[1]}[kd]
                    vals = [pick(la) for la in las]
                    return Const(len(vals)), (lambda k: vals[k.v] if isinstance(k, Const) else None)
                if len(d.layers) == 1 and d.layers[0][0] == 'base':
                    d = d.layers[0][1]
                else:
                    return None
            if isinstance(d, (Sym, Term)):
                pick = {'items': lambda k: TupleV.of([self.key_at(d, k), self.val_at(d, k)]),
                        'values': lambda k: self.val_at(d, k), 'keys': lambda k: self.key_at(d, k)}[kd]
                return self.len_of(d), pick
            return None
        if kd == 'reversed':
            sub = self.indexable(ps[0])
            if sub is None or sub[0] is None:
                return None
            n = sub[0]
            return n, (lambda k: sub[1](lin_comb(lin_comb(n, Const(1), -1), k, -1)))
        if kd == 'islice':
            sub = self.indexable(ps[0])
            start, stop = ps[1], ps[2]
            if sub is None:
                return None
            at = lambda k: sub[1](lin_comb(start, k))  # noqa: E731
            if isinstance(stop, Const) and stop.v is None:
                if sub[0] is None:
                    return None, at
                n = lin_comb(sub[0], start, -1)
                return n, at
            if sub[0] is None:
                return lin_comb(stop, start, -1), at
            return None
        return None

    def dedup_layers(self, d):
        out = {}
        for la in d.layers:
            if la[1].key in out:
                out[la[1].key] = ('kv', out[la[1].key][1], la[2])
            else:
                out[la[1].key] = la
        return list(out.values())

    def key_at(self, d, k):
        meta = getattr(d, 'meta', None) or {}
        return Term('key', (d, k), meta.get('key', 'any'))

    def val_at(self, d, k):
        meta = getattr(d, 'meta', None) or {}
        return Term('item', (d, self.key_at(d, k)), meta.get('val', 'any'))

    def iterate(self, it, body, node=None):
        """Push-style iteration: body(item) for every item; body may raise ContinueSig (handled) or BreakSig (not)."""
        def run(item):
            try:
                body(item)
            except ContinueSig:
                pass
        it = self.seq_view(it)
        if isinstance(it, (Sym, Term)) and it.key in self.shadow:
            it = self.shadow[it.key]
        if isinstance(it, Const) and it.v is None:
            self.raise_('builtins.TypeError')
        if isinstance(it, (Sym, Term)) and it.typ.startswith('?') and self.isnone(it):
            self.raise_('builtins.TypeError')
        if isinstance(it, (Sym, Term)) and self.possible(it) == {'F'}:
            return
        if isinstance(it, SetObj):
            self.event('setiter', 'iterate', it)
            items = list(it.items)
            if self.set_orders:
                items.reverse()
            for x in items:
                run(x)
            for b in it.bases:
                self.iterate(b, body, node)
            if it.unk:
                self.generic_loop(node, Term('len', (it,), 'int'), lambda k: self.fresh('set item', havoc=True), run)
            return
        if isinstance(it, IterV):
            if it.kind in IterV.ONE_SHOT:
                if self.iter_threshold is not None and it.n <= self.iter_threshold:
                    self.event('mutate', 'consume', it)
                if it.used:
                    return
                it.used = True
            if it.kind == 'gen':
                return self.run_generator(it, run)
            if it.kind == 'genexp':
                gnode, frame = it.parts
                return self.comp_loops(gnode.generators, 0, frame, lambda f: run(self.eval(gnode.elt, f)))
            if it.kind == 'map':
                fn, seqs = it.parts
                src = seqs[0] if len(seqs) == 1 else IterV('zip', *seqs)
                if len(seqs) == 1:
                    return self.iterate(src, lambda x: run(self.call(fn, [x], {})), node)
                return self.iterate(src, lambda x: run(self.call(fn, self.unpack(x, len(seqs)), {})), node)
            if it.kind == 'filter':
                fn, src = it.parts

                def flt(x):
                    ok = self.truth(x) if isinstance(fn, Const) else self.truth(self.call(fn, [x], {}))
                    if ok:
                        run(x)
                return self.iterate(src, flt, node)
            if it.kind == 'chain':
                for s in it.parts:
                    self.iterate(s, body, node)
                return
            if it.kind == 'chainiter':
                return self.iterate(it.parts[0], lambda s: self.iterate(s, body, node), node)
            if it.kind in ('takewhile', 'dropwhile'):
                fn, src = it.parts
                if it.kind == 'dropwhile':
                    self.imprecise('dropwhile')
                tok = object()

                def tw(x):
                    if not self.truth(self.call(fn, [x], {})):
                        raise StopPush(tok)
                    run(x)
                try:
                    self.iterate(src, tw, node)
                except StopPush as s:
                    if s.token is not tok:
                        raise
                return
            if it.kind == 'iter':
                return self.iterate(it.parts[0], body, node)
            if it.kind in ('items', 'values', 'keys') and isinstance(it.parts[0], DictObj) \
                    and self.indexable(it) is None:
                d = it.parts[0]
                for la in d.layers:
                    if la[0] == 'kv':
                        run({'items': TupleV.of([la[1], la[2]]), 'values': la[2], 'keys': la[1]}[it.kind])
                    elif la[0] == 'base':
                        self.iterate(IterV(it.kind, la[1]), body, node)
                    elif la[0] == 'del':
                        self.note('iteration over a dictionary with removed keys')
                    else:
                        self.iter_acc(la, it.kind, run, node)
                return
            if it.kind in ('enumerate', 'zip', 'reversed', 'islice') and self.indexable(it) is None:
                inner = it.parts[0]
                if it.kind == 'enumerate':
                    segs = self.materialise(inner)
                    if all(s[0] == 'i' for s in segs):
                        return self.iterate(IterV('enumerate', TupleV(segs), it.parts[1]), body, node)
                if it.kind == 'reversed':
                    segs = self.materialise(inner)
                    if all(s[0] == 'i' for s in segs):
                        return self.iterate(TupleV(list(reversed(segs))), body, node)
                self.imprecise(f'iteration over {it.kind} of a sequence of unknown shape')
        if isinstance(it, ListObj) and len(it.segs) <= MAX_UNROLL and all(s[0] == 'i' for s in it.segs):
            i = 0
            while i < len(it.segs):         # the list may change on the way
                if it.segs[i][0] != 'i' or i > 200:
                    self.imprecise('list changed while iterating')
                run(it.segs[i][1])
                i += 1
            return
        ix = self.indexable(it)
        if ix is not None:
            n, at = ix
            if isinstance(n, Const):
                for i in range(n.v):
                    run(at(Const(i)))
                return
            if n is None and self.unroll:
                for i in range(self.unroll):
                    run(at(Const(i)))
                self.imprecise('loop does not terminate within the document')
            return self.generic_loop(node, n, at, run)
        if isinstance(it, (TupleV, ListObj)):
            for s in list(it.segs):
                if s[0] == 'i':
                    run(s[1])
                elif s[0] == 'slice':
                    self.iterate(TupleV([s]), body, node)
                else:
                    self.iter_acc(s, 'item', run, node)
            return
        if isinstance(it, DictObj):
            return self.iterate(IterV('keys', it), body, node)
        if isinstance(it, Inst):
            f = self.class_lookup(it.cls, '__iter__')
            if f is not None and isinstance(f[0], FuncInfo):
                return self.iterate(self.call(self.bind_method(f[0], it, it.cls), [], {}), body, node)
        self.imprecise(f'iteration over {it!r}')

    def iter_acc(self, s, kind, run, node):
        self.alts_used = True
        alts = self.loop_alts.get((s[1], s[2] if len(s) > 2 else None), {})
        n = self.fresh('number of accumulated items', 'int')
        self.nonneg[n.key] = n
        opts = [a[0] for a in alts.values()]
        flat = [x for o in opts for x in o if isinstance(x, tuple) and x[0] in ('i', 'kv')]
        typs = {getattr(x[1], 'typ', 'any') for x in flat if x[0] == 'i'}

        def at(k):
            v = Sym(f'accumulated({s[1]})[{k!r}]', typs.pop() if len(typs) == 1 else 'any', havoc=True)
            if kind == 'items':
                return TupleV.of([v, self.fresh('accumulated value', havoc=True)])
            return v
        self.generic_loop(node, n, at, run)

    def materialise(self, it):
        it = self.seq_view(it)
        if isinstance(it, (TupleV, ListObj)):
            return list(it.segs)
        ix = self.indexable(it) if not isinstance(it, SetObj) else None
        if ix is not None and ix[0] is not None:
            n, at = ix
            if isinstance(n, Const):
                return [('i', at(Const(i))) for i in range(n.v)]
            if isinstance(it, (Sym, Term)) and it.typ not in ('dict', '?dict'):
                if self.possible(it) == {'F'}:
                    return []
                return [('slice', it, Const(0), n)]
        tmp = self.new_list()
        self.iterate(it, lambda x: self.list_append(tmp, x))
        return list(tmp.segs)

    def list_append(self, lst, x):
        self.mutated(lst, 'append', (x,))
        lst.segs = lst.segs + [('i', x)]

    def run_generator(self, it, run):
        fv, frame, info = it.parts
        old = frame.yield_handler
        frame.yield_handler = run
        self.push(frame)
        try:
            self.exec_block(info.node.body, frame)
        except ReturnSig as r:
            return r.value
        finally:
            self.pop()
            frame.yield_handler = old
        return NONE

    # ------------------------------------------------------------ loops
    def loop_key(self, node):
        nd = node or self.node
        m = self.stack[-1].module.name if self.stack else ''
        return (m, getattr(nd, 'lineno', 0), getattr(nd, 'col_offset', 0), tuple(self.prefix[:self.pos]))

    def cell(self, loc):
        """Current value at a tracked location."""
        kind = loc[0]
        if kind == 'L':
            return self.frames[loc[1]].locals.get(loc[2])
        if kind == 'A':
            return self.descr[loc[1]].attrs.get(loc[2])
        o = self.descr[loc[1]]
        if isinstance(o, ListObj):
            return tuple(o.segs)
        if isinstance(o, DictObj):
            return tuple(o.layers)
        return (tuple(o.items), o.unk, tuple(o.bases))

    def set_cell(self, loc, v):
        kind = loc[0]
        if kind == 'L':
            self.frames[loc[1]].locals[loc[2]] = v
        elif kind == 'A':
            self.descr[loc[1]].attrs[loc[2]] = v
        else:
            o = self.descr[loc[1]]
            if isinstance(o, ListObj):
                o.segs = list(v)
            elif isinstance(o, DictObj):
                o.layers = list(v)
            else:
                o.items, o.unk, o.bases = list(v[0]), v[1], list(v[2])

    @property
    def frames(self):
        return self._frames

    def enter_loop(self, key, k):
        ctx = LoopCtx(key, self.new_serial(), k)
        modes = self.havoc_modes.setdefault(key, {})
        ctx.init = {}
        for loc, mode in sorted(modes.items(), key=repr):
            try:
                cur = self.cell(loc)
            except KeyError:
                continue
            if cur is None:
                continue
            ctx.init[loc] = cur
            if mode[0] == 'ind':
                self.set_cell(loc, lin_comb(cur, lin_scale(k, mode[1])) if lin_of(cur) is not None else
                              self.fresh(f'{loc[2]}@loop', havoc=True))
            elif mode[0] == 'opaque':
                self.set_cell(loc, self.havoc_value(loc, cur))
            elif mode[0] == 'acc':
                self.set_cell(loc, cur + (('acc', key, loc),))
            elif mode[0] == 'unk':
                o = self.descr[loc[1]]
                if isinstance(o, SetObj):
                    self.set_cell(loc, (cur[0], True, cur[2]))
                else:
                    self.set_cell(loc, (('unk', f'{key}{loc}'),))
        # snapshot of starting values for stride checks
        ctx.start = {}
        for loc in modes:
            try:
                ctx.start[loc] = self.cell(loc)
            except KeyError:
                pass
        ctx.ndec = len(self.path.decisions)
        self.loops.append(ctx)
        return ctx

    def havoc_value(self, loc, cur):
        t = getattr(cur, 'typ', 'any')
        if t not in ('int', 'bool', 'str'):
            t = 'any'
        if isinstance(cur, Const) and isinstance(cur.v, bool):
            t = 'bool'
        return Sym(f'{loc[2]}@loop{loc[1]}', t, havoc=True)

    def end_iteration(self, ctx):
        """The generic iteration reached the loop head again: infer / verify the invariant."""
        modes = self.havoc_modes[ctx.key]
        decs = tuple((d[1], d[2]) for d in self.path.decisions[ctx.ndec:])
        for loc, old in list(ctx.writes.items()):
            try:
                new = self.cell(loc)
            except KeyError:
                continue
            start = ctx.start.get(loc, old)
            mode = modes.get(loc)
            if loc[0] in ('L', 'A'):
                if old is None:      # unbound before the loop
                    continue
                if new is not None and start.key == new.key:
                    continue
                d = lin_comb(new, start, -1) if isinstance(new, Value) and isinstance(start, Value) else None
                isint = lin_of(start) is not None and (isinstance(start, (Const, Lin)) or getattr(start, 'typ', '') == 'int')
                if mode is None:
                    if isinstance(d, Const) and d.v != 0 and isint:
                        nm = ('ind', d.v)
                    else:
                        nm = ('opaque',)
                elif mode[0] == 'ind':
                    nm = mode if isinstance(d, Const) and d.v == mode[1] else ('opaque',)
                else:
                    nm = mode
            else:
                o = self.descr[loc[1]]
                if isinstance(o, SetObj):
                    nm = ('unk',)
                elif new[:len(start)] == start and all(s[0] in ('i', 'kv') for s in new[len(start):]) \
                        and (mode is None or mode[0] == 'acc'):
                    nm = ('acc',)
                    items = new[len(start):]
                    self.loop_alts.setdefault((ctx.key, loc), {})[(items_key(items), decs)] = (items, decs)
                else:
                    nm = ('unk',)
            if nm != mode:
                modes[loc] = nm
                self.changed = True
        for loc, mode in modes.items():
            if mode[0] == 'ind' and loc not in ctx.writes:
                # not advanced on this path: not an induction variable
                modes[loc] = ('opaque',)
                self.changed = True
            if mode[0] == 'acc' and loc not in ctx.writes:
                self.loop_alts.setdefault((ctx.key, loc), {})[((), decs)] = ((), decs)

    def fold(self, ctx):
        """After the last iteration: merge its contributions into the accumulated segment."""
        for loc, mode in self.havoc_modes[ctx.key].items():
            if mode[0] != 'acc' or loc not in ctx.start:
                continue
            new, start = self.cell(loc), ctx.start[loc]
            if new[:len(start)] == start:
                self.set_cell(loc, start)

    def generic_loop(self, node, n, at, run):
        """for-loop over an unknown collection. n: length or None (infinite)."""
        key = self.loop_key(node)
        if n is not None:
            r = self.implied_ge(lin_comb(n, Const(1), -1))
            if r is None:
                x = self.as_len(n)
                if x is not None and isinstance(x, (Sym, Term)):
                    r = self.truth(x)
                else:
                    r = self.choose(f'loop over {self.show(n)} items', ['iterate', 'empty']) == 'iterate'
                if r:
                    self.add_ge(lin_comb(n, Const(1), -1))
                else:
                    self.add_ge(lin_scale(n, -1))
            if not r:
                return
        k = Sym(f'k@{key[1]}:{key[2]}:{len(key[3])}', 'int')
        self.nonneg[k.key] = k
        ctx = self.enter_loop(key, k)
        if n is not None:
            self.add_ge(lin_comb(lin_comb(n, k, -1), Const(1), -1))
        try:
            run(at(k))
            self.end_iteration(ctx)
            if n is None:
                raise PathEnd('loopback', ctx.key)
            if self.choose('more items', [True, False]):
                raise PathEnd('loopback', ctx.key)
            self.fold(ctx)
        finally:
            self.loops.remove(ctx)
        # induction variables hold the value after the last iteration; express it through the length
        d = lin_comb(lin_comb(n, k, -1), Const(1), -1)
        self.ges += [x for x in (lin_scale(d, -1),) if not isinstance(x, Const)]
        for loc, mode in self.havoc_modes[key].items():
            if mode[0] == 'ind':
                init = ctx.init.get(loc)
                if init is not None:
                    self.set_cell(loc, lin_comb(init, lin_scale(n, mode[1])))

    def exec_while(self, s, frame):
        key = self.loop_key(s)
        # first evaluation of the condition with the initial state
        if not self.truth(self.eval(s.test, frame)):
            return self.exec_block(s.orelse, frame)
        # concrete loops are unrolled as long as the condition stays decided
        for i in range(MAX_UNROLL):
            mark = self.pos
            modes = self.havoc_modes.get(key)
            if modes:
                break
            ctx = LoopCtx(key, self.new_serial(), None)
            ctx.start, ctx.init, ctx.ndec = {}, {}, len(self.path.decisions)
            self.loops.append(ctx)
            try:
                try:
                    self.exec_block(s.body, frame)
                except ContinueSig:
                    pass
                except BreakSig:
                    return
            finally:
                self.loops.remove(ctx)
            t = self.truth(self.eval(s.test, frame))
            if self.pos == mark or self.unroll:
                # deterministic so far
                if not t:
                    return self.exec_block(s.orelse, frame)
                continue
            # undetermined decisions inside: the loop needs an invariant; learn the writes of this iteration
            if not t:
                return self.exec_block(s.orelse, frame)
            self.havoc_modes.setdefault(key, {})
            ctx.k = None
            self.end_iteration(ctx)
            if not self.havoc_modes[key]:
                self.havoc_modes[key][('X', 0)] = ('none',)
            self.changed = True
            raise PathEnd('loopback', key)
        else:
            self.imprecise('loop does not terminate abstractly')
        k = Sym(f'k@{key[1]}:{key[2]}:{len(key[3])}', 'int')
        self.nonneg[k.key] = k
        saved_ges = list(self.ges)
        # facts learned from the first evaluation of the condition concern the initial state only
        ctx = self.enter_loop(key, k)
        try:
            if not self.truth(self.eval(s.test, frame)):
                raise PathEnd('infeasible', key)  # covered by the exit below / the first evaluation
            try:
                self.exec_block(s.body, frame)
            except ContinueSig:
                pass
            except BreakSig:
                return
            self.end_iteration(ctx)
            again = self.truth(self.eval(s.test, frame))
            if again:
                raise PathEnd('loopback', key)
            self.fold(ctx)
        finally:
            self.loops.remove(ctx)
        self.exec_block(s.orelse, frame)

    # ------------------------------------------------------------ frames
    def push(self, frame):
        if len(self.stack) > MAX_DEPTH:
            self.imprecise('call depth')
        self.stack.append(frame)

    def pop(self):
        self.stack.pop()

    def new_frame(self, module, func=None, parent=None, cls=None):
        f = Frame(self.new_serial(), module, func, parent, cls)
        self._frames[f.serial] = f
        return f

    # ------------------------------------------------------------ names
    def module_value(self, modname, name):
        ov = self.global_values.get((modname, name))
        if ov is not None:
            return ov(self)
        ck = (modname, name)
        if ck in self.globals_cache:
            return self.globals_cache[ck]
        r = self.p.resolve(modname, name)
        v = self.from_resolved(r, name)
        if v is not None:
            self.globals_cache[ck] = v
        return v

    def from_resolved(self, r, name):
        kind, payload = r
        if kind == 'func':
            fq = (payload.module.name, payload.qualname)
            ov = self.global_values.get(fq)
            if ov is not None:
                return ov(self)
            ck = ('func',) + fq
            if ck not in self.globals_cache:
                fv = FuncV(payload)
                self.globals_cache[ck] = fv
                self.globals_cache[ck] = self.decorate(fv)
            return self.globals_cache[ck]
        if kind == 'class':
            return ClassV(payload)
        if kind == 'module':
            return ModuleV(payload)
        if kind in ('ext', 'extmod'):
            ov = self.global_values.get(payload)
            if ov is not None:
                return ov(self)
            return ExtV(payload)
        if kind == 'expr':
            m, node = payload
            ov = self.global_values.get((m.name, name))
            if ov is not None:
                return ov(self)
            ck = ('expr', m.name, id(node))
            if ck not in self.globals_cache:
                fr = self.new_frame(m)
                before = self.serial
                self.stack.append(fr)
                loops, self.loops = self.loops, []
                try:
                    v = self.eval(node, fr)
                finally:
                    self.stack.pop()
                    self.loops = loops
                for o in reachable(v):
                    if isinstance(o, Obj) and o.serial > before:
                        o.origin = 'global'
                self.globals_cache[ck] = v
            return self.globals_cache[ck]
        if kind == 'decl':
            return None
        return None

    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.locals:
                return f.locals[name]
            f = f.parent
        fi = frame
        while fi is not None and fi.func is None and fi.parent is not None:
            fi = fi.parent
        if fi.func is not None and name in fi.func.locals and name not in fi.func.globals:
            self.raise_('builtins.UnboundLocalError', name)
        v = self.module_value(frame.module.name, name)
        if v is not None:
            return v
        if name in BUILTINS:
            ov = self.global_values.get('builtins.' + name)
            return ov(self) if ov else ExtV('builtins.' + name)
        if name == '__name__':
            return Const(frame.module.name)
        self.imprecise(f'unresolved name {name}')

    def assign_name(self, name, v, frame):
        f = frame
        fi = f
        while fi.func is None and fi.parent is not None and getattr(fi, 'comp', False):
            fi = fi.parent
        if fi.func is not None and name in fi.func.nonlocals:
            q = fi.parent
            while q is not None and name not in q.locals:
                q = q.parent
            f = q or frame
            if self.threshold is not None and f.serial < self.threshold:
                self.event('mutate', 'setnonlocal', FuncV(f.func, f.parent), [Const(name), v])
        elif fi.func is not None and name in fi.func.globals:
            self.event('mutate', 'setglobal', ModuleV(frame.module.name), [Const(name), v])
            self.globals_cache[(frame.module.name, name)] = v
            return
        self.track(('L', f.serial, name), f.serial, f.locals.get(name))
        f.locals[name] = v

    # ------------------------------------------------------------ classes
    def class_mro(self, cls):
        if isinstance(cls, ClassV):
            cls = cls.ci
        if isinstance(cls, ClassInfo):
            return self.p.mro(cls)
        if isinstance(cls, SynthClass):
            out, seqs = [cls], []
            for b in cls.bases:
                seqs.append(list(self.class_mro(b)))
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            return out
        if isinstance(cls, ExtV):
            return [('ext', cls.name)]
        return []

    def class_lookup(self, cls, name, after=None):
        """(FuncInfo | Value | ('ext', dotted), owner) or None."""
        skip = after is not None
        for c in self.class_mro(cls):
            if skip:
                if c is after or (isinstance(c, ClassInfo) and c is after):
                    skip = False
                continue
            if isinstance(c, SynthClass):
                if name in c.attrs:
                    return c.attrs[name], c
                continue
            if isinstance(c, ClassInfo):
                ov = self.class_attrs.get((c.fullname, name))
                if ov is not None:
                    return ov, c
                if name in c.methods:
                    return c.methods[name], c
                if name in c.nested:
                    return ClassV(c.nested[name]), c
                if name in c.attrs:
                    if self.p.is_enum(c):
                        return self.enum_member(c, name), c
                    return self.class_attr_value(c, name), c
                continue
            if name in EXT_OBJECT_ATTRS or c[1] in ('abc.ABC', 'builtins.object', 'object', 'typing.Generic',
                                                   'typing.Protocol', 'enum.Enum'):
                continue
            if self.ext_has(c[1], name):
                return ('ext', f'{c[1]}.{name}'), c
        return None

    def ext_has(self, dotted, name):
        return True

    def class_attr_value(self, c, name):
        ck = ('classattr', c.fullname, name)
        if ck not in self.globals_cache:
            fr = self.new_frame(c.module)
            before = self.serial
            self.stack.append(fr)
            loops, self.loops = self.loops, []
            try:
                # names of the class body visible
                for n in c.nested:
                    fr.locals[n] = ClassV(c.nested[n])
                v = self.eval(c.attrs[name], fr)
            finally:
                self.stack.pop()
                self.loops = loops
            for o in reachable(v):
                if isinstance(o, Obj) and o.serial > before:
                    o.origin = 'global'
            self.globals_cache[ck] = v
        return self.globals_cache[ck]

    def enum_members(self, ci):
        return [self.enum_member(ci, n) for n in ci.attrs if not n.startswith('_')]

    def enum_member(self, ci, name):
        v = ci.attrs[name]
        if isinstance(v, ast.Constant):
            return EnumM(ci, name, v.value)
        if isinstance(v, ast.Call) and not v.args:
            return EnumM(ci, name, list(ci.attrs).index(name) + 1)
        return EnumM(ci, name, None)

    def bind_method(self, fi, inst, cls):
        fv = FuncV(fi)
        if 'staticmethod' in fi.decorators:
            return fv
        if 'classmethod' in fi.decorators or fi.name in ('__init_subclass__', '__class_getitem__'):
            c = inst if isinstance(inst, (ClassV, SynthClass)) else self.class_value(cls)
            return BoundV(fv, c)
        return BoundV(fv, inst)

    def class_value(self, cls):
        if isinstance(cls, ClassInfo):
            return ClassV(cls)
        return cls

    def type_of(self, v):
        if isinstance(v, Inst):
            return self.class_value(v.cls)
        if isinstance(v, EnumM):
            return ClassV(v.cls)
        if isinstance(v, Const):
            return ExtV('builtins.' + type(v.v).__name__)
        if isinstance(v, ListObj):
            return ExtV('builtins.list')
        if isinstance(v, TupleV):
            return ExtV('builtins.tuple')
        if isinstance(v, DictObj):
            return ExtV('builtins.dict')
        if isinstance(v, SetObj):
            return ExtV('builtins.set')
        meta = getattr(v, 'meta', None) or {}
        if 'cls' in meta:
            return self.class_value(meta['cls'])
        return Term('type', (v,), 'cls')

    def is_instance(self, v, c):
        if isinstance(c, TupleV):
            return any(self.is_instance(v, x) for x in c.items)
        if isinstance(c, Term) and c.op == 'typeunion':
            return any(self.is_instance(v, x) for x in c.args)
        if isinstance(c, Const) and c.v is None:
            return self.isnone(v)
        if isinstance(v, (Sym, Term)):
            if self.possible(v) == {'N'}:
                return isinstance(c, ExtV) and c.name in ('builtins.object', 'types.NoneType')
            meta = getattr(v, 'meta', None) or {}
            t = v.typ
            if isinstance(c, ExtV) and c.name == 'builtins.object':
                return True
            if isinstance(c, ExtV):
                n = c.name
                if 'isa' in meta:
                    return n in meta['isa']
                if t == 'str' and n in ('builtins.str', 'builtins.bytes', 'builtins.int', 'builtins.bool',
                                        'builtins.float', 'builtins.dict', 'builtins.list', 'builtins.tuple'):
                    return n == 'builtins.str'
                if t == 'bool' and n.startswith('builtins.'):
                    return n in ('builtins.bool', 'builtins.int')
                if t == 'dict' and n in ('builtins.dict', 'collections.abc.Mapping', 'typing.Mapping', 'typing.Sized',
                                         'collections.abc.Sized'):
                    return True
                if t == 'list' and n in ('builtins.list', 'builtins.tuple', 'builtins.str'):
                    return n == 'builtins.list'
                if 'exc' in meta:
                    return EXC_ALIASES.get(n, n) in exc_bases(meta['exc'])
            if isinstance(c, (ClassV, SynthClass)) and 'cls' in meta:
                return self.subclass(meta['cls'], c)
            if isinstance(c, ClassV) and 'isa' in meta:
                return any(isinstance(x, ClassV) and self.subclass(x.ci, c) for x in meta['isa'])
            k = (v.key, c.key)
            if k not in self.insts:
                r = self.choose(f'isinstance({self.show(v)}, {self.show(c)})', [True, False])
                self.insts[k] = r
                if r and 'N' in self.possible(v):
                    self.set_kind(v, self.possible(v) - {'N'})
            return self.insts[k]
        if isinstance(v, Inst):
            if isinstance(v.cls, ExtV) and v.cls.name == 'native.Element' and isinstance(c, ExtV) and 'tree' in c.name.lower():
                return c.name.split('.')[-1] in NODE_CLASSES[v.attrs.get('__node__', NONE).v]
            return self.subclass(v.cls, c)
        if isinstance(v, EnumM):
            if isinstance(c, ClassV):
                return c.ci is v.cls
            return isinstance(c, ExtV) and c.name.replace('builtins.', '') in self.p.ext_bases(v.cls)
        if isinstance(c, ExtV):
            n = c.name
            if isinstance(v, Const):
                t = getattr(builtins, n[9:], None) if n.startswith('builtins.') else None
                if isinstance(t, type):
                    return isinstance(v.v, t)
                return n in ('collections.abc.Sized', 'typing.Sized', 'collections.abc.Sequence', 'typing.Sequence',
                             'collections.abc.Iterable', 'typing.Iterable') and isinstance(v.v, (str, bytes))
            kinds = {
                ListObj: ('builtins.list', 'typing.Sized', 'collections.abc.Sized', 'typing.Iterable', 'typing.List',
                          'collections.abc.Iterable', 'collections.abc.Sequence', 'typing.Sequence', 'builtins.object'),
                TupleV: ('builtins.tuple', 'typing.Sized', 'collections.abc.Sized', 'typing.Iterable', 'typing.Tuple',
                         'collections.abc.Iterable', 'collections.abc.Sequence', 'typing.Sequence', 'builtins.object'),
                DictObj: ('builtins.dict', 'typing.Sized', 'collections.abc.Sized', 'typing.Mapping', 'typing.Dict',
                          'collections.abc.Mapping', 'typing.Iterable', 'collections.abc.Iterable', 'builtins.object'),
                SetObj: ('builtins.set', 'typing.Sized', 'collections.abc.Sized', 'builtins.object'),
            }.get(type(v))
            if kinds is not None:
                return n in kinds
            if isinstance(v, (FuncV, BoundV)):
                return n in ('typing.Callable', 'collections.abc.Callable', 'types.FunctionType', 'builtins.object')
            if isinstance(v, (ClassV, SynthClass)):
                return n in ('builtins.type', 'builtins.object')
            if isinstance(v, ExtV):
                if n == 'builtins.type':
                    return v.name.split('.')[-1][:1].isupper()
                return False
            if isinstance(v, Lin):
                return n in ('builtins.int', 'builtins.object')
        return False

    def subclass(self, cls, c):
        if isinstance(c, TupleV):
            return any(self.subclass(cls, x) for x in c.items)
        if isinstance(c, Term) and c.op == 'typeunion':
            return any(self.subclass(cls, x) for x in c.args)
        if isinstance(cls, ClassV):
            cls = cls.ci
        if isinstance(cls, (Sym, Term)):
            meta = getattr(cls, 'meta', None) or {}
            if 'sub' in meta:
                return c.key in [x.key for x in meta['sub']]
            k = (cls.key, c.key, 'sub')
            if k not in self.insts:
                self.insts[k] = self.choose(f'issubclass({cls!r}, {c!r})', [True, False])
            return self.insts[k]
        mro = self.class_mro(cls)
        if isinstance(c, ClassV):
            return c.ci in mro
        if isinstance(c, SynthClass):
            return any(x is c for x in mro)
        if isinstance(c, ExtV):
            n = EXC_ALIASES.get(c.name, c.name)
            for x in mro:
                if isinstance(x, tuple):
                    nm = x[1] if '.' in x[1] else 'builtins.' + x[1]
                    if nm == n or n in exc_bases(nm):
                        return True
                    if n in ALIASES.get(nm, ()):
                        return True
            return n == 'builtins.object'
        return False

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, default=None):
        r = self.getattr_opt(v, name)
        if r is None:
            if default is not None:
                return default
            self.raise_('builtins.AttributeError', name)
        return r

    no_attr = staticmethod(lambda v, name: False)

    def getattr_opt(self, v, name):
        if self.no_attr(v, name):
            return None
        if isinstance(v, Inst):
            if name in v.attrs:
                return v.attrs[name]
            if name == '__class__':
                return self.class_value(v.cls)
            if name == '__dict__':
                return self.dict_of(v.attrs)
            return self.class_get(v.cls, name, v)
        if name == '__dict__' and isinstance(v, (ClassV, SynthClass, ExtV)):
            f = self.ext.get('builtins.vars')
            d = f(self, [v], {}) if f is not None else NotImplemented
            if isinstance(d, DictObj):
                return d
        if isinstance(v, (ClassV, SynthClass)):
            cls = v.ci if isinstance(v, ClassV) else v
            if name == '__name__':
                return Const(cls.name)
            if name == '__qualname__':
                return Const(getattr(cls, 'qualname', cls.name))
            if name == '__module__' and isinstance(v, ClassV):
                return Const(cls.module.name)
            if name == '__mro__':
                return TupleV.of([self.class_value(c) if not isinstance(c, tuple) else ExtV(c[1])
                                  for c in self.class_mro(cls)])
            if name == '__bases__' and isinstance(v, SynthClass):
                return TupleV.of([self.class_value(c) for c in v.bases])
            if name == '__base__':
                mro = self.class_mro(cls)
                if isinstance(v, SynthClass):
                    return self.class_value(v.bases[0]) if v.bases else ExtV('builtins.object')
                nxt = mro[1] if len(mro) > 1 else ('ext', 'builtins.object')
                return self.class_value(nxt) if not isinstance(nxt, tuple) else ExtV(nxt[1])
            return self.class_get(cls, name, None, on_class=v)
        if isinstance(v, SuperV):
            inst = v.self
            cls = inst if isinstance(inst, (SynthClass,)) else inst.ci if isinstance(inst, ClassV) else inst.cls \
                if isinstance(inst, Inst) else None
            if cls is None:
                meta = getattr(inst, 'meta', None) or {}
                cls = meta.get('cls')
                if cls is None:
                    self.imprecise(f'super() of {inst!r}')
            r = self.class_lookup(cls, name, after=v.after)
            if r is None:
                if name == '__new__' and isinstance(inst, ClassV):
                    return MethV(inst, name)
                if name in ('__init__', '__init_subclass__', '__setattr__', '__new__'):
                    return PyFn('object.' + name, lambda i, a, k: NONE)
                return None
            return self.bind_found(r, inst if isinstance(inst, Inst) or not isinstance(inst, (ClassV, SynthClass)) else None,
                                   cls, inst if isinstance(inst, (ClassV, SynthClass)) else None, name)
        if isinstance(v, ModuleV):
            r = self.module_value(v.name, name)
            if r is None and f'{v.name}.{name}' in self.p.modules:
                return ModuleV(f'{v.name}.{name}')
            return r
        if isinstance(v, ExtV):
            dotted = f'{v.name}.{name}'
            ov = self.global_values.get(dotted)
            if ov is not None:
                return ov(self)
            if (v.key, name) in self.symattrs:
                return self.symattrs[(v.key, name)]
            return ExtV(dotted)
        if isinstance(v, EnumM):
            if name == 'value':
                return self.lift(v.value)
            if name == 'name':
                return Const(v.name)
            r = self.class_lookup(v.cls, name)
            if r and isinstance(r[0], FuncInfo):
                return self.bind_found(r, v, v.cls, None, name)
            return MethV(self.lift(v.value), name)
        if isinstance(v, FuncV):
            if name in v.attrs:
                return v.attrs[name]
            if name == '__name__':
                return Const(v.info.name)
            if (v.key, name) in self.symattrs:
                return self.symattrs[(v.key, name)]
            if name in ('__func__', '__wrapped__'):
                return v
            return None
        if isinstance(v, BoundV):
            if name == '__func__':
                return v.func
            if name == '__self__':
                return v.self
            return self.getattr_opt(v.func, name)
        if isinstance(v, (Sym, Term)):
            if (v.key, name) in self.symattrs:
                return self.symattrs[(v.key, name)]
            ks = self.possible(v)
            if ks == {'N'}:
                return None
            if v.typ.startswith('?') and self.isnone(v):
                return None
            if v.typ in ('str', '?str') and name in STR_METHODS:
                return MethV(v, name)
            if v.typ in ('dict', '?dict') or v.key in self.shadow:
                return MethV(v, name)
            t = v.typ.lstrip('?')
            cls = self.typ_class(v)
            if t == 'elem' and name.startswith('_') and not name.startswith('__') and (
                    cls is None or self.class_lookup(cls, name) is None):
                self.note(f'private state {name} of an unknown element')
            if cls is not None:
                r = self.class_lookup(cls, name)
                if r is not None and isinstance(r[0], FuncInfo):
                    fi = r[0]
                    if 'property' in fi.decorators or 'cached_property' in fi.decorators:
                        return Term('attr', (v, name), self.attr_typs.get((t, name), self.annotation_typ(fi.returns)))
                    return MethV(v, name)
            meta = getattr(v, 'meta', None) or {}
            if 'attrs' in meta and name in meta['attrs']:
                return meta['attrs'][name]
            return Term('attr', (v, name), self.attr_typs.get((t, name), 'any'))
        if isinstance(v, Const) and v.v is None:
            return None
        if isinstance(v, (Const, ListObj, DictObj, TupleV, SetObj, IterV, Lin)):
            if isinstance(v, DictObj) and v.mapkind == 'chain':
                if name == 'maps':
                    self.imprecise('ChainMap.maps')
            if name == '__class__':
                return self.type_of(v)
            return MethV(v, name)
        return Term('attr', (v, name))

    def typ_class(self, v):
        meta = getattr(v, 'meta', None) or {}
        if 'cls' in meta:
            return meta['cls']
        t = v.typ.lstrip('?')
        fn = self.typ_classes.get(t)
        return fn

    typ_classes = {}

    def annotation_typ(self, node):
        if node is None:
            return 'any'
        if isinstance(node, ast.Constant):
            if node.value is None:
                return 'none'
            if isinstance(node.value, str):
                try:
                    return self.annotation_typ(ast.parse(node.value, mode='eval').body)
                except SyntaxError:
                    return 'any'
        if isinstance(node, ast.Subscript):
            b = node.value
            n = b.attr if isinstance(b, ast.Attribute) else getattr(b, 'id', '')
            if n == 'Optional':
                t = self.annotation_typ(node.slice)
                return t if t == 'any' or t.startswith('?') else '?' + t
            return {'List': 'list', 'list': 'list', 'Dict': 'dict', 'dict': 'dict', 'Mapping': 'dict', 'Tuple': 'tuple',
                    'tuple': 'tuple', 'Set': 'set', 'Type': 'cls', 'PathT': 'tuple', 'XmlElement': 'elem'}.get(n, 'any')
        n = node.attr if isinstance(node, ast.Attribute) else getattr(node, 'id', '')
        return {'str': 'str', 'bool': 'bool', 'int': 'int', 'XmlElement': 'elem', 'XmlElementReader': 'elem',
                'XmlElementWriter': 'elem', 'NsMap': 'dict'}.get(n, 'any')

    def class_get(self, cls, name, inst, on_class=None):
        r = self.class_lookup(cls, name)
        if r is None:
            if isinstance(on_class, SynthClass) and on_class.meta is not None:
                r = self.class_lookup(on_class.meta, name)
                if r is not None and isinstance(r[0], FuncInfo):
                    return self.bind_method(r[0], ClassV(on_class.meta) if 'classmethod' in r[0].decorators
                                            else on_class, on_class.meta)
            return None
        return self.bind_found(r, inst, cls, on_class, name)

    def bind_found(self, r, inst, cls, on_class, name):
        f, owner = r
        if isinstance(f, FuncInfo):
            decs = f.decorators
            if 'property' in decs or 'cached_property' in decs or 'abstractproperty' in decs:
                if on_class is not None:
                    return Term('attr', (on_class, name))
                if 'cached_property' in decs and isinstance(inst, Inst):
                    val = self.call(BoundV(FuncV(f), inst), [], {})
                    if not (self.threshold is not None and inst.serial < self.threshold):
                        inst.attrs[name] = val
                    return val
                return self.call(BoundV(FuncV(f), inst), [], {})
            if on_class is not None:
                if 'classmethod' in decs or name in ('__init_subclass__', '__class_getitem__'):
                    return BoundV(FuncV(f), on_class)
                return FuncV(f)
            return self.bind_method(f, inst, cls)
        if isinstance(f, tuple) and f[0] == 'ext':
            recv = on_class if on_class is not None else inst
            return MethV(recv, name) if recv is not None else ExtV(f[1])
        if isinstance(f, (FuncV,)) and inst is not None:
            return BoundV(f, inst)
        if isinstance(f, PyFn) and inst is not None and f.name.startswith('method:'):
            return BoundV(f, inst)
        if isinstance(f, PyFn) and on_class is not None and f.name.startswith('classmethod:'):
            return BoundV(f, on_class)
        if isinstance(f, Inst) and inst is not None:
            g = self.class_lookup(f.cls, '__get__')
            if g is not None and isinstance(g[0], FuncInfo):
                return self.call(self.bind_method(g[0], f, f.cls), [inst, self.class_value(cls)], {})
        return f

    def setattr(self, v, name, val):
        if isinstance(v, Inst):
            if self.threshold is not None and v.serial < self.threshold or v.origin != 'new':
                self.event('mutate', 'setattr', v, [Const(name), val])
            self.track(('A', v.serial, name), v.serial, v.attrs.get(name))
            self.remember(v)
            v.attrs[name] = val
            return
        if isinstance(v, ClassV):
            self.event('mutate', 'setclassattr', v, [Const(name), val])
            self.class_attrs[(v.ci.fullname, name)] = val
            return
        if isinstance(v, SynthClass):
            self.event('mutate', 'setclassattr', v, [Const(name), val])
            self.track(('A', v.serial, name), v.serial, v.attrs.get(name))
            self.remember(v)
            v.attrs[name] = val
            return
        if isinstance(v, FuncV):
            if self.threshold is not None and (v.frame is None or v.frame.serial < self.threshold):
                self.event('mutate', 'setattr', v, [Const(name), val])
            v.attrs[name] = val
            self.symattrs[(v.key, name)] = val
            return
        if isinstance(v, Const) and v.v is None:
            self.raise_('builtins.AttributeError', name)
        self.event('mutate', 'setattr', v, [Const(name), val])
        self.symattrs[(v.key, name)] = val

    # ------------------------------------------------------------ calls
    def call(self, fv, args, kwargs, node=None):
        self.stats['calls'] += 1
        if isinstance(fv, FuncV):
            return self.call_func(fv, args, kwargs)
        if isinstance(fv, BoundV):
            return self.call(fv.func, [fv.self] + list(args), kwargs)
        if isinstance(fv, PyFn):
            return fv.fn(self, list(args), dict(kwargs))
        if isinstance(fv, PartialV):
            return self.call(fv.func, list(fv.args) + list(args), {**fv.kwargs, **kwargs})
        if isinstance(fv, ClassV):
            return self.instantiate(fv, args, kwargs)
        if isinstance(fv, SynthClass):
            e = self.event('new', fv.name, fv, args, kwargs)
            e.result = self.new_inst(fv, {k: v for k, v in kwargs.items() if isinstance(k, str)})
            return e.result
        if isinstance(fv, ExtV):
            return self.x.call_external(self, fv.name, list(args), dict(kwargs))
        if isinstance(fv, MethV):
            return self.x.call_method(self, fv.recv, fv.name, list(args), dict(kwargs))
        if isinstance(fv, Inst):
            f = self.class_lookup(fv.cls, '__call__')
            if f is not None and isinstance(f[0], FuncInfo):
                return self.call(self.bind_method(f[0], fv, fv.cls), args, kwargs)
            return self.opaque_call('call', '__call__', fv, args, kwargs)
        if isinstance(fv, Term) and fv.op == 'attr':
            return self.x.call_method(self, fv.args[0], fv.args[1], list(args), dict(kwargs))
        if isinstance(fv, Const):
            self.raise_('builtins.TypeError', 'not callable')
        if fv.key in self.sym_calls:
            e = self.event('call', repr(fv), fv, args, kwargs)
            e.result = self.sym_calls[fv.key](e)
            return e.result
        return self.opaque_call('call', repr(fv), fv, args, kwargs)

    def opaque_call(self, kind, name, recv, args, kwargs, typ='any', meta=None):
        e = self.event(kind, name, recv, args, kwargs)
        if self.raises is not None:
            excs = self.raises(self, e)
            if excs:
                r = self.choose(f'{name} raises', ['ok'] + list(excs))
                if r != 'ok':
                    exc = Sym(f'{r.split(".")[-1]} from {name}@{e.seq}', 'obj', meta={'exc': r, 'event': e})
                    e.raised = exc
                    raise PyRaise(exc)
        if typ == 'none':
            e.result = NONE
        else:
            e.result = Sym(f'{name}()@{e.seq}', typ, meta=dict(meta or {}, event=e))
        return e.result

    def decorate(self, fv):
        """Applies decorators of a module level / nested function that are not transparent."""
        known = {'staticmethod', 'classmethod', 'property', 'cached_property', 'abstractmethod', 'overload', 'wraps',
                 'lru_cache', 'cache', 'contextmanager', 'no_type_check', 'final', 'override', 'singledispatch',
                 'dataclass_transform', 'deprecated'}
        v = fv
        for d, name in zip(reversed(fv.info.node.decorator_list), reversed(fv.info.decorators)):
            if name in known:
                continue
            fr = fv.frame or self.new_frame(fv.info.module)
            dec = self.eval(d, fr)
            v = self.call(dec, [v], {})
        return v

    def bind_args(self, info, args, kwargs, defaults_frame, fv):
        loc = {}
        args = list(args)
        kwargs = dict(kwargs)
        pos = list(info.params)
        star = []
        i = 0
        for a in args:
            if isinstance(a, Star):
                if i < len(pos) and not (info.vararg and i >= len(pos)):
                    if i < len(pos):
                        self.imprecise('star argument of unknown length')
                star += list(a.segs)
                i = max(i, len(pos))
                continue
            if i < len(pos):
                loc[pos[i]] = a
                i += 1
            elif info.vararg:
                star.append(('i', a))
            else:
                self.raise_('builtins.TypeError', f'too many arguments for {info.qualname}')
        if info.vararg:
            loc[info.vararg] = TupleV(star)
        elif star:
            self.raise_('builtins.TypeError', 'too many arguments')
        names = set(pos) - set(info.posonly) | set(info.kwonly)
        extra = []
        bases = kwargs.pop('**', [])
        for k, v in kwargs.items():
            if k in names:
                if k in loc:
                    self.raise_('builtins.TypeError', f'multiple values for {k}')
                loc[k] = v
            elif info.kwarg:
                extra.append(('kv', Const(k), v))
            else:
                self.raise_('builtins.TypeError', f'{info.qualname} got an unexpected keyword argument {k}')
        if info.kwarg:
            loc[info.kwarg] = self.new_dict([('base', b) for b in bases] + extra)
        elif bases:
            for b in bases:
                for n in sorted(names):
                    if n not in loc and self.in_fact(Const(n), b):
                        loc[n] = self.base_item(b, Const(n))
        for n in pos + info.kwonly:
            if n not in loc:
                if n in info.defaults:
                    loc[n] = self.default_value(fv, n)
                else:
                    self.raise_('builtins.TypeError', f'{info.qualname} missing argument {n}')
        return loc

    def default_value(self, fv, name):
        info = fv.info
        if fv.defaults is not None and name in fv.defaults:
            return fv.defaults[name]
        ck = ('default', info.module.name, info.qualname, info.node.lineno, name, fv.frame.serial if fv.frame else None)
        if ck not in self.globals_cache:
            fr = fv.frame or self.new_frame(info.module)
            before = self.serial
            self.stack.append(fr)
            loops, self.loops = self.loops, []
            try:
                v = self.eval(info.defaults[name], fr)
            finally:
                self.stack.pop()
                self.loops = loops
            for o in reachable(v):
                if isinstance(o, Obj) and o.serial > before:
                    o.origin = 'global'
            self.globals_cache[ck] = v
        return self.globals_cache[ck]

    def call_cached(self, fv, args, kwargs):
        """A memoised function: its results are shared by all calls with these arguments."""
        ck = ('memo', fv.key, tuple(self.key_of(a) for a in args), tuple(sorted((k, self.key_of(v)) for k, v in kwargs.items())))
        memo = self.path.data.setdefault('memo', {})
        if ck not in memo:
            before = self.serial
            self._in_cache = True
            v = self.call_func(fv, args, kwargs)
            for o in reachable(v):
                if isinstance(o, Obj) and o.serial > before:
                    o.origin = 'global'
            memo[ck] = v
        return memo[ck]

    @staticmethod
    def key_of(v):
        return v.key

    def call_func(self, fv, args, kwargs):
        info = fv.info
        hook = self.hooks.get(f'{info.module.name}.{info.qualname}')
        if hook is not None:
            r = hook(self, list(args), dict(kwargs))
            if r is not NotImplemented:
                return r
        self.stats['functions'].add(f'{info.module.relpath}:{info.qualname}')
        if ('lru_cache' in info.decorators or 'cache' in info.decorators) and not getattr(self, '_in_cache', False):
            return self.call_cached(fv, args, kwargs)
        self._in_cache = False
        n = sum(1 for f in self.stack if f.func is info)
        if n > 30:
            self.imprecise(f'recursion of {info.qualname}')
        loc = self.bind_args(info, args, kwargs, None, fv)
        frame = self.new_frame(info.module, info, fv.frame, info.cls)
        frame.locals = loc
        if info.params:
            frame.self_val = loc.get(info.params[0])
        if info.is_generator:
            if 'contextmanager' in info.decorators:
                return IterV('ctxmgr', fv, frame, info)
            return IterV('gen', fv, frame, info)
        if isinstance(info.node, ast.Lambda):
            self.push(frame)
            try:
                return self.eval(info.node.body, frame)
            finally:
                self.pop()
        self.push(frame)
        saved = self.node
        try:
            self.exec_block(info.node.body, frame)
        except ReturnSig as r:
            return r.value
        finally:
            self.pop()
            self.node = saved
        return NONE

    def instantiate(self, cv, args, kwargs):
        ci = cv.ci
        hook = self.hooks.get(f'new:{ci.fullname}')
        if hook is not None:
            r = hook(self, list(args), dict(kwargs))
            if r is not NotImplemented:
                return r
        if self.p.is_enum(ci):
            for m in self.enum_members(ci):
                if self.eq(self.lift(m.value), args[0]):
                    return m
            self.raise_('builtins.ValueError')
        new = self.class_lookup(ci, '__new__')
        if new is not None and isinstance(new[0], FuncInfo):
            self.imprecise(f'custom __new__ of {ci.fullname}')
        inst = self.new_inst(ci)
        init = self.class_lookup(ci, '__init__')
        if init is not None and isinstance(init[0], FuncInfo):
            self.call(BoundV(FuncV(init[0]), inst), args, kwargs)
            return inst
        if any(isinstance(c, ClassInfo) and c.is_dataclass for c in self.p.mro(ci)):
            self.dataclass_init(inst, ci, args, kwargs)
            return inst
        if self.p.is_exception(ci):
            inst.attrs['args'] = TupleV.of(args) if not any(isinstance(a, Star) for a in args) else TupleV([('unk', 'args')])
            return inst
        if 'typing.NamedTuple' in self.p.ext_bases(ci) or 'NamedTuple' in self.p.ext_bases(ci):
            names = list(ci.annotations)
            vals = dict(zip(names, args))
            vals.update({k: v for k, v in kwargs.items() if k != '**'})
            for n in names:
                if n not in vals:
                    if n in ci.attrs:
                        vals[n] = self.class_attr_value(ci, n)
                    else:
                        self.raise_('builtins.TypeError')
            inst.attrs.update(vals)
            inst.attrs['__tuple__'] = TupleV.of([vals[n] for n in names])
            return inst
        ext = [b for b in self.p.ext_bases(ci) if b not in ('abc.ABC', 'object', 'typing.Generic', 'typing.Protocol')]
        if ext:
            e = self.event('new', ci.fullname, None, args, kwargs)
            e.result = inst
            inst.attrs.update({k: v for k, v in kwargs.items() if isinstance(k, str)})
            return inst
        if args or kwargs:
            self.raise_('builtins.TypeError', f'{ci.name}() takes no arguments')
        return inst

    def is_cached_property(self, cls, name):
        r = self.class_lookup(cls, name)
        return r is not None and isinstance(r[0], FuncInfo) and 'cached_property' in r[0].decorators

    def dataclass_fields(self, ci):
        fields = {}
        for c in reversed(self.p.mro(ci)):
            if isinstance(c, ClassInfo):
                if c.is_dataclass:
                    for n, ann in c.annotations.items():
                        if 'ClassVar' in _dump(ann):
                            continue
                        fields[n] = c
            elif c[1] in self.ext_dataclass_fields:
                for n in self.ext_dataclass_fields[c[1]]:
                    fields[n] = None
        return fields

    ext_dataclass_fields = {}

    def dataclass_init(self, inst, ci, args, kwargs):
        fields = self.dataclass_fields(ci)
        names = list(fields)
        vals = {}
        for n, a in zip(names, args):
            if isinstance(a, Star):
                self.imprecise('star argument')
            vals[n] = a
        if len(args) > len(names):
            self.raise_('builtins.TypeError')
        kw = dict(kwargs)
        bases = kw.pop('**', [])
        for k, v in kw.items():
            if k not in fields:
                self.raise_('builtins.TypeError', f'unexpected keyword argument {k}')
            vals[k] = v
        for n, c in fields.items():
            if n in vals:
                continue
            if c is None:
                got = None
                for b in bases:
                    got = Term('item', (b, Const(n)))
                if got is not None:
                    vals[n] = got
                continue
            d = c.attrs.get(n)
            if d is None:
                got = None
                for b in bases:
                    got = Term('item', (b, Const(n)))
                if got is None:
                    self.raise_('builtins.TypeError', f'missing argument {n}')
                vals[n] = got
                continue
            fac = field_factory(d)
            if fac is not None:
                kind, node = fac
                fr = self.new_frame(c.module)
                self.stack.append(fr)
                try:
                    v = self.eval(node, fr)
                    vals[n] = self.call(v, [], {}) if kind == 'factory' else v
                finally:
                    self.stack.pop()
            else:
                vals[n] = self.class_attr_value(c, n)
        inst.attrs.update(vals)
        post = self.class_lookup(ci, '__post_init__')
        if post is not None and isinstance(post[0], FuncInfo):
            self.call(BoundV(FuncV(post[0]), inst), [], {})

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, frame):
        for s in stmts:
            self.exec(s, frame)

    def exec(self, s, frame):
        self.node = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.imprecise(f'statement {type(s).__name__}')
        m(s, frame)

    def s_Expr(self, s, f):
        self.eval(s.value, f)

    def s_Pass(self, s, f):
        pass

    def s_Return(self, s, f):
        raise ReturnSig(self.eval(s.value, f) if s.value is not None else NONE)

    def s_Break(self, s, f):
        raise BreakSig()

    def s_Continue(self, s, f):
        raise ContinueSig()

    def s_If(self, s, f):
        if self.truth(self.eval(s.test, f)):
            self.exec_block(s.body, f)
        else:
            self.exec_block(s.orelse, f)

    def s_While(self, s, f):
        self.exec_while(s, f)

    def s_For(self, s, f):
        it = self.eval(s.iter, f)

        def body(item):
            self.assign(s.target, item, f)
            self.exec_block(s.body, f)
        try:
            self.iterate(it, body, s)
        except BreakSig:
            return
        self.exec_block(s.orelse, f)

    def s_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def s_AugAssign(self, s, f):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, f)
            put = lambda v: self.assign_name(t.id, v, f)  # noqa: E731
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, f)
            cur = self.getattr(o, t.attr)
            put = lambda v: self.setattr(o, t.attr, v)  # noqa: E731
        else:
            o = self.eval(t.value, f)
            k = self.eval(t.slice, f)
            cur = self.subscript(o, k)
            put = lambda v: self.setitem(o, k, v)  # noqa: E731
        rhs = self.eval(s.value, f)
        if isinstance(cur, ListObj) and isinstance(s.op, ast.Add):
            segs = self.to_segs(rhs)
            self.mutated(cur, 'extend', (rhs,))
            cur.segs = cur.segs + segs
            return
        if isinstance(cur, DictObj) and isinstance(s.op, ast.BitOr):
            self.dict_update(cur, rhs)
            return
        if isinstance(cur, SetObj) and isinstance(s.op, ast.BitOr):
            self.mutated(cur, 'update', (rhs,))
            self.x.set_update(self, cur, rhs)
            return
        put(self.binop(type(s.op).__name__, cur, rhs))

    def s_Assert(self, s, f):
        if not self.truth(self.eval(s.test, f)):
            self.raise_('builtins.AssertionError')

    def s_Raise(self, s, f):
        self.path.raised_at = self.where()
        if s.exc is None:
            if self.cur_exc:
                raise PyRaise(self.cur_exc[-1])
            self.imprecise('bare raise')
        v = self.eval(s.exc, f)
        if isinstance(v, (ClassV, ExtV)) and not (isinstance(v, ExtV) and False):
            v = self.call(v, [], {})
        if s.cause is not None:
            self.eval(s.cause, f)
        self.node = s
        self.path.raised_at = self.where()
        self.event('raise', 'raise', v)
        raise PyRaise(v)

    def exc_matches(self, exc, t):
        if isinstance(t, TupleV):
            return any(self.exc_matches(exc, x) for x in t.items)
        if isinstance(exc, Inst):
            return self.subclass(exc.cls, t)
        meta = getattr(exc, 'meta', None) or {}
        if 'exc' in meta and isinstance(t, ExtV):
            return EXC_ALIASES.get(t.name, t.name) in exc_bases(meta['exc'])
        if 'exc' in meta and isinstance(t, ClassV):
            return False
        return self.is_instance(exc, t)

    def s_Try(self, s, f):
        try:
            try:
                self.exec_block(s.body, f)
            except PyRaise as e:
                for h in s.handlers:
                    self.node = h
                    if h.type is None or self.exc_matches(e.exc, self.eval(h.type, f)):
                        if h.name:
                            self.assign_name(h.name, e.exc, f)
                        self.event('caught', 'except', e.exc)
                        self.cur_exc.append(e.exc)
                        try:
                            self.exec_block(h.body, f)
                        finally:
                            self.cur_exc.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, f)
        except PathEnd:
            raise
        except (PyRaise, ReturnSig, BreakSig, ContinueSig, StopPush):
            self.exec_block(s.finalbody, f)
            raise
        self.exec_block(s.finalbody, f)

    s_TryStar = s_Try

    def s_With(self, s, f):
        self.with_items(s.items, 0, s.body, f)

    def with_items(self, items, i, body, f):
        if i == len(items):
            self.exec_block(body, f)
            return
        it = items[i]
        cm = self.eval(it.context_expr, f)
        if isinstance(cm, IterV) and cm.kind == 'ctxmgr':
            fv, frame, info = cm.parts

            def handler(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, f)
                top = self.stack.pop()
                try:
                    self.with_items(items, i + 1, body, f)
                finally:
                    self.stack.append(top)
            self.run_generator(IterV('gen', fv, frame, info), handler)
            return
        if isinstance(cm, IterV) and cm.kind == 'suppress':
            try:
                self.with_items(items, i + 1, body, f)
            except PyRaise as e:
                if not any(self.exc_matches(e.exc, t) for t in cm.parts[0]):
                    raise
                self.event('caught', 'suppress', e.exc)
            return
        if isinstance(cm, Inst):
            en = self.getattr_opt(cm, '__enter__')
            ex = self.getattr_opt(cm, '__exit__')
            if en is not None and ex is not None:
                v = self.call(en, [], {})
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, f)
                try:
                    self.with_items(items, i + 1, body, f)
                except PyRaise as e:
                    if not self.truth(self.call(ex, [self.type_of(e.exc), e.exc, NONE], {})):
                        raise
                    return
                except (ReturnSig, BreakSig, ContinueSig, StopPush):
                    self.call(ex, [NONE, NONE, NONE], {})
                    raise
                self.call(ex, [NONE, NONE, NONE], {})
                return
        v = self.opaque_call('with', 'enter', cm, [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, f)
        self.with_items(items, i + 1, body, f)

    def s_FunctionDef(self, s, f):
        fi = nested_func(f, s)
        fv = FuncV(fi, f)
        # defaults are evaluated now
        fv.defaults = {n: self.eval(d, f) for n, d in fi.defaults.items()}
        self.assign_name(s.name, fv, f)
        v = self.decorate(fv)
        if v is not fv:
            self.assign_name(s.name, v, f)

    def s_ClassDef(self, s, f):
        from .loader import ClassInfo as CI
        ci = CI(f.module, s, (f.func.qualname + '.' if f.func else '') + s.name)
        self.assign_name(s.name, ClassV(ci), f)

    def s_Import(self, s, f):
        for al in s.names:
            name = al.asname or al.name.split('.')[0]
            target = al.name if al.asname else al.name.split('.')[0]
            v = ModuleV(target) if target in self.p.modules else ExtV(target)
            self.assign_name(name, v, f)

    def s_ImportFrom(self, s, f):
        base = f.module.absolute(s.level, s.module)
        for al in s.names:
            if base in self.p.modules:
                v = self.module_value(base, al.name)
                if v is None:
                    v = ModuleV(f'{base}.{al.name}')
            else:
                v = ExtV(f'{base}.{al.name}')
            self.assign_name(al.asname or al.name, v, f)

    def s_Global(self, s, f):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f.locals.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, f)
                self.event('mutate', 'delattr', o, [Const(t.attr)])
                if isinstance(o, (Inst, SynthClass)):
                    o.attrs.pop(t.attr, None)
            else:
                o = self.eval(t.value, f)
                k = self.slice_value(t.slice, f)
                self.delitem(o, k)

    def delitem(self, o, k):
        if isinstance(o, (Sym, Term)):
            o = self.shadow_dict(o)
        if isinstance(o, DictObj):
            if self.dict_lookup(o, k) is None:
                self.raise_('builtins.KeyError')
            self.dict_del(o, k)
            return
        if isinstance(o, ListObj):
            self.mutated(o, 'delitem', (k,))
            if isinstance(k, tuple):
                lo, hi, st = k
                left = self.slice_of(o, None, lo) if lo is not None else []
                right = self.slice_of(o, hi, None) if hi is not None else []
                o.segs = self.tidy(left + right)
            else:
                self.x.list_pop(self, o, k, False)
            return
        self.imprecise('del')

    def s_Match(self, s, f):
        subj = self.eval(s.subject, f)
        for c in s.cases:
            if self.match(c.pattern, subj, f) and (c.guard is None or self.truth(self.eval(c.guard, f))):
                self.exec_block(c.body, f)
                return

    def match(self, p, v, f):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, f))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, Const(p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, f):
                return False
            if p.name:
                self.assign_name(p.name, v, f)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, f) for q in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns:
            if not self.is_instance(v, self.eval(p.cls, f)):
                return False
            return all(self.match(q, self.getattr(v, n), f) for n, q in zip(p.kwd_attrs, p.kwd_patterns))
        if isinstance(p, ast.MatchSequence) and isinstance(v, TupleV) and v.concrete:
            if len(p.patterns) != len(v.segs):
                return False
            return all(self.match(q, x, f) for q, x in zip(p.patterns, v.items))
        self.imprecise('match pattern')

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, f), self.slice_value(t.slice, f), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not star:
                for e, x in zip(t.elts, self.unpack(v, len(t.elts))):
                    self.assign(e, x, f)
                return
            i = star[0]
            after = len(t.elts) - i - 1
            if isinstance(v, (Sym, Term, ListObj, TupleV)) or True:
                if isinstance(v, (Sym, Term)):
                    n = self.len_of(v)
                    seq = TupleV([('slice', v, Const(0), n)])
                else:
                    seq = TupleV(self.to_segs(v))
                n = self.seq_len(seq)
                if not self.decide_ge(lin_comb(n, Const(len(t.elts) - 1), -1)):
                    self.raise_('builtins.ValueError')
                for j in range(i):
                    self.assign(t.elts[j], self.seq_index(seq, Const(j)), f)
                hi = lin_comb(n, Const(after), -1)
                mid = self.slice_of(seq, Const(i), hi)
                self.assign(t.elts[i].value, self.new_list(mid), f)
                for j in range(after):
                    self.assign(t.elts[i + 1 + j], self.seq_index(seq, lin_comb(hi, Const(j))), f)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, f)
        else:
            self.imprecise('assignment target')

    def unpack(self, v, n):
        if isinstance(v, Inst) and '__tuple__' in v.attrs:
            v = v.attrs['__tuple__']
        if isinstance(v, (TupleV, ListObj)) and v.concrete:
            if len(v.segs) != n:
                self.raise_('builtins.ValueError')
            return v.items
        if isinstance(v, (Sym, Term)):
            if isinstance(v, Term) and v.op == 'item' or isinstance(v, Sym):
                return [Term('item', (v, Const(i)), self.attr_typs.get(('unpack', v.op if isinstance(v, Term) else v.typ, i), 'any'))
                        for i in range(n)]
        segs = self.to_segs(v)
        if all(s[0] == 'i' for s in segs):
            if len(segs) != n:
                self.raise_('builtins.ValueError')
            return [s[1] for s in segs]
        return [self.seq_index(TupleV(segs), Const(i)) for i in range(n)]

    def setitem(self, o, k, v):
        if isinstance(o, (Sym, Term)):
            d = self.shadow.get(o.key)
            if d is None and o.typ in ('dict', '?dict'):
                d = self.shadow_dict(o)
            if d is None:
                self.event('mutate', 'setitem', o, [k if isinstance(k, Value) else NONE, v])
                self.symattrs[(o.key, ('item', k.key if isinstance(k, Value) else None))] = v
                return
            if d.key != o.key:
                self.event('mutate', 'setitem', o, [k, v])
            o = d
        if isinstance(o, DictObj):
            self.dict_set(o, k, v)
        elif isinstance(o, ListObj):
            self.mutated(o, 'setitem', ())
            if isinstance(k, tuple):
                lo, hi, st = k
                left = self.slice_of(o, None, lo) if lo is not None else []
                right = self.slice_of(o, hi, None) if hi is not None else []
                o.segs = self.tidy(left + self.to_segs(v) + right)
            elif isinstance(k, Const) and o.concrete:
                n = len(o.segs)
                if not -n <= k.v < n:
                    self.raise_('builtins.IndexError')
                o.segs = list(o.segs)
                o.segs[k.v] = ('i', v)
            else:
                left, right = self.split(o.segs, k)
                mid, right = self.split(right, Const(1))
                if not mid:
                    self.raise_('builtins.IndexError')
                o.segs = self.tidy(left + [('i', v)] + right)
        elif isinstance(o, Inst):
            m = self.getattr_opt(o, '__setitem__')
            self.call(m, [k, v], {})
        elif isinstance(o, TupleV) or isinstance(o, Const):
            self.raise_('builtins.TypeError')
        else:
            self.event('mutate', 'setitem', o, [v])

    def shadow_dict(self, sym):
        d = self.shadow.get(sym.key)
        if d is None:
            d = self.new_dict([('base', sym)])
            self.shadow[sym.key] = d
            d.origin = 'input'
        return d

    # ------------------------------------------------------------ expressions
    def eval(self, e, f):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.imprecise(f'expression {type(e).__name__}')
        if hasattr(e, 'lineno'):
            self.node = e
        return m(e, f)

    def e_Constant(self, e, f):
        return Const(e.value)

    def e_Name(self, e, f):
        return self.lookup(e.id, f)

    def e_NamedExpr(self, e, f):
        v = self.eval(e.value, f)
        t = f
        while getattr(t, 'comp', False):
            t = t.parent
        self.assign_name(e.target.id, v, t)
        return v

    def e_Attribute(self, e, f):
        o = self.eval(e.value, f)
        self.node = e
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, f):
        o = self.eval(e.value, f)
        k = self.slice_value(e.slice, f)
        self.node = e
        return self.subscript(o, k)

    def slice_value(self, s, f):
        if isinstance(s, ast.Slice):
            return (self.eval(s.lower, f) if s.lower else None, self.eval(s.upper, f) if s.upper else None,
                    self.eval(s.step, f) if s.step else None)
        return self.eval(s, f)

    def subscript(self, o, k):
        if isinstance(o, (Sym, Term)) and o.key in self.shadow:
            o = self.shadow[o.key]
        if isinstance(o, Inst) and '__tuple__' in o.attrs:
            o = o.attrs['__tuple__']
        if isinstance(o, (ClassV, ExtV)):
            return o      # Generic[...] / typing constructs
        if isinstance(k, tuple):
            lo, hi, st = k
            if st is not None and not (isinstance(st, Const) and st.v in (1, None)):
                if isinstance(st, Const) and st.v == -1 and lo is None and hi is None and \
                        isinstance(o, (ListObj, TupleV)) and o.concrete:
                    segs = list(reversed(o.segs))
                    return TupleV(segs) if isinstance(o, TupleV) else self.new_list(segs)
                if isinstance(st, Const) and st.v == -1 and lo is None and hi is None:
                    return IterV('reversed', o)
                self.imprecise('slice step')
            if isinstance(lo, Const) and lo.v is None:
                lo = None
            if isinstance(hi, Const) and hi.v is None:
                hi = None
            if isinstance(o, Const) and isinstance(o.v, str):
                if (lo is None or isinstance(lo, Const)) and (hi is None or isinstance(hi, Const)):
                    return Const(o.v[(lo.v if lo else None):(hi.v if hi else None)])
            if getattr(o, 'typ', '') == 'str':
                r = self.x.str_slice(self, o, lo, hi)
                if r is not None:
                    return r
            if isinstance(o, TupleV):
                return TupleV(self.slice_of(o, lo, hi))
            if isinstance(o, ListObj):
                return self.new_list(self.slice_of(o, lo, hi))
            if isinstance(o, (Sym, Term)) and o.typ in ('list', 'tuple', 'any', '?list', '?tuple'):
                n = self.len_of(o)
                segs = self.slice_of(TupleV([('slice', o, Const(0), n)]), lo, hi)
                return TupleV(segs) if o.typ.endswith('tuple') else self.new_list(segs)
            return Term('slice', (o, lo or NONE, hi or NONE), getattr(o, 'typ', 'any'))
        if isinstance(o, DictObj):
            v = self.dict_lookup(o, k)
            if v is None:
                self.raise_('builtins.KeyError')
            return v
        if isinstance(o, (TupleV, ListObj)):
            if lin_of(k) is None:
                self.raise_('builtins.TypeError')
            return self.seq_index(o, k)
        if isinstance(o, Const):
            if o.v is None:
                self.raise_('builtins.TypeError')
            if isinstance(k, Const):
                try:
                    return Const(o.v[k.v])
                except (IndexError, KeyError) as x:
                    self.raise_('builtins.' + type(x).__name__)
                except TypeError:
                    self.raise_('builtins.TypeError')
        if isinstance(o, (Sym, Term)):
            if isinstance(k, Const) and type(k.v) is int and self.x.str_parts(o) is not None:
                r = self.x.str_slice(self, o, k, Const(k.v + 1) if k.v != -1 else None)
                if isinstance(r, Const) and len(r.v) == 1:
                    return r
            if self.possible(o) == {'N'} or o.typ.startswith('?') and self.isnone(o):
                self.raise_('builtins.TypeError')
            ov = self.symattrs.get((o.key, ('item', k.key)))
            if ov is not None:
                return ov
            if o.typ in ('dict', '?dict'):
                if not self.in_fact(k, o):
                    self.raise_('builtins.KeyError')
            return self.base_item(o, k)
        if isinstance(o, Inst):
            m = self.getattr_opt(o, '__getitem__')
            if m is not None:
                return self.call(m, [k], {})
        return Term('item', (o, k))

    def e_Tuple(self, e, f):
        return TupleV(self.eval_elts(e.elts, f))

    def e_List(self, e, f):
        return self.new_list(self.eval_elts(e.elts, f))

    def e_Set(self, e, f):
        s = self.new_set()
        for x in self.eval_elts(e.elts, f):
            if x[0] == 'i':
                self.x.set_add(self, s, x[1])
            else:
                s.unk = True
        return s

    def eval_elts(self, elts, f):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, f)
                segs += self.to_segs(v)
            else:
                segs.append(('i', self.eval(x, f)))
        return segs

    def e_Dict(self, e, f):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.layers = d.layers + self.as_layers(self.eval(v, f))
            else:
                kk = self.eval(k, f)
                vv = self.eval(v, f)
                if isinstance(kk, Const):
                    d.layers = [la for la in d.layers if not (la[0] == 'kv' and la[1].key == kk.key)]
                d.layers = d.layers + [('kv', kk, vv)]
        return d

    def e_JoinedStr(self, e, f):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(Const(v.value))
            else:
                x = self.eval(v.value, f)
                if v.conversion == 114:
                    x = Term('repr', (x,), 'str')
                if v.format_spec is not None:
                    x = Term('format', (x, self.eval(v.format_spec, f)), 'str')
                parts.append(self.x.to_str(self, x))
        return self.x.mk_str(parts)

    def e_FormattedValue(self, e, f):
        return self.x.to_str(self, self.eval(e.value, f))

    def e_IfExp(self, e, f):
        return self.eval(e.body if self.truth(self.eval(e.test, f)) else e.orelse, f)

    def e_BoolOp(self, e, f):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, f)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, e, f):
        v = self.eval(e.operand, f)
        if isinstance(e.op, ast.Not):
            return const_bool(not self.truth(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Const):
                return Const(-v.v)
            r = lin_scale(v, -1)
            if r is not None:
                return r
        return Term(type(e.op).__name__, (v,))

    def e_BinOp(self, e, f):
        a = self.eval(e.left, f)
        b = self.eval(e.right, f)
        self.node = e
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.x.binop(self, op, a, b)

    def e_Compare(self, e, f):
        left = self.eval(e.left, f)
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, f)
            self.node = e
            if not self.compare(type(op).__name__, left, right):
                return FALSE
            left = right
        return TRUE

    def compare(self, op, a, b):
        if op == 'Is':
            return self.is_(a, b)
        if op == 'IsNot':
            return not self.is_(a, b)
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            return not self.eq(a, b)
        if op == 'In':
            return self.contains(a, b)
        if op == 'NotIn':
            return not self.contains(a, b)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return {'Lt': lambda: a.v < b.v, 'LtE': lambda: a.v <= b.v, 'Gt': lambda: a.v > b.v,
                        'GtE': lambda: a.v >= b.v}[op]()
            except TypeError:
                self.raise_('builtins.TypeError')
        if isinstance(a, TupleV) and isinstance(b, TupleV) and a.concrete and b.concrete and \
                all(isinstance(x, Const) for x in a.items + b.items):
            x, y = tuple(i.v for i in a.items), tuple(i.v for i in b.items)
            return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
        d = {'Lt': lambda: lin_comb(lin_comb(b, a, -1), Const(1), -1), 'LtE': lambda: lin_comb(b, a, -1),
             'Gt': lambda: lin_comb(lin_comb(a, b, -1), Const(1), -1), 'GtE': lambda: lin_comb(a, b, -1)}
        if lin_of(a) is not None and lin_of(b) is not None:
            v = d[op]()
            # len(x) > 0 and the like are truth tests
            lv = lin_of(v)
            if len(lv[0]) == 1:
                (c, x), = lv[0].values()
                y = self.as_len(x)
                if y is not None and isinstance(y, (Sym, Term)):
                    if c == 1 and lv[1] == -1:
                        return self.truth(y)
                    if c == -1 and lv[1] == 0:
                        return not self.truth(y)
            return self.decide_ge(v, f'{self.show(a)} {op} {self.show(b)}')
        k = ('cmp', op, a.key, b.key)
        if k not in self.insts:
            self.insts[k] = self.choose(f'{self.show(a)} {op} {self.show(b)}', [True, False])
        return self.insts[k]

    def e_Call(self, e, f):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in f.locals:
            return self.make_super(e, f)
        fn = self.eval(e.func, f)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                segs = self.to_segs(self.eval(a.value, f))
                if all(s[0] == 'i' for s in segs):
                    args += [s[1] for s in segs]
                else:
                    args.append(Star(segs))
            else:
                args.append(self.eval(a, f))
        for k in e.keywords:
            v = self.eval(k.value, f)
            if k.arg is None:
                for la in self.as_layers(v):
                    if la[0] == 'kv' and isinstance(la[1], Const):
                        kwargs[la[1].v] = la[2]
                    elif la[0] == 'base':
                        kwargs.setdefault('**', []).append(la[1])
                    else:
                        kwargs.setdefault('**', []).append(self.fresh('unknown kwargs', 'dict', havoc=True))
            else:
                kwargs[k.arg] = v
        self.node = e
        return self.call(fn, args, kwargs, e)

    def make_super(self, e, f):
        fr = f
        while fr is not None and (fr.func is None or fr.cls is None):
            fr = fr.parent
        if e.args:
            c = self.eval(e.args[0], f)
            s = self.eval(e.args[1], f)
            return SuperV(c.ci if isinstance(c, ClassV) else c, s)
        if fr is None or fr.self_val is None:
            self.imprecise('super() outside a method')
        return SuperV(fr.cls, fr.self_val)

    def e_Lambda(self, e, f):
        fi = nested_func(f, e)
        fv = FuncV(fi, f)
        fv.defaults = {n: self.eval(d, f) for n, d in fi.defaults.items()}
        return fv

    def comp_frame(self, f):
        fr = self.new_frame(f.module, None, f, f.cls)
        fr.comp = True
        fr.self_val = f.self_val
        return fr

    def comp_loops(self, gens, i, f, leaf):
        if i == 0:
            f = self.comp_frame(f)
        if i == len(gens):
            leaf(f)
            return
        g = gens[i]
        it = self.eval(g.iter, f)

        def body(item):
            self.assign_comp(g.target, item, f)
            for c in g.ifs:
                if not self.truth(self.eval(c, f)):
                    return
            self.comp_loops(gens, i + 1, f, leaf)
        self.iterate(it, body, g.iter)

    def assign_comp(self, t, v, f):
        self.assign(t, v, f)

    def e_ListComp(self, e, f):
        out = self.new_list()
        self.comp_loops(e.generators, 0, f, lambda fr: self.list_append(out, self.eval(e.elt, fr)))
        return out

    def e_SetComp(self, e, f):
        out = self.new_set()

        def leaf(fr):
            v = self.eval(e.elt, fr)
            self.mutated(out, 'add', (v,))
            self.x.set_add(self, out, v)
        self.comp_loops(e.generators, 0, f, leaf)
        return out

    def e_DictComp(self, e, f):
        out = self.new_dict()

        def leaf(fr):
            k = self.eval(e.key, fr)
            v = self.eval(e.value, fr)
            self.dict_set(out, k, v)
        self.comp_loops(e.generators, 0, f, leaf)
        return out

    def e_GeneratorExp(self, e, f):
        return IterV('genexp', e, f)

    def e_Starred(self, e, f):
        return self.eval(e.value, f)

    def e_Yield(self, e, f):
        fr = f
        while fr is not None and fr.yield_handler is None:
            fr = fr.parent
        if fr is None:
            self.imprecise('yield without consumer')
        v = self.eval(e.value, f) if e.value is not None else NONE
        h = fr.yield_handler
        try:
            h(v)
        except ContinueSig:
            pass
        return NONE

    def e_YieldFrom(self, e, f):
        fr = f
        while fr is not None and fr.yield_handler is None:
            fr = fr.parent
        if fr is None:
            self.imprecise('yield without consumer')
        it = self.eval(e.value, f)
        self.iterate(it, fr.yield_handler)
        return NONE

    def e_Await(self, e, f):
        self.imprecise('await')


STR_METHODS = set(dir(str))
EXT_OBJECT_ATTRS = {'__bool__', '__len__', '__iter__', '__contains__', '__call__', '__post_init__', '__setitem__',
                    '__getitem__', '__get__', '__new__', '__enter__', '__exit__'}
ALIASES = {
    'pydantic.BaseModel': ('pydantic.main.BaseModel',),
}


def items_key(items):
    return tuple((s[0],) + tuple(x.key if isinstance(x, Value) else x for x in s[1:]) for s in items)


def nested_func(f, node):
    cache = f.module.__dict__.setdefault('_nested', {})
    fi = cache.get(id(node))
    if fi is None:
        fr = f
        while fr is not None and fr.func is None:
            fr = fr.parent
        q = (fr.func.qualname + '.' if fr is not None else '') + getattr(node, 'name', '<lambda>')
        fi = cache[id(node)] = FuncInfo(f.module, node, q, f.cls)
        fi.cls = f.cls
    return fi


def field_factory(node):
    """dc.field(default_factory=X) / dc.field(default=X)"""
    if isinstance(node, ast.Call):
        fn = node.func
        n = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')
        if n == 'field':
            for k in node.keywords:
                if k.arg == 'default_factory':
                    return 'factory', k.value
                if k.arg == 'default':
                    return 'value', k.value
    return None


def reachable(v, seen=None):
    seen = seen if seen is not None else set()
    if not isinstance(v, Value) or id(v) in seen:
        return
    seen.add(id(v))
    yield v
    if isinstance(v, (ListObj, TupleV)):
        for s in v.segs:
            if s[0] == 'i':
                yield from reachable(s[1], seen)
    elif isinstance(v, DictObj):
        for la in v.layers:
            if la[0] == 'kv':
                yield from reachable(la[2], seen)
    elif isinstance(v, SetObj):
        for x in v.items:
            yield from reachable(x, seen)
    elif isinstance(v, (Inst, SynthClass)):
        for x in v.attrs.values():
            yield from reachable(x, seen)


def _seg_txt(s):
    if s[0] == 'i':
        return 'item'
    if s[0] == 'slice':
        return f'{s[1]!r}[{s[2]!r}:{s[3]!r}]'
    return s[0]
