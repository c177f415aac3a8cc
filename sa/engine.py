"""Scenario engine: runs abstract scenarios path by path and turns failed obligations into violations."""
import gc
import hashlib
import json
import multiprocessing
import os
import pickle
import time
import traceback

from .domain import (
    Const, DictObj, EnumM, Inst, ListObj, Obj, Sym, Term, TupleV, Value, is_havoc,
)
from .harness import NATIVE, Field, Session  # noqa: F401
from .interp import PathEnd, PyRaise
from .loader import AnalysisBroken, Program

REGISTRY = []
#: exceptions which, on the analysed code, may also come from a gap of the abstract environment: never reported by themselves
MODEL_GAP = {'builtins.AttributeError', 'builtins.TypeError', 'builtins.NotImplementedError', 'builtins.RecursionError',
             'builtins.StopIteration'}


def _iter_count():
    from .domain import IterV
    return IterV._n


class Scenario:
    def __init__(self, fn, pids, name, backend, tier, environ, params, max_paths, deep=''):
        self.deep = tuple(deep.split())
        self.fn, self.pids, self.name, self.backend = fn, pids, name, backend
        self.tier, self.environ, self.params, self.max_paths = tier, environ, params, max_paths


def scenario(pids, backends=('lxml',), tier='quick', environ=None, cases=None, thorough_backends=('std',), max_paths=4000,
             deep=''):
    """Registers fn(q, **params) for the properties in pids (in the thorough tier: and those in deep), once per case and backend."""
    def deco(fn):
        for c in (cases or [{}]):
            label = ','.join(f'{k}={v}' for k, v in c.items())
            for b in ('lxml', 'std'):
                if b in backends:
                    t = tier
                elif b in thorough_backends:
                    t = 'thorough'
                else:
                    continue
                REGISTRY.append(Scenario(fn, tuple(pids.split()), f'{fn.__module__.split(".")[-1]}.{fn.__name__}'
                                         + (f'[{label}]' if label else '') + ('' if b == 'lxml' else '/std'),
                                         b, t, environ, c, max_paths, deep))
        return fn
    return deco


def exc_name(v):
    if isinstance(v, Inst):
        c = v.cls
        return getattr(c, 'fullname', None) or getattr(c, 'name', repr(c))
    meta = getattr(v, 'meta', None) or {}
    return meta.get('exc', repr(v))


class Q:
    """What a scenario sees: the session, helpers to build unknowns and to state obligations."""

    def __init__(self, session, active):
        self.s, self.it, self.active = session, session.it, active
        self.post = None
        self.thorough = TIER[0] == 'thorough'

    # ---- unknowns
    def str(self, name, empty=False, optional=False):
        v = Sym(name, '?str' if optional else 'str')
        if not empty and not optional:
            self.it.set_kind(v, {'T'})
        elif not empty:
            self.it.set_kind(v, {'T', 'N'})
        return v

    def nsmap(self, spec):
        """{'alias': 'uri name'} -> dictionary of literal aliases and unknown non-empty uris; None stays None."""
        if spec is None:
            return None
        return self.it.new_dict([('kv', Const(a), self.str(u)) for a, u in spec.items()])

    def length(self, name):
        n = Sym(name, 'int')
        self.it.nonneg[n.key] = n
        return n

    def elem(self, name='el'):
        return Sym(name, 'elem')

    def value(self, name, typ='any', none=False):
        v = Sym(name, typ)
        if none:
            self.it.set_kind(v, {'N'})
        else:
            self.it.set_kind(v, self.it.base_kinds(v) - {'N'})
        return v

    def qname(self, tag, uri=None):
        """{uri}tag"""
        from .externals import mk_str
        tag, uri = self.it.lift(tag), None if uri is None else self.it.lift(uri)
        if uri is None:
            return tag
        return mk_str([Const('{'), uri, Const('}'), tag])

    def qkey(self, tag, uri=None):
        return self.qname(tag, uri).key

    # ---- obligations
    def _data(self):
        return self.it.path.data.setdefault('obl', [])

    def check(self, pids, cond, rule, message, where=None, values=()):
        """An obligation of the properties in pids on this path. cond may be None: undecided."""
        pids = [p for p in pids.split() if p in self.active]
        if not pids:
            return cond
        if cond is not None and not cond and any(is_havoc(v) for v in values if isinstance(v, Value)):
            cond = None
        self._data().append((tuple(pids), cond, rule, message, where or self.last_where()))
        return cond

    def same(self, pids, got, want, rule, message="", where=None):
        """got must be the value want."""
        got, want = self.it.lift(got) if got is not None else Const(None), self.it.lift(want)
        ok = self.equal(got, want)
        return self.check(pids, ok, rule, f'{message}: expected {want!r}, found {got!r}', where, (got, want))

    def equal(self, a, b):
        if a.key == b.key:
            return True
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            return a.canon() == b.canon()
        from .domain import lin_comb, lin_of
        if lin_of(a) is not None and lin_of(b) is not None and not (isinstance(a, Sym) and a.typ == 'any'):
            d = lin_comb(a, b, -1)
            if isinstance(d, Const):
                return d.v == 0
            d2 = lin_comb(b, a, -1)
            if self.it.implied_ge(d) and self.it.implied_ge(d2):
                return True
            return False
        if isinstance(a, (TupleV, ListObj)) and isinstance(b, (TupleV, ListObj)) and a.concrete and b.concrete:
            return type(a) is type(b) and len(a.items) == len(b.items) and all(
                self.equal(x, y) for x, y in zip(a.items, b.items))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and x.v is None and isinstance(y, (Sym, Term)):
                ks = self.it.possible(y)
                return True if ks == {'N'} else False if 'N' not in ks else False
        ca, cb = self.it.known_const(a), self.it.known_const(b)
        if ca is not None and cb is not None:
            return ca.key == cb.key
        return b.key in self.it.eq_class(a.key)

    def last_where(self):
        it = self.it
        if it.path.events:
            return it.path.events[-1].where
        if it.path.decisions:
            return it.path.decisions[-1][0]
        return None

    def fail(self, pids, rule, message, where=None):
        return self.check(pids, False, rule, message, where)

    def give_up(self, msg):
        self.it.note(msg)
        raise PathEnd('imprecise', msg)

    def attempt(self, fn):
        """('return', value) or ('raise', exception)"""
        n = len(self.it.stack)
        try:
            return 'return', fn()
        except PyRaise as e:
            del self.it.stack[n:]
            self.raised_where = getattr(e.exc, 'alloc', None) or self.last_where()
            return 'raise', e.exc

    #: functions outside the package which change process-wide state or an element tree in place
    GLOBAL_EFFECTS = {'register_namespace', 'putenv', 'set_default_parser', 'setDefaultParser', 'setrecursionlimit', 'seed'}
    TREE_EFFECTS = {'cleanup_namespaces', 'strip_tags', 'strip_elements', 'strip_attributes', 'indent', 'SubElement', 'deannotate'}
    #: sources of results which do not depend on the arguments
    UNSTABLE = ('random.', 'time.', 'uuid.', 'secrets.', 'threading.', 'datetime.datetime.now', 'os.getpid', 'builtins.id', 'builtins.hash')

    def framed(self, fn, inputs=()):
        """attempt(fn), a parsing or serialization call: nothing that existed before it may be changed by it (C24: classes,
        serializers, module state; C25: the objects handed to it)."""
        if not self.active & {'C24', 'C25'}:
            return self.attempt(fn)
        from .interp import reachable
        it = self.it
        since = self.mark()
        mine = {o.serial for i in inputs for o in reachable(i) if isinstance(o, Obj)}
        it.threshold, it.iter_threshold = it.serial + 1, _iter_count()
        try:
            return self.attempt(fn)
        finally:
            it.threshold = it.iter_threshold = None
            self._frame(since, mine, inputs)

    def _frame(self, since, mine, inputs):
        keys = {i.key for i in inputs}
        done = {'C24': 0, 'C25': 0}
        for e in self.events(since):
            o = e.recv if e.kind in ('mutate', 'call') else None
            if e.kind == 'mutate':
                typ = getattr(o, 'typ', '').lstrip('?')
                if typ in ('elem',):
                    continue
                if isinstance(o, Obj) and o.origin == 'input':      # content of an unknown dictionary
                    o = next((la[1] for la in o.layers if la[0] == 'base'), o) if isinstance(o, DictObj) else o
                    if is_havoc(o):
                        continue
                if isinstance(o, Obj) and o.serial in mine or o is not None and o.key in keys or typ == 'native':
                    pid, what = 'C25', 'what was handed to the call'
                elif isinstance(o, (Sym, Term)):
                    if is_havoc(o):
                        continue
                    pid, what = 'C24 C25', 'an object that existed before the call'
                else:
                    pid, what = 'C24', 'an object shared by all calls'
                done[pid[:3]] += 1
                self.check(pid, False, f'a call does not change {what}', f'{e.name} {list(e.args)!r} on {o!r}', e.where)
            elif e.kind == 'ext' or e.kind == 'call' and e.recv is None:
                n = e.name.split('.')[-1]
                if n in self.GLOBAL_EFFECTS:
                    done['C24'] += 1
                    self.check('C24', False, 'a call does not change state shared by all calls', f'{e.name}{e.args!r}', e.where)
                if n in self.TREE_EFFECTS and e.args and any(isinstance(a, Obj) and a.serial in mine for a in e.args[:1]):
                    done['C25'] += 1
                    self.check('C25', False, 'a call does not change what was handed to the call', f'{e.name}{e.args!r}', e.where)
                if e.name.startswith(self.UNSTABLE):
                    done['C24'] += 1
                    self.check('C24', False, 'the result depends on the arguments only', f'{e.name}{e.args!r}', e.where)
        for pid, k in done.items():
            if not k:
                self.check(pid, True, 'frame of a call', '')

    def exc_is(self, exc, name):
        """Is exc an instance of the (dotted or package) exception class name?"""
        n = exc_name(exc)
        if n == name:
            return True
        if isinstance(exc, Inst) and not isinstance(exc.cls, (str,)):
            mro = self.it.class_mro(exc.cls)
            for c in mro:
                if getattr(c, 'fullname', None) == name or isinstance(c, tuple) and name in (c[1], 'builtins.' + c[1]):
                    return True
        from .interp import exc_bases
        return name in exc_bases(n)

    def no_raise(self, pids, out, rule, message):
        """out must be a normal return; True if it is. Gaps of the model are not reported."""
        if out[0] == 'return':
            self.check(pids, True, rule, '')
            return True
        n = exc_name(out[1])
        if n in MODEL_GAP or n == 'builtins.AssertionError' and False:
            self.it.note(f'{n} in the abstract run ({self.show_exc(out[1])})')
            self.check(pids, None, rule, f'{message}: {n}')
            return False
        self.check(pids, False, rule, f'{message}: {self.show_exc(out[1])} is raised', getattr(self, 'raised_where', None))
        return False

    def show_exc(self, exc):
        a = exc.attrs.get('args') if isinstance(exc, Inst) else None
        return f'{exc_name(exc)}{a!r}' if a is not None else exc_name(exc)

    def raises(self, pids, out, names, rule, message):
        """out must be the exception."""
        if out[0] == 'return':
            return self.check(pids, False, rule, f'{message}: nothing is raised')
        if any(self.exc_is(out[1], n) for n in names):
            return self.check(pids, True, rule, message)
        if exc_name(out[1]) in MODEL_GAP:
            self.it.note(f'{exc_name(out[1])} in the abstract run ({self.show_exc(out[1])})')
            return self.check(pids, None, rule, message)
        return self.check(pids, False, rule, f'{message}: {self.show_exc(out[1])} is raised instead')

    # ---- events
    def mark(self):
        return len(self.it.path.events)

    def events(self, since=0, *names, kind=None, recv=None):
        return [e for e in self.it.path.events[since:]
                if (not names or e.name in names) and (kind is None or e.kind == kind)
                and (recv is None or (e.recv is not None and e.recv.key == recv.key))]

    # ---- native trees
    def attrs_of(self, node):
        """Attributes of a native element: {key: value} or None if not enumerable."""
        d = node.attrs['attrib']
        if isinstance(d, DictObj) and all(la[0] == 'kv' for la in d.layers):
            out = {}
            for la in d.layers:
                out[la[1].key] = la[2]
            return out
        return None

    def children(self, node):
        ch = node.attrs['children']
        if all(s[0] == 'i' for s in ch.segs):
            return [s[1] for s in ch.segs]
        return None

    def tree(self, node):
        """Readable rendering."""
        if not isinstance(node, Inst):
            return repr(node)
        a = node.attrs
        at = a['attrib']
        ats = ' '.join(f'{la[1]!r}={la[2]!r}' if la[0] == 'kv' else f'{la[0]}:{la[1:]!r}' for la in at.layers)
        ch = ''.join(self.tree(s[1]) if s[0] == 'i' else repr(s) for s in a['children'].segs)
        return f"<{a['tag']!r}{' ' + ats if ats else ''}>{'' if self.it.known_const(a['text']) == Const(None) else a['text']!r}{ch}</>"


class Forker:
    """Runs the configurations of a scenario in child processes which share the state reached before the choice."""

    def __init__(self):
        self.results, self.out_fd = [], None

    def __call__(self, n):
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                gc.disable()
                os.close(r)
                if self.out_fd is not None:
                    os.close(self.out_fd)
                self.out_fd, self.results = w, []
                return k
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            self.results.append(pickle.loads(data) if data else dict(error='a child process ended early'))
        return None

    def leave(self, out):
        with os.fdopen(self.out_fd, 'wb') as f:
            f.write(pickle.dumps(out))
        os._exit(0)


def run_scenario(program, sc, active):
    """Plain data describing the outcome of one scenario."""
    fk = Forker()
    try:
        out = _run_scenario(program, sc, active, fk)
    except BaseException:
        if fk.out_fd is None:
            raise
        out = dict(error=traceback.format_exc())
    if fk.out_fd is not None:
        fk.leave(out)
    return out


def _merge(out, o):
    if 'error' in o:
        raise RuntimeError(o['error'])
    for k in ('paths', 'obligations', 'discharged', 'undecided', 'branches'):
        out[k] = out.get(k, 0) + o.get(k, 0)
    out['complete'] = out['complete'] and o['complete']
    for x in o['notes']:
        if x not in out['notes'] and len(out['notes']) < 20:
            out['notes'].append(x)
    if 'broken' in o:
        out['broken'] = o['broken']
    for k, n in o['rules'].items():
        out['rules'][k] = out['rules'].get(k, 0) + n
    out['functions'] = sorted(set(out['functions']) | set(o['functions']))
    have = {v['key']: v for v in out['violations']}
    for v in o['violations']:
        if v['key'] in have:
            w = have[v['key']]
            w['paths'] += v['paths']
            w['pids'] += [x for x in v['pids'] if x not in w['pids']]
        else:
            out['violations'].append(v)


def _run_scenario(program, sc, active, fk):
    t = time.time()
    s = Session(program, sc.environ)
    s.it.max_paths = sc.max_paths
    s.it.fork = fk
    s.it.deadline = min(DEADLINE[0], t + SCENARIO_LIMIT[TIER[0]]) if DEADLINE[0] is not None else None
    q = Q(s, set(active))
    posts = []

    def thunk(sess):
        q.post = None
        q.it.path.data['q'] = q
        try:
            return sc.fn(q, **sc.params)
        finally:
            q.it.path.data['post'] = q.post
    out = dict(name=sc.name, paths=0, obligations=0, discharged=0, undecided=0, violations=[], notes=[], functions=[],
               complete=True, rules=[])
    try:
        paths = s.explore(thunk)
    except AnalysisBroken as e:
        out['notes'].append(f'anchor missing: {e}')
        out['complete'] = False
        out['broken'] = str(e)
        out['functions'] = []
        out['wall'] = time.time() - t
        return out
    rules = {}
    viol = {}
    for p in paths:
        out['paths'] += 1
        if p.data.get('post') is not None:
            q.it.path = p
            p.data['post'](p)
        if p.outcome == 'raise':
            n = exc_name(p.value)
            p.notes.append(f'uncaught {n}: {q.show_exc(p.value)}')
        if p.notes:
            out['complete'] = False
            for x in p.notes[:3]:
                if x not in out['notes'] and len(out['notes']) < 20:
                    out['notes'].append(x)
        for pids, cond, rule, message, where in p.data.get('obl', []):
            if cond is not None and not cond and not p.precise:
                cond = None
            out['obligations'] += 1
            rules[rule] = rules.get(rule, 0) + 1
            if cond is None:
                out['undecided'] += 1
            elif cond:
                out['discharged'] += 1
            else:
                key = f'{sc.name}: {rule}'
                v = viol.setdefault(key, dict(key=key, rule=rule, pids=list(pids), message=message, where=where, paths=0,
                                              trace=p.trace(), events=[
                                                  f'{e.where}: {e.kind} {e.name} {e.recv!r} {e.args!r} {e.kwargs!r}'
                                                  for e in p.events[-40:]]))
                v['paths'] += 1
                for x in pids:
                    if x not in v['pids']:
                        v['pids'].append(x)
    out['violations'] = list(viol.values())
    out['rules'] = rules
    out['functions'] = sorted(s.it.stats['functions'])
    out['branches'] = s.it.stats['branches']
    for o in fk.results:
        _merge(out, o)
    out['wall'] = round(time.time() - t, 2)
    return out


_P = {}
TIER = ['quick']
#: a change can make a scenario explode: what was not explored by then is reported as incomplete, never as a violation
SCENARIO_LIMIT = {'quick': 90, 'thorough': 1200}
CHECK_LIMIT = {'quick': 420, 'thorough': 7200}
DEADLINE = [None]


def _work(args):
    i, active = args
    sc = REGISTRY[i]
    try:
        return run_scenario(_P[sc.backend], sc, active)
    except Exception:
        return dict(name=sc.name, error=traceback.format_exc(), paths=0, obligations=0, discharged=0, undecided=0,
                    violations=[], notes=['internal error: ' + traceback.format_exc().strip().splitlines()[-1]],
                    functions=[], complete=False, rules={}, wall=0, branches=0)


def load(repo):
    for b in ('lxml', 'std'):
        _P[b] = Program(repo)
        _P[b].backend = b


def run(pids, tier, only=None, jobs=None):
    TIER[0] = tier
    DEADLINE[0] = time.time() + CHECK_LIMIT[tier]
    idx = [i for i, sc in enumerate(REGISTRY)
           if set(sc.pids + (sc.deep if tier == 'thorough' else ())) & set(pids) and (tier == 'thorough' or sc.tier == 'quick') and (only is None or only in sc.name)]
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(idx)))
    work = [(i, tuple(pids)) for i in idx]
    if jobs == 1:
        return [_work(w) for w in work]
    with multiprocessing.get_context('fork').Pool(jobs) as pool:
        return pool.map(_work, work, chunksize=1)
