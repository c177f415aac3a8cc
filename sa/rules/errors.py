"""C11, C12, C13, C14: validation errors of every nested level, their locations, lines and inputs."""
from ..domain import Const, DictObj, Inst, ListObj, Sym, TupleV
from ..engine import scenario
from ..externals import mk_str, to_str
from ..harness import Field
from .common import *  # noqa: F401,F403
from .common import STR, VE, default, list_of, mapping, namedtuple_of, nullable, raw, tuple_of, union_of, validated
from .shapes import el, parse


class Judge:
    """Validation outcome per occurrence of a model: occurrences are told apart by an attribute value."""

    def __init__(self, q, key='x'):
        self.q, self.key, self.plan = q, key, {}
        q.s.verdict = self

    def reject(self, mark, errors):
        """errors: [loc tuple]; returns the error dictionaries."""
        q = self.q
        out = []
        for i, loc in enumerate(errors):
            n = f'{mark if isinstance(mark, str) else "_".join(mark)}_{i}'
            e = dict(type=q.str('type_' + n), loc=tuple(loc), msg=q.str('msg_' + n), input=q.value('input_' + n))
            if i % 2:
                e['ctx'] = {'k': q.value('ctx_' + n)}
            out.append(e)
        self.plan[mark] = out
        return out

    def __call__(self, cls, event):
        if cls.name in self.plan:
            return self.plan[cls.name]
        d = event.args[0] if event.args else event.kwargs.get('obj')
        if isinstance(d, DictObj):
            for la in d.layers:
                if la[0] == 'kv' and la[1] == Const(self.key) and isinstance(la[2], Sym):
                    for k in (la[2].name, (cls.name, la[2].name)):
                        if k in self.plan:
                            return self.plan[k]
        return None


def error_list(q, exc):
    """[(loc, {key: value})] of a validation error, or None"""
    v = q.s.errors_of(exc)
    if not isinstance(v, ListObj) or not v.concrete:
        return None
    out = []
    for d in v.items:
        g = {la[1].v: la[2] for la in d.layers}
        loc = g['loc']
        if not isinstance(loc, (TupleV, ListObj)) or not loc.concrete or not all(isinstance(x, Const) for x in loc.items):
            return None
        out.append((tuple(x.v for x in loc.items), g))
    return out


def line_of(e):
    return e.attrs['sourceline']


def message(q, e, line):
    return mk_str([Const('[line '), to_str(q.it, line), Const(']: '), q.it.lift(e['msg'])])


def check_errors(q, pids, out, want, rule, what='', hide=None, lines=True):
    """out must be a validation error with exactly the wanted errors: [(loc, error dict, line value | None)]"""
    if out[0] == 'return':
        return q.check('C11', not want, f'{rule}: errors are raised', f'{what}: no error is raised')
    exc = out[1]
    if not q.exc_is(exc, VE) or not isinstance(exc, Inst):
        return q.raises('C11', out, (VE,), f'{rule}: errors are raised', what)
    got = error_list(q, exc)
    if got is None:
        return q.check(pids, None, rule, 'errors cannot be enumerated')
    show = lambda ls: sorted(map(str, ls))  # noqa: E731
    q.check('C11', show(x[0] for x in got) == show(x[0] for x in want), f'{rule}: all errors are reported with their full path',
            f'{what}: {show(x[0] for x in got)} instead of {show(x[0] for x in want)}')
    left = list(got)
    for loc, e, line in want:
        # errors of one location are told apart by their type and input
        m = [g for lo, g in left if lo == loc and g['type'].key == q.it.lift(e['type']).key]
        same = [g for g in m if q.equal(g.get('input') or Const(None), q.it.lift(e['input']))]
        same = [g for g in same if line is None or q.equal(g['msg'], message(q, e, line))] or same
        m = same + [g for g in m if g not in same]
        if not m:
            m = [g for lo, g in got if lo == loc]
            if len(m) == 1:
                q.same('C12', m[0]['type'], e['type'], f'{rule}: type of the error', what)
            continue
        g = m[0]
        left = [x for x in left if x[1] is not g]
        q.same('C12', g.get('input'), e['input'], f'{rule}: input of the error', what)
        ctx = g.get('ctx')
        cd = {la[1].v: la[2] for la in ctx.layers if la[0] == 'kv' and isinstance(la[1], Const)} if isinstance(ctx, DictObj) else {}
        if line is not None:
            text = message(q, e, line)
            q.same('C12 C13', g['msg'], text, f'{rule}: message and line of the error', what)
            q.check('C13', 'sourceline' in cd and q.equal(cd['sourceline'], line), f'{rule}: line of the error',
                    f'{what}: {cd.get("sourceline")!r} instead of {line!r} at {loc}')
        if 'orig' in cd:
            q.same('C12', cd['orig'], e['msg'], f'{rule}: original message of the error', what)
    if hide is not None:
        h = exc.attrs.get('hide_input')
        hv = q.it.known_const(h) if h is not None else Const(False)
        q.check('C12', None if hv is None else bool(hv.v) == hide, f'{rule}: input hiding', f'{what}: hide_input={h!r} instead of {hide}')


# ------------------------------------------------------------------ nested models
PLACES = ('direct', 'list', 'tuple', 'named', 'wrapped', 'wrapped_list', 'list_tuple', 'nullable', 'union', 'tagged', 'list_union',
          'list_tagged', 'root', 'root_list')


def nest(q, place, Sub, Other):
    """(field schema, field keywords)"""
    s, o = q.s.schema_of(Sub), q.s.schema_of(Other)
    tagged = {'type': 'tagged-union', 'discriminator': 't', 'choices': {'two': o, 'one': s}}
    sch = dict(direct=lambda: s, list=lambda: list_of(s), tuple=lambda: tuple_of(s, s), named=lambda: namedtuple_of(s, s),
               wrapped=lambda: s, wrapped_list=lambda: list_of(s), list_tuple=lambda: list_of(tuple_of(s, s)),
               nullable=lambda: default(nullable(s)), union=lambda: union_of(s, o), tagged=lambda: tagged,
               list_union=lambda: list_of(union_of(s, o)), list_tagged=lambda: list_of(tagged))[place.replace('root_', '')
                                                                                               if place != 'root' else 'direct']()
    if place.startswith('wrapped'):
        return sch, dict(location='WRAPPED', path='w1/w2', wrapped=Field('', None, location='ELEMENT', path='n'))
    return sch, dict(location='ELEMENT', path='n')


class Nested:
    """A document with one or two occurrences of a sub-model at a place, the sub-models having text element y and attribute x."""

    def __init__(self, q, place, sub_config=None, config=None, field='fld', alias=None):
        self.q, self.place = q, place
        tagged = 'tagged' in place
        tag = lambda v: [Field('t', {'type': 'literal', 'expected': [v]}, location='ATTRIBUTE')] if tagged else []  # noqa: E731
        fs = [Field('x', dict(STR), location='ATTRIBUTE'), Field('y', default(nullable(dict(STR))), location='ELEMENT')]
        self.Sub = q.s.model('Sub', tag('one') + fs, config=sub_config)
        self.Other = q.s.model('Other', tag('two') + [Field('z', dict(STR), location='ATTRIBUTE')])
        sch, kw = nest(q, place, self.Sub, self.Other)
        if place.startswith('root'):
            self.Inner = q.s.model('Root', [Field('root', sch, **kw)], root=True, config=config)
            sch, kw = q.s.schema_of(self.Inner), dict(location='ELEMENT', path='r')
        self.field = Field(field, sch, val_alias=alias, **kw)
        self.n = 2 if any(x in place for x in ('list', 'tuple', 'named')) else 1
        self.marks = [f'x{i}' for i in range(self.n)]
        self.subs = [el(q, Const('n'), ([(Const('t'), Const('one'))] if tagged else []) + [(Const('x'), q.str(m))],
                        children=[el(q, Const('y'), [], q.str('y_' + m))]) for m in self.marks]
        kids = list(self.subs)
        self.holder = None
        if place.startswith('wrapped'):
            self.holder = el(q, Const('w2'), children=kids)
            kids = [el(q, Const('w1'), children=[self.holder])]
        elif place.startswith('root'):
            self.holder = el(q, Const('r'), children=kids)
            kids = [self.holder]
        self.kids = kids

    def loc(self, i):
        """Location of occurrence i inside the field."""
        return () if self.n == 1 else (0, i) if self.place == 'list_tuple' else (i,)

    def sub_errors(self, judge, i, name='fld'):
        """Makes occurrence i fail; [(loc, error, line)]"""
        m = self.marks[i]
        errs = judge.reject(m, [('x',), (), ('y',), ('y', 'q', 0), ('other',)])
        s = self.subs[i]
        y = s.attrs['children'].segs[0][1]
        lines = [line_of(s), line_of(s), line_of(y), line_of(y), line_of(s)]
        at = (name,) + self.loc(i)
        if 'union' not in self.place:
            return [(at + e['loc'], e, ln) for e, ln in zip(errs, lines)]
        # the other alternative does not accept the element either
        more = judge.plan.get('Other') or judge.reject('Other', [('z',)])
        return [(at + ('Sub',) + e['loc'], e, ln) for e, ln in zip(errs, lines)] + \
            [(at + ('Other',) + e['loc'], e, line_of(s)) for e in more]


ERR = 'C11 C12 C13'


@scenario(ERR, cases=[dict(place=p) for p in PLACES], max_paths=4000, deep='C24 C25')
def nested(q, place):
    """Failing sub-models at every kind of place: all errors, their paths, inputs, lines, and input hiding."""
    p = q.it.pick
    hide = p('hide_input of the model', [None, True, False])
    sub_hide = p('hide_input of the sub-model', [None, True, False])
    cfg = lambda h: None if h is None else dict(hide_input_in_errors=h)  # noqa: E731
    d = Nested(q, place, cfg(sub_hide), cfg(hide))
    failing = p('failing', [[0], [1], [0, 1], []] if d.n == 2 else [[0], []])
    more = p('another failing field', [True, False])
    Two = q.s.model('Two', [Field('z', dict(STR), location='ATTRIBUTE')])
    cls = q.s.model('M', [d.field, Field('b', q.s.schema_of(Two), location='ELEMENT')], config=cfg(hide))
    judge = Judge(q)
    b = el(q, Const('b'), [(Const('z'), q.str('bz'))])
    want = []
    for i in failing:
        want += d.sub_errors(judge, i)
    if more:
        want += [(('b',) + e['loc'], e, line_of(b)) for e in judge.reject('Two', [('z',)])]
    root = el(q, Const('M'), children=d.kids + [b])
    since = q.mark()
    out = parse(q, cls, root)
    what = f'failing occurrences {failing}' + (' and field b' if more else '')
    if not want:
        q.no_raise('C11', out, f'{place}: valid documents are parsed', what)
        return
    q.check('C11', not validated(q, cls, since), f'{place}: no model is built from an invalid document', what)
    check_errors(q, ERR, out, want, place, what, hide=bool(hide))


@scenario(ERR, cases=[dict(place=p) for p in ('direct', 'list', 'tuple', 'wrapped', 'union', 'root')], max_paths=4000, deep='C24 C25')
def deep(q, place):
    """The same, one level further down."""
    p = q.it.pick
    hide = p('hide_input of the outermost model', [None, True])
    mid_hide = p('hide_input of the middle model', [None, True, False])
    mid_place = p('place of the middle model', ['direct', 'list'])
    cfg = lambda h: None if h is None else dict(hide_input_in_errors=h)  # noqa: E731
    d = Nested(q, place)
    Mid = q.s.model('Mid', [d.field], config=cfg(mid_hide))
    s = q.s.schema_of(Mid)
    cls = q.s.model('M', [Field('mid', s if mid_place == 'direct' else list_of(s), location='ELEMENT', path='m')], config=cfg(hide))
    judge = Judge(q)
    want = d.sub_errors(judge, d.n - 1)
    pre = ('mid',) if mid_place == 'direct' else ('mid', 0)
    root = el(q, Const('M'), children=[el(q, Const('m'), children=d.kids)])
    out = parse(q, cls, root)
    check_errors(q, ERR, out, [(pre + lo, e, ln) for lo, e, ln in want], f'{place} in {mid_place}', '', hide=bool(hide))


# ------------------------------------------------------------------ errors of the model itself
OWN = ('text', 'attr', 'attrs', 'prim', 'mapping', 'model', 'raw', 'wrapped_attr', 'wrapped_prim', 'list', 'tuple', 'list_model',
       'wrapped_list', 'union', 'tagged', 'prim_union', 'custom')


@scenario('C13 C12 C11', cases=[dict(kind=k) for k in OWN], max_paths=4000, deep='C24 C25')
def own(q, kind):
    """Errors of the model's own validation carry the line of what is bound to their location."""
    p = q.it.pick
    alias = p('validation alias', [None, 'va'])
    hide = p('hide_input', [None, True])
    present = p('present', [True, False])
    Sub = q.s.model('Sub', [Field('x', dict(STR), location='ATTRIBUTE')])
    Other = q.s.model('Other', [Field('x', dict(STR), location='ATTRIBUTE')])
    s = q.s.schema_of(Sub)
    f, st = dict(location='ELEMENT', path='n'), dict(STR)
    e = lambda: el(q, Const('n'), [(Const('x'), q.str('v'))], q.str('tx'))  # noqa: E731
    kids, lines = [e()], None
    at = None
    if kind in ('text', 'attr', 'attrs'):
        f = dict(location='ATTRIBUTE') if kind == 'attr' else {}
        st = mapping() if kind == 'attrs' else st
        kids, lines = [], {(): 'M'}
    elif kind == 'mapping':
        st = mapping()
    elif kind == 'model':
        st = s
    elif kind == 'raw':
        st = raw(q)
    elif kind.startswith('wrapped'):
        at = el(q, Const('w2'), [(Const('n'), q.str('v'))], children=[e(), e()] if kind == 'wrapped_list' else [e()])
        kids = [el(q, Const('w1'), children=[at])]
        inner = Field('', None, location='ATTRIBUTE' if kind == 'wrapped_attr' else 'ELEMENT', path='n')
        f = dict(location='WRAPPED', path='w1/w2', wrapped=inner)
        if kind == 'wrapped_list':
            st = list_of(st)
    elif kind in ('list', 'list_model', 'tuple'):
        it_s = s if kind == 'list_model' else st
        st = tuple_of(it_s, it_s) if kind == 'tuple' else list_of(it_s)
        kids = [e(), e()]
    elif kind == 'union':
        st = union_of(q.s.schema_of(Other), s)
    elif kind == 'prim_union':
        st = union_of(dict(STR), {'type': 'int'})
    elif kind == 'tagged':
        T = q.s.model('T', [Field('x', {'type': 'literal', 'expected': ['one']}, location='ATTRIBUTE')])
        st = {'type': 'tagged-union', 'discriminator': 'x', 'choices': {'one': q.s.schema_of(T)}}
        kids = [el(q, Const('n'), [(Const('x'), Const('one'))])]
    if kind == 'custom':
        return
    cls = q.s.model('M', [Field('fld', default(nullable(st)), val_alias=alias, **f)],
                    config=None if hide is None else dict(hide_input_in_errors=hide))
    judge = Judge(q)
    n = alias or 'fld'
    locs = [(n,), (n, 1), (n, 1, 'x'), (n, 'deep', 'er'), (), ('unknown',)]
    errs = judge.reject('M', locs)
    root = el(q, Const('M'), [(Const('fld'), q.str('a'))], q.str('text') if present and kind == 'text' else None, kids if present else [])
    out = parse(q, cls, root)
    m = line_of(root)
    own_line = m
    item1 = None
    if present and kind not in ('text', 'attr', 'attrs'):
        k0 = kids[0]
        own_line = line_of(k0)
        if kind in ('list', 'list_model', 'tuple'):
            own_line, item1 = m, line_of(kids[1])
        elif kind == 'wrapped_list':
            own_line, item1 = line_of(at), line_of(at.attrs['children'].segs[1][1])
        elif kind == 'wrapped_attr':
            own_line = line_of(at)
        elif kind == 'wrapped_prim':
            own_line = line_of(at.attrs['children'].segs[0][1])
    want = [own_line, item1 if item1 is not None else own_line, item1 if item1 is not None else own_line, own_line, m, m]
    check_errors(q, 'C11 C12 C13', out, [(x['loc'], x, ln) for x, ln in zip(errs, want)], f'own errors, {kind}',
                 'present' if present else 'absent', hide=bool(hide))
