"""C01, C14, C17, C18, C30, C32, C34, C35: what is handed to validation for every field kind and document shape."""
from ..domain import Const, DictObj, ExtV, Inst, ListObj, TupleV
from ..engine import scenario
from ..harness import Field
from .common import *  # noqa: F401,F403
from .common import XSI_NIL, STR, default, list_of, mapping, namedtuple_of, nullable, raw, tuple_of, union_of, validated
from .shapes import copy_differs, el, parse
from .writing import PLACES, placed

KINDS = ('text', 'attr', 'attrs', 'prim', 'mapping', 'model', 'raw')
ABSENT = object()


class Doc:
    """A field kind, what the document holds for it and the value it has to receive."""
    union = False

    def __init__(self, q, kind, name='fld'):
        self.q, self.kind, self.name = q, kind, Const(name)
        self.nillable = None

    def schema(self):
        q = self.q
        if self.kind in ('mapping', 'attrs'):
            return mapping()
        if self.kind == 'raw':
            return raw(q)
        if self.union:
            return union_of(dict(STR), {'type': 'int'}, {'type': 'function-after', 'schema': {'type': 'float'}})
        if self.kind == 'model':
            self.Sub = q.s.model('Sub', [Field('x', dict(STR), location='ATTRIBUTE'), Field('t', dict(STR))], ref='Sub')
            self.Sub.attrs['__xml_tag__'] = Const(None)
            return q.s.schema_of(self.Sub)
        return dict(STR)

    def field(self, schema, wrapped=False, **kw):
        loc = dict(attr='ATTRIBUTE', text=None, attrs=None).get(self.kind, 'ELEMENT')
        at = dict(location=loc, nillable=self.nillable)
        if wrapped:
            at = dict(location='WRAPPED', path='w1/w2', wrapped=Field('', None, **at) if loc is not None else None)
        return Field('fld', schema, **at, **kw)

    def cases(self):
        return {'text': ['absent', '', 'str'], 'attr': ['absent', '', 'str'], 'attrs': ['none', 'two'],
                'prim': ['absent', 'empty', '', 'str', 'nil', 'nil false'], 'mapping': ['absent', 'none', 'two'],
                'model': ['absent', 'empty', 'full', 'nil', 'nil false'], 'raw': ['absent', 'empty', 'full']}[self.kind]

    def tail(self, n):
        return self.q.str('rawtail' + n) if self.q.it.pick('text after the raw element', [True, False]) else None

    def place(self, case, parent_attrs, parent_children, n=''):
        """Adds the content for this field; returns (text of the parent, element)"""
        q, k = self.q, self.kind
        nil = [(Const(XSI_NIL), Const('true' if case == 'nil' else 'false'))] if case.startswith('nil') else []
        if k == 'text':
            return {'absent': None, '': Const(''), 'str': q.str('text' + n)}[case], None
        if case == 'absent':
            return None, None
        if k == 'attr':
            parent_attrs.append((self.name, Const('') if case == '' else q.str('text' + n)))
            return None, None
        two = [(Const('k1'), q.str(f'v1{n}')), (Const('k2'), Const(''))] if case == 'two' else []
        if k == 'attrs':
            parent_attrs.extend(two)
            return None, None
        if k == 'prim':
            e = el(q, self.name, nil, {'empty': None, '': Const('')}.get(case, q.str('text' + n)))
        elif k == 'mapping':
            e = el(q, self.name, two)
        elif k == 'model':
            full = case != 'empty'
            e = el(q, self.name, nil + ([(Const('x'), q.str('x' + n))] if full else []), q.str('t' + n) if full else None)
        elif case == 'empty':
            e = el(q, self.name, tail=self.tail(n))
        else:
            e = el(q, self.name, [(q.str('ra' + n), q.str('rv' + n))], q.str('rt' + n),
                   [el(q, q.str('rs' + n), [(q.str('rsa'), q.str('rsv'))], q.str('rst'), tail=q.str('rtail' + n),
                       children=[el(q, q.str('rss'))])], self.tail(n))
        parent_children.append(e)
        return None, e

    def expected(self, case, eas, n='', element=None):
        """Value, ABSENT, ('map', {..}), ('model', {..}), ('copy', element)"""
        q, k = self.q, self.kind
        blank = Const('') if eas else ABSENT
        if k == 'text':
            return q.str('text' + n) if case == 'str' else blank
        if case == 'absent':
            return ABSENT
        if k == 'attr':
            return Const('') if case == '' else q.str('text' + n)
        if k == 'prim':
            if case == 'nil' and self.nillable:
                return ABSENT
            return blank if case in ('empty', '') else q.str('text' + n)
        if k in ('attrs', 'mapping'):
            return ('map', {} if case == 'none' else {'k1': q.str(f'v1{n}'), 'k2': Const('')})
        if k == 'model':
            if case == 'nil':
                return ABSENT
            d = {'x': q.str('x' + n), 't': q.str('t' + n)} if case != 'empty' else {}
            if case == 'empty' and eas:
                d = {'t': Const('')}
            return ('model', d, self.Sub)
        return ('copy', element)


def value_differs(q, got, want, since):
    """None if the value handed over is the expected one, else a description; '?..' if it cannot be told."""
    if want is ABSENT:
        return None if got is None else f'{got!r} instead of nothing'
    if got is None:
        return 'nothing is handed over'
    if isinstance(want, list):
        if q.it.isnone(got) if isinstance(got, Const) else False:
            return 'nothing is handed over'
        if not isinstance(got, (ListObj, TupleV)) or not got.concrete:
            return f'?{got!r}'
        if len(got.items) != len(want):
            return f'{len(got.items)} items instead of {len(want)}'
        for i, (g, w) in enumerate(zip(got.items, want)):
            if w is ABSENT:
                d = None if isinstance(g, Const) and g.v is None else f'{g!r} instead of None'
            else:
                d = value_differs(q, g, w, since)
            if d:
                return f'?{d}' if d[0] == '?' else f'item {i}: {d}'
        return None
    if isinstance(want, tuple):
        if want[0] == 'map':
            if not isinstance(got, DictObj):
                return f'{got!r} instead of a mapping' if isinstance(got, Const) else f'?{got!r}'
            if not all(la[0] == 'kv' and isinstance(la[1], Const) for la in got.layers):
                return f'?{got!r}'
            return dict_differs(q, {la[1].v: la[2] for la in got.layers}, want[1], since)
        if want[0] == 'items':
            if not isinstance(got, DictObj):
                return f'{got!r} instead of a mapping' if isinstance(got, Const) else f'?{got!r}'
            if not all(la[0] == 'kv' for la in got.layers):
                return f'?{got!r}'
            return items_differ(q, {la[1].key: la[2] for la in got.layers}, want[1])
        if want[0] == 'copy':
            if not isinstance(got, Inst):
                return f'?{got!r}'
            return copy_differs(q, got, want[1], 'copy')
        if want[0] == 'model':
            ev = [(e, d) for e, d in validated(q, want[2], since) if e.result is not None and e.result.key == got.key]
            if len(ev) != 1:
                return f'{got!r} is not the validated sub-model' if not ev or isinstance(got, Const) else f'?{got!r}'
            if ev[0][1] is None:
                return f'?{ev[0][0].args!r}'
            return dict_differs(q, ev[0][1], want[1], since)
    return None if q.equal(got, q.it.lift(want)) else f'{got!r} instead of {want!r}'


def items_differ(q, got, want):
    for k, w in want.items():
        if k not in got or not q.equal(got[k], w):
            return f'key {k}: {got.get(k)!r} instead of {w!r} in {got}'
    extra = [k for k in got if k not in want]
    return f'unexpected keys {extra}' if extra else None


def dict_differs(q, got, want, since):
    for k, w in want.items():
        d = value_differs(q, got.get(k), w, since)
        if d:
            return d if d[0] == '?' else f'{k}: {d}'
    extra = [k for k in got if k not in want]
    return f'unexpected keys {extra}' if extra else None


def outcome(q, pids, cls, out, want, rule, since=0, what=''):
    """The model must be the result of one validation of exactly the expected data."""
    if not q.no_raise(pids, out, f'{rule}: parsing succeeds', what):
        return None
    ev = validated(q, cls, since)
    if len(ev) != 1 or ev[0][1] is None:
        q.check(pids, None if ev else False, f'{rule}: the data is validated', f'{len(ev)} validations')
        return None
    e, d = ev[0]
    q.check(pids, e.result is not None and e.result.key == out[1].key, f'{rule}: the validated model is the result', f'{out[1]!r}')
    diff = dict_differs(q, d, want, since)
    q.check(pids, None if diff and diff[0] == '?' else not diff, f'{rule}: what is handed to validation', f'{what}: {diff}')
    return e


def siblings():
    return ([Field('pre', dict(STR), location='ATTRIBUTE')],
            [Field('post', dict(STR), location='ATTRIBUTE'), Field('last', dict(STR), location='ELEMENT')])


READ = 'C01 C14 C17 C18 C32 C34 C35 C24 C25'


@scenario(READ, backends=('lxml',), cases=[dict(kind=k, wrapped=w) for k in KINDS for w in (False, True)] + [
    dict(kind=k, wrapped=w, union=True) for k in ('text', 'attr', 'prim') for w in (False, True)], max_paths=20000, deep='C24 C25')
def values(q, kind, wrapped, union=False):
    """Every document shape for every field kind, with other fields around it."""
    q.s.may_reject = False
    p = q.it.pick
    d = Doc(q, kind)
    d.union = union
    if kind in ('prim', 'model'):
        d.nillable = p('nillable', [None, True])
    eas = p('empty_as_string', [False, True])
    case = p('content', d.cases())
    alias = p('validation alias', [None, 'va'])
    mode = p('search mode', ['STRICT', 'ORDERED', 'UNORDERED'])
    path = p('wrapping elements', [2, 1, 0]) if wrapped and case in ('absent', 'none') else 2
    before, after = siblings()
    if kind == 'attrs' and not wrapped:
        before, after = before + after[:1], after[1:]
    s = d.schema()
    cls = q.s.model('M', before + [d.field(default(nullable(s)), wrapped, val_alias=alias)] + after,
                    settings=dict(search_mode=q.it.enum_member(q.s.SM, mode)))
    attrs, children = [(Const('pre'), q.str('pre'))], []
    pa, pc = (attrs, children) if not wrapped else ([], [])
    text, e = d.place(case, pa, pc)
    if wrapped and path:
        children.append(el(q, Const('w1'), children=[el(q, Const('w2'), pa, text, pc)] if path == 2 else []))
        text = None
    attrs.append((Const('post'), Const('')))
    children.append(el(q, Const('last'), [], q.str('last')))
    ctx = q.value('context', 'dict')
    root = el(q, Const('M'), attrs, text, children)
    since = q.mark()
    out = parse(q, cls, root, context=ctx, empty_as_string=eas)
    want = {'pre': q.str('pre'), 'post': Const(''), 'last': q.str('last')}
    v = d.expected(case, eas, element=e)
    if wrapped and path < 2:
        v = ABSENT
    if v is not ABSENT:
        want[alias or 'fld'] = v
    pids = 'C01'
    pids += ' C32' if kind != 'raw' else ' C32 C35'
    pids += ' C14' if case in ('empty', '', 'absent') else ''
    pids += ' C17' if 'nil' in case or d.nillable else ''
    pids += ' C18' if kind in ('text', 'attr', 'prim', 'attrs', 'mapping') else ''
    pids += ' C34' if wrapped else ''
    ev = outcome(q, pids, cls, out, want, kind, since, f'content {case!r}')
    if ev is not None:
        for x in q.events(since, 'model_validate'):
            got = x.kwargs.get('context')
            q.check('C14', got is not None and got.key == ctx.key, f'{kind}: the validation context is passed on', f'{got!r}')
            st = x.kwargs.get('strict')
            q.check('C32', isinstance(st, Const) and st.v is False, f'{kind}: text is validated in lax mode', f'strict={st!r}')


# ------------------------------------------------------------------ collections
def bind(seq, mode, want, pos, bound):
    """Index the documented search binds next for the letter want, or None. pos: [position], bound: indices taken."""
    if mode == 'UNORDERED':
        free = [i for i, c in enumerate(seq) if c == want and i not in bound]
        if not free:
            return None
        bound.add(free[0])
        return free[0]
    for i in range(pos[0], len(seq)):
        if seq[i] == want:
            pos[0] = i + 1
            return i
        if mode == 'STRICT':
            return None
    return None


SEQ = ['aal', 'l', '', 'aaal', 'ajal', 'jal', 'laa', 'a', 'alj', 'aa']


@scenario('C30 C01 C06 C07 C13', cases=[dict(kind=k, coll=c, wrapped=w) for k in ('prim', 'mapping', 'model', 'raw')
                                        for c in ('list', 'tuple', 'named', 'list_tuple') for w in ((False, True) if c == 'list' else (False,))],
          max_paths=20000)
def collections(q, kind, coll, wrapped):
    """Every arrangement of up to three items among other elements."""
    q.s.may_reject = False
    p = q.it.pick
    mode = p('search mode', ['STRICT', 'ORDERED', 'UNORDERED'])
    seq = p('elements', SEQ)
    d = Doc(q, kind)
    s = d.schema()
    full = {'prim': 'str', 'mapping': 'two', 'model': 'full', 'raw': 'full'}[kind]
    cs = {'list': lambda: list_of(s), 'tuple': lambda: tuple_of(s, s), 'named': lambda: namedtuple_of(s, s),
          'list_tuple': lambda: list_of(tuple_of(s, s))}[coll]()
    loc = dict(location='ELEMENT')
    if wrapped:
        loc = dict(location='WRAPPED', path='w1/w2', wrapped=Field('', None, location='ELEMENT'))
    sm = dict(search_mode=q.it.enum_member(q.s.SM, mode))
    cls = q.s.model('M', [Field('fld', default(nullable(cs)), **loc), Field('last', default(nullable(dict(STR))), location='ELEMENT')],
                    settings=sm)
    kids, els = [], {}
    for i, c in enumerate(seq):
        if c == 'a':
            _, els[i] = d.place(full, [], kids, str(i))
        else:
            kids.append(el(q, Const('last' if c == 'l' else 'other'), [], q.str(f'text{i}')))
    outer = []
    if wrapped:
        outer = [k for k, c in zip(kids, seq) if c == 'l']
        kids = [el(q, Const('w1'), children=[el(q, Const('w2'), children=[k for k, c in zip(kids, seq) if c != 'l'])])]
    root = el(q, Const('M'), children=kids + outer)
    since = q.mark()
    out = parse(q, cls, root)
    pos, bound = [0], set()
    inner = seq.replace('l', 'j') if not wrapped else seq.replace('l', '')
    idx = [i for i, c in enumerate(seq) if not wrapped or c != 'l']
    take = lambda: bind(seq if not wrapped else inner, mode, 'a', pos, bound)  # noqa: E731

    def val(i):
        return ABSENT if i is None else d.expected(full, False, str(idx[i]), els.get(idx[i]))
    if coll == 'list':
        items = []
        while (i := take()) is not None:
            items.append(val(i))
        v = items or ABSENT
    elif coll == 'list_tuple':
        v = []
        while True:
            pair = [take(), take()]
            if pair == [None, None]:
                break
            v.append([val(i) for i in pair])
        v = v or ABSENT
    else:
        pair = [take(), take()]
        v = ABSENT if pair == [None, None] else [val(i) for i in pair]
    want = {} if v is ABSENT else {'fld': v}
    if wrapped:
        li = seq.index('l') if 'l' in seq else None
    else:
        li = bind(seq, mode, 'l', pos, bound)
    if li is not None:
        want['last'] = q.str(f'text{li}')
    outcome(q, 'C30 C01 C06 C07', cls, out, want, f'{coll} of {kind}', since, f'elements {seq!r}, {mode}')


@scenario('C30 C14 C17', cases=[dict(coll=c) for c in ('list', 'tuple', 'named')])
def blank_items(q, coll):
    """Collections of items some of which are empty or nil."""
    q.s.may_reject = False
    p = q.it.pick
    eas = p('empty_as_string', [True, False])
    d = Doc(q, 'prim')
    d.nillable = p('nillable', [None, True])
    cases = [p(f'item {i}', ['str', 'empty', '', 'nil']) for i in range(2 if coll != 'list' else 3)]
    s = nullable(d.schema())
    cs = {'list': lambda: list_of(s), 'tuple': lambda: tuple_of(s, s), 'named': lambda: namedtuple_of(s, s)}[coll]()
    cls = q.s.model('M', [Field('fld', default(nullable(cs)), location='ELEMENT', nillable=d.nillable)])
    kids = []
    for i, c in enumerate(cases):
        d.place(c, [], kids, str(i))
    since = q.mark()
    out = parse(q, cls, el(q, Const('M'), children=kids), empty_as_string=eas)
    v = [d.expected(c, eas, str(i)) for i, c in enumerate(cases)]
    none = [i for i, x in enumerate(v) if x is ABSENT]
    want = {'fld': v}
    if coll != 'list' and len(none) == 2:
        want = {}
    pids = 'C30 C14' + (' C17' if d.nillable else '')
    if coll == 'list' and none:
        if none == list(range(none[0], 3)):
            return      # only trailing ones: whether they count is not specified
        got = validated(q, cls, since)
        cut = v[:none[0]]
        if out[0] == 'return' and len(got) == 1 and got[0][1] is not None \
                and not dict_differs(q, got[0][1], {'fld': cut} if cut else {}, since):
            q.fail('C30', 'list: items after an item without value are lost', f'items {cases}: only the first {len(cut)} are read')
            return
    outcome(q, pids, cls, out, want, f'{coll}: empty items', since, f'items {cases}')


# ------------------------------------------------------------------ options on their way down
@scenario('C14 C32 C30 C01 C10', cases=[dict(place=x) for x in PLACES if x != 'computed'], max_paths=20000, deep='C24 C25')
def nested(q, place):
    """A sub-model (with a model inside) at every kind of place: context, empty texts and what is handed to its validation."""
    q.s.may_reject = False
    p = q.it.pick
    eas = p('empty_as_string', [None, False, True])
    y, t = p('texts of the inner element and model', [('absent', 'str'), (None, ''), ('', None), ('str', 'str')])
    mode = p('search mode', ['STRICT', 'ORDERED', 'UNORDERED'])
    n = p('elements', [1, 2]) if 'list' in place else 1
    tagged = 'tagged' in place
    sm = dict(search_mode=q.it.enum_member(q.s.SM, mode))

    def sub(name, tag):
        Deep = q.s.model(name + 'Deep', [Field('t', default(nullable(dict(STR))))], settings=sm)
        fs = [Field('x', default(nullable(dict(STR))), location='ATTRIBUTE'), Field('y', default(nullable(dict(STR))), location='ELEMENT'),
              Field('d', default(nullable(q.s.schema_of(Deep))), location='ELEMENT', path='d')]
        if tagged:
            fs = [Field('t', {'type': 'literal', 'expected': [tag]}, location='ATTRIBUTE')] + fs
        return q.s.model(name, fs, settings=sm), Deep
    Sub, SubDeep = sub('Sub', 'one')
    Other, OtherDeep = sub('Other', 'two')
    root = place.startswith('root')
    s = placed(q, place, Sub, Other)[0] if not root else list_of(q.s.schema_of(Sub)) if place == 'root_list' else q.s.schema_of(Sub)
    w = place.startswith('wrapped')
    at = dict(location='WRAPPED', path='w1/w2', wrapped=Field('', None, location='ELEMENT', path='n')) if w else dict(location='ELEMENT', path='n')
    if root:
        cls = q.s.model('M', [Field('root', s, **at)], root=True, settings=sm)
    else:
        cls = q.s.model('M', [Field('fld', s, **at), Field('last', default(nullable(dict(STR))), location='ELEMENT')], settings=sm)
    kids = []
    for i in range(n):
        inner = [] if y == 'absent' else [el(q, Const('y'), text=q.str(f'y{i}') if y == 'str' else y)]
        inner.append(el(q, Const('d'), text=q.str(f't{i}') if t == 'str' else t))
        kids.append(el(q, Const('n'), ([(Const('t'), Const('one'))] if tagged else []) + [(Const('x'), q.str(f'x{i}'))], children=inner))
    if w:
        kids = [el(q, Const('w1'), children=[el(q, Const('w2'), children=kids)])]
    doc = el(q, Const('M'), children=kids + ([] if root else [el(q, Const('last'))]))
    ctx = q.value('context', 'dict')
    since = q.mark()
    out = parse(q, cls, doc, context=ctx, **({} if eas is None else dict(empty_as_string=eas)))
    C, D = (Other, OtherDeep) if place in ('union2', 'list_union', 'tuple_union') else (Sub, SubDeep)

    def expected(i):
        d = {'x': q.str(f'x{i}')}
        if tagged:
            d['t'] = Const('one')
        if y == 'str' or y != 'absent' and eas:
            d['y'] = q.str(f'y{i}') if y == 'str' else Const('')
        d['d'] = ('model', {'t': q.str(f't{i}')} if t == 'str' else {'t': Const('')} if eas else {}, D)
        return ('model', d, C)
    v = [expected(i) for i in range(n)]
    if place in ('list_tuple',):
        v = [[x] for x in v]
    if not any(k in place for k in ('list', 'tuple', 'named')):
        v = v[0]
    rule = f'{place}: nested model'
    if not q.no_raise('C14 C32', out, f'{rule}: parsing succeeds', ''):
        return
    for e in q.events(since, 'model_validate'):
        got = e.kwargs.get('context')
        q.check('C14', got is not None and got.key == ctx.key, f'{rule}: the validation context is passed on', f'{e.recv!r}: {got!r}')
        st = e.kwargs.get('strict')
        q.check('C32', isinstance(st, Const) and st.v is False, f'{rule}: text is validated in lax mode', f'{e.recv!r}: strict={st!r}')
    ev = [e for e in q.events(since, 'model_validate') if e.recv is not None and e.recv.key == cls.key]
    if len(ev) != 1:
        q.check('C14 C32', None if ev else False, f'{rule}: the data is validated', f'{len(ev)} validations')
        return
    if root:
        got, want = {'root': ev[0].args[0]}, {'root': v}
    else:
        got = validated(q, cls, since)[0][1]
        want = dict(fld=v, **({'last': Const('')} if eas else {}))
        if got is None:
            q.check('C14 C32', None, f'{rule}: what is handed to validation', repr(ev[0].args))
            return
    diff = dict_differs(q, got, want, since)
    q.check('C14 C32 C30 C01' + (' C10' if 'union' in place or tagged else ''), None if diff and diff[0] == '?' else not diff,
            f'{rule}: what is handed to validation', f'{mode}, y {y!r}, t {t!r}, empty_as_string={eas}: {diff}')


@scenario('C01 C14 C17 C18 C32 C34 C35 C24 C25', cases=[dict(kind=k, at=a) for k in KINDS for a in ('top', 'field', 'list', 'wrapped')], max_paths=20000,
          deep='C24 C25')
def roots(q, kind, at):
    """Root models of every kind, alone and as a field of another model."""
    q.s.may_reject = False
    p = q.it.pick
    d = Doc(q, kind)
    if kind in ('prim', 'model'):
        d.nillable = p('nillable', [None, True])
    eas = p('empty_as_string', [False, True])
    case = p('content', d.cases())
    mode = p('search mode', ['STRICT', 'ORDERED', 'UNORDERED'])
    sm = dict(search_mode=q.it.enum_member(q.s.SM, mode))
    f = d.field(nullable(d.schema()), at == 'wrapped')
    f.name = 'root'
    if kind not in ('text', 'attrs'):
        (f.wrapped if at == 'wrapped' else f).path = 'fld'
    R = q.s.model('R', [f], root=True, settings=sm)
    attrs, children = [], []
    text, e = d.place(case, attrs, children)
    if at == 'wrapped':
        children = [el(q, Const('w1'), children=[el(q, Const('w2'), attrs, text, children)])]
        text, attrs = None, []
    doc = el(q, Const('R' if at in ('top', 'wrapped') else 'n'), attrs, text, children)
    top = R
    if at in ('field', 'list'):
        s = q.s.schema_of(R)
        top = q.s.model('M', [Field('fld', list_of(s) if at == 'list' else s, location='ELEMENT', path='n')], settings=sm)
        doc = el(q, Const('M'), children=[doc])
    ctx = q.value('context', 'dict')
    since = q.mark()
    out = parse(q, top, doc, context=ctx, empty_as_string=eas)
    rule = f'root of {kind}'
    pids = 'C01 C32' + (' C14' if case in ('empty', '', 'absent') else '') + (' C17' if 'nil' in case or d.nillable else '') \
        + (' C35' if kind == 'raw' else '') + (' C34' if at == 'wrapped' else '')
    if not q.no_raise(pids, out, f'{rule}: parsing succeeds', f'content {case!r}'):
        return
    ev = [x for x in q.events(since, 'model_validate') if x.recv is not None and x.recv.key == R.key]
    if len(ev) != 1:
        q.check(pids, None if ev else False, f'{rule}: the data is validated', f'{len(ev)} validations')
        return
    got = ev[0].args[0] if ev[0].args else ev[0].kwargs.get('obj')
    want = d.expected(case, eas, element=e)
    if want is ABSENT:
        diff = None if isinstance(got, ExtV) and got.name.endswith('PydanticUndefined') else f'{got!r} instead of nothing'
    else:
        diff = value_differs(q, got, want, since)
    q.check(pids, None if diff and diff[0] == '?' else not diff, f'{rule}: what is handed to validation', f'content {case!r}: {diff}')
    for x in q.events(since, 'model_validate'):
        st = x.kwargs.get('strict')
        q.check('C32', isinstance(st, Const) and st.v is False, f'{rule}: text is validated in lax mode', f'{x.recv!r}: strict={st!r}')
    c = ev[0].kwargs.get('context')
    q.check('C14', c is not None and c.key == ctx.key, f'{rule}: the validation context is passed on', f'{c!r}')
    if at in ('field', 'list'):
        tv = validated(q, top, since)
        if len(tv) != 1 or tv[0][1] is None:
            q.check(pids, None if tv else False, f'{rule}: the containing model is validated', repr(tv))
            return
        g = tv[0][1].get('fld')
        if at == 'list' and isinstance(g, ListObj) and g.concrete and len(g.items) == 1:
            g = g.items[0]
        q.check(pids, g is not None and g.key == ev[0].result.key, f'{rule}: the root model is handed on', f'{g!r}')
    else:
        q.same(pids, out[1], ev[0].result, f'{rule}: the validated model is the result', '')
