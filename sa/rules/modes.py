"""C06, C07, C34: the search mode of the containing model governs every element of a path, its own mode the content of a sub-model;
fields wrapped by the same path share the elements on it."""
from ..domain import Const
from ..engine import scenario
from ..harness import Field
from .common import *  # noqa: F401,F403
from .common import STR, default, list_of, nullable, tuple_of, union_of, validated
from .reading import ABSENT, KINDS, Doc, bind, dict_differs, outcome
from .shapes import el, parse

MODES = ('STRICT', 'ORDERED', 'UNORDERED')
#: t: the element searched for, j: another one, l: the element of the next field
LEVEL = ['t', 'jt', 'tj', 'j']


def mode_of(q, m):
    return dict(search_mode=q.it.enum_member(q.s.SM, m))


def around(q, seq, target, n):
    return [target if c == 't' else el(q, Const('last' if c == 'l' else 'other'), [], q.str(f'text{n}_{i}'))
            for i, c in enumerate(seq)]


@scenario('C06 C07 C34 C01', cases=[dict(kind=k, wrapped=w) for k in KINDS for w in (False, True) if w or k not in ('attr', 'attrs', 'text')])
def levels(q, kind, wrapped):
    """Every arrangement of other elements around each element on the way to a field, in every search mode."""
    q.s.may_reject = False
    p = q.it.pick
    mode = p('search mode', MODES)
    at_element = kind not in ('attr', 'attrs', 'text')
    seqs = [p('document', ['tl', 'jtl', 'tjl', 'lt', 'jl'])]
    if wrapped:
        seqs.append(p('first wrapper', LEVEL))
        if at_element:
            seqs.append(p('second wrapper', LEVEL))
    d = Doc(q, kind)
    cls = q.s.model('M', [d.field(default(nullable(d.schema())), wrapped), Field('last', default(nullable(dict(STR))), location='ELEMENT')],
                    settings=mode_of(q, mode))
    full = {'prim': 'str', 'mapping': 'two', 'model': 'full', 'raw': 'full', 'text': 'str', 'attr': 'str', 'attrs': 'two'}[kind]
    attrs, kids = [], []
    text, e = d.place(full, attrs, kids)
    if at_element:
        kids = around(q, seqs[-1], e, len(seqs) - 1)
    if wrapped:
        kids = around(q, seqs[1], el(q, Const('w2'), attrs, text, kids), 1)
        kids = around(q, seqs[0], el(q, Const('w1'), children=kids), 0)
    root = el(q, Const('M'), children=kids)
    since = q.mark()
    out = parse(q, cls, root)
    pos, bound, want = [0], set(), {}
    found = bind(seqs[0], mode, 't', pos, bound) is not None
    li = bind(seqs[0], mode, 'l', pos, bound)
    found = found and all(bind(s, mode, 't', [0], set()) is not None for s in seqs[1:])
    if found:
        v = d.expected(full, False, element=e)
        if v is not ABSENT:
            want['fld'] = v
    if li is not None:
        want['last'] = q.str(f'text0_{li}')
    outcome(q, 'C06 C07 C01' + (' C34' if wrapped else ''), cls, out, want, f'{kind}: search modes on its path', since, f'{mode}, {seqs}')


@scenario('C06 C07 C01', cases=[dict(place=x) for x in ('direct', 'list', 'wrapped', 'union', 'tuple', 'root')])
def own_mode(q, place):
    """The element of a sub-model is searched in the mode of the model that contains it, its content in its own mode."""
    q.s.may_reject = False
    p = q.it.pick
    outer, inner = p('mode of the model', MODES), p('mode of the sub-model', MODES)
    top, sub = p('document', ['tl', 'jtl', 'lt']), p('content', ['tl', 'jtl', 'lt'])
    fs = [Field('t', default(nullable(dict(STR))), location='ELEMENT'), Field('last', default(nullable(dict(STR))), location='ELEMENT')]
    S = q.s.model('S', fs, settings=mode_of(q, inner))
    s = q.s.schema_of(S)
    if place == 'root':
        s = q.s.schema_of(q.s.model('R', [Field('root', s, location='ELEMENT', path='s')], root=True, settings=mode_of(q, inner)))
    if place == 'union':
        O = q.s.model('O', [Field('o', dict(STR), location='ATTRIBUTE')])  # noqa: E741
        s = union_of(s, q.s.schema_of(O))
    s = {'list': lambda: list_of(s), 'tuple': lambda: tuple_of(s)}.get(place, lambda: s)()
    at = dict(location='ELEMENT', path='n')
    if place == 'wrapped':
        at = dict(location='WRAPPED', path='w', wrapped=Field('', None, **at))
    cls = q.s.model('M', [Field('fld', default(nullable(s)), **at), Field('last', default(nullable(dict(STR))), location='ELEMENT')],
                    settings=mode_of(q, outer))
    names = {'t': 't', 'l': 'last', 'j': 'other'}
    content = [el(q, Const(names[c]), text=q.str(f'in{i}')) for i, c in enumerate(sub)]
    if place == 'root':
        content = [el(q, Const('s'), children=content)]
    e = el(q, Const('n'), children=content)
    if place == 'wrapped':
        e = el(q, Const('w'), children=around(q, 'jt', e, 1))
    since = q.mark()
    out = parse(q, cls, el(q, Const('M'), children=around(q, top, e, 0)))

    def read(seq, mode, prefix, target):
        pos, bound, d = [0], set(), {}
        for c, name in (('t', 't'), ('l', 'last')):
            i = bind(seq, mode, c, pos, bound)
            if i is not None:
                d[name] = q.str(f'{prefix}{i}') if c != 't' or not target else target
        return d
    v = ('model', read(sub, inner, 'in', None), S)
    if place == 'root':
        v = None
    want = read(top, outer, 'text0_', 'x')
    if 't' in want:
        del want['t']
        if place != 'wrapped' or outer != 'STRICT':
            want['fld'] = [v] if place in ('list', 'tuple') else v
    if place == 'root' and 'fld' in want:
        evs = [x for x in q.events(since, 'model_validate') if x.recv is not None and x.recv.key == S.key]
        q.check('C06 C07', len(evs) == 1, 'root: the inner model is validated', f'{outer} {inner} {top} {sub}: {len(evs)} validations')
        got = validated(q, S, since)
        if got and got[0][1] is not None:
            diff = dict_differs(q, got[0][1], read(sub, inner, 'in', None), since)
            q.check('C06 C07', None if diff and diff[0] == '?' else not diff, 'root: content in its own mode', f'{outer} {inner} {top} {sub}: {diff}')
        return
    outcome(q, 'C06 C07 C01', cls, out, want, f'{place}: own search mode', since, f'{outer} with {inner} inside: {top} {sub}')


#: documents for fields wrapped by (partly) the same path: lists of top level elements, each the list of its sub-elements' names
DOCS = [
    [('a', ['b', 'c'])], [('a', ['c', 'b'])], [('a', ['b']), ('a', ['c'])], [('a', ['c']), ('a', ['b'])], [('a', ['b']), ('y', []), ('a', ['c'])],
    [('y', []), ('a', ['b', 'c'])], [('a', ['j', 'b', 'j', 'c'])], [('j', []), ('a', ['b', 'c'])], [('a', ['c'])], [],
]


class Level:
    """Reference of the documented search: position and bound elements of one element, looking at the last bound one first."""

    def __init__(self, names, mode):
        self.names, self.mode, self.pos, self.bound, self.last = names, mode, [0], set(), None

    def find(self, name, behind):
        if behind and self.last is not None and self.names[self.last] == name:
            return self.last
        i = bind(self.names, self.mode, name, self.pos, self.bound)
        if i is not None:
            self.last = i
        return i


@scenario('C34 C06 C07 C01', cases=[dict(between=b, second=s) for b in (False, True) for s in ('element', 'attribute')])
def shared(q, between, second):
    """Two fields wrapped by the same element, in one or several elements of that name, with or without a field in between."""
    q.s.may_reject = False
    p = q.it.pick
    mode = p('search mode', MODES)
    doc = p('document', DOCS)
    W = lambda n, at: Field(n, default(nullable(dict(STR))), location='WRAPPED', path='a', wrapped=Field('', None, **at))  # noqa: E731
    fb = W('b', dict(location='ELEMENT'))
    fc = W('c', dict(location='ELEMENT' if second == 'element' else 'ATTRIBUTE'))
    fy = Field('y', default(nullable(dict(STR))), location='ELEMENT')
    fields = [fb, fy, fc] if between else [fb, fc, fy]
    cls = q.s.model('M', fields, settings=mode_of(q, mode))
    kids = []
    for i, (n, sub) in enumerate(doc):
        at = [(Const('c'), q.str(f'at{i}'))] if second == 'attribute' and 'c' in sub else []
        sub = [s for s in sub if not (s == 'c' and at)]
        kids.append(el(q, Const(n if n != 'j' else 'other'), at, q.str(f'y{i}') if n == 'y' else None,
                       [el(q, Const(s if s != 'j' else 'other'), [], q.str(f'{s}{i}_{k}')) for k, s in enumerate(sub)]))
    since = q.mark()
    out = parse(q, cls, el(q, Const('M'), children=kids))
    top = Level([n for n, _ in doc], mode)
    subs = [Level([s for s in sub if not (second == 'attribute' and s == 'c')], mode) for _, sub in doc]
    attrs = [['c'] if 'c' in sub else [] for _, sub in doc]
    want = {}
    for f in fields:
        if f.name == 'y':
            i = top.find('y', False)
            if i is not None:
                want['y'] = q.str(f'y{i}')
            continue
        i = top.find('a', True)
        if i is None:
            continue
        if f.name == 'c' and second == 'attribute':
            if attrs[i]:
                want['c'] = q.str(f'at{i}')
            continue
        k = subs[i].find(f.name, False)
        if k is not None:
            want[f.name] = q.str(f'{f.name}{i}_{k}')
    outcome(q, 'C34 C06 C07 C01', cls, out, want, 'fields in the same wrapper', since, f'{mode}, {doc}')
