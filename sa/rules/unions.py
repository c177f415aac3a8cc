"""C09, C10, C11: which alternative of a union reads an element, what rejected alternatives leave behind, which errors are reported."""
from ..domain import Const
from ..engine import scenario
from ..harness import Field
from .common import *  # noqa: F401,F403
from .common import STR, default, list_of, nullable, raw, tuple_of, union_of, validated, write
from .errors import Judge, check_errors, line_of
from .reading import ABSENT, bind, outcome
from .shapes import E, el, parse, same_tree

UNI = 'C09 C10 C11 C12 C13 C06 C07 C30 C24 C25'
MODES = ['STRICT', 'ORDERED', 'UNORDERED']
ALTS = ('A', 'B', 'C')


class Union:
    """Three alternatives taking different parts of the same element; A may fail at several points."""

    def __init__(self, q, tags, point='own', discr=None, names=None):
        self.q, self.point, self.discr, self.parts = q, point, discr, {}
        self.tags = dict(zip(ALTS, tags))
        self.names = dict(zip(ALTS, names or ALTS))
        f = lambda n, s, loc=None: Field(n, s, location=loc)  # noqa: E731
        self.Inner = q.s.model('Inner', [f('x', dict(STR), 'ATTRIBUTE'), f('u', dict(STR), 'ELEMENT')])
        opt = lambda s: default(nullable(s))  # noqa: E731
        body = {
            'A': [f('x', dict(STR), 'ATTRIBUTE'), f('t', opt(dict(STR))), f('s', opt(q.s.schema_of(self.Inner)), 'ELEMENT'),
                  f('i', opt(list_of(dict(STR))), 'ELEMENT'), f('y', opt(dict(STR)), 'ELEMENT')],
            'B': [f('x', dict(STR), 'ATTRIBUTE'), f('s', opt(raw(q)), 'ELEMENT'), f('i', opt(list_of(dict(STR))), 'ELEMENT'),
                  f('y', opt(dict(STR)), 'ELEMENT'), f('t', opt(dict(STR))), f('rest', opt(mapping()))],
            'C': [f('x', dict(STR), 'ATTRIBUTE'), f('s', opt(q.s.schema_of(self.Inner)), 'ELEMENT'), f('t', opt(dict(STR)))],
        }
        self.cls = {}
        for n, fs in body.items():
            if discr:
                fs.append(Field('d', {'type': 'literal', 'expected': [discr[n]]}, location='ATTRIBUTE'))
            st = {} if self.tags[n] is None else dict(tag=self.tags[n])
            self.cls[n] = q.s.model(self.names[n], fs, settings=st, config=dict(extra='forbid') if n == 'A' and point == 'extra' else None)

    def schema(self):
        s = self.q.s.schema_of
        if self.discr:
            return {'type': 'tagged-union', 'discriminator': 'd', 'choices': {self.discr[n]: s(c) for n, c in self.cls.items()}}
        return union_of(*[s(c) for c in self.cls.values()])

    def element(self, i, tag, d=None):
        """Element number i."""
        q = self.q
        at = [(Const('x'), q.str(f'x{i}')), (Const('more'), q.str(f'more{i}'))] if self.point != 'extra' else [(Const('x'), q.str(f'x{i}'))]
        if self.discr:
            at.append((Const('d'), Const(d)))
        self.s = el(q, Const('s'), [(Const('x'), q.str(f'sx{i}'))], q.str(f'st{i}') if self.point != 'extra' else None, [el(q, Const('u'), [], q.str(f'u{i}'))])
        self.extra = el(q, Const('zz'), [], Const('extra'))
        kids = [self.s, el(q, Const('i'), [], q.str(f'i{i}0')), el(q, Const('i'), [], q.str(f'i{i}1')), el(q, Const('y'), [], q.str(f'y{i}'))]
        e = el(q, Const(tag), at, q.str(f't{i}'), kids + ([self.extra] if self.point == 'extra' else []))
        self.parts[e.key] = self.s, self.extra
        return e

    def reject(self, judge, n, i, e):
        """Alternative n rejects element i: [(loc below the alternative, error, line)]"""
        q = self.q
        if n == 'A' and self.point == 'sub':
            err = judge.reject(('Inner', f'sx{i}'), [('x',)]) if ('Inner', f'sx{i}') not in judge.plan else judge.plan['Inner', f'sx{i}']
            return [(('s', 'x'), err[0], line_of(self.parts[e.key][0]))]
        if n == 'A' and self.point == 'extra':
            err = dict(type=Const('extra_forbidden'), msg=Const('Extra inputs are not permitted'), input=Const('extra'))
            return [(('zz',), err, line_of(self.parts[e.key][1]))]
        k = (self.names[n], f'x{i}')
        errs = judge.reject(k, [('x',), ()])
        return [(x['loc'], x, line_of(e)) for x in errs]

    def value(self, n, i, e, d=None):
        q = self.q
        v = {'x': q.str(f'x{i}'), 't': q.str(f't{i}')}
        inner = ('model', {'x': q.str(f'sx{i}'), 'u': q.str(f'u{i}')}, self.Inner)
        if n != 'C':
            v.update(i=[q.str(f'i{i}0'), q.str(f'i{i}1')], y=q.str(f'y{i}'))
        v['s'] = ('copy', self.parts[e.key][0]) if n == 'B' else inner
        if n == 'B':
            v['rest'] = ('map', {'more': q.str(f'more{i}')} if self.point != 'extra' else {})
        if self.discr:
            if n == 'B':
                v['rest'][1]['d'] = Const(d)
            else:
                v['d'] = Const(d)
        return ('model', v, self.cls[n])


SAME = ['nl', 'nnl', 'l', 'onl']
DIFF = ['abl', 'bal', 'cl', 'bcal', 'lab', 'aal']


@scenario(UNI, cases=[dict(tags=t, place=pl, point=pt) for t in ('same', 'different') for pl in ('direct', 'list', 'tuple', 'wrapped')
                      for pt in ('own', 'sub', 'extra')], max_paths=20000)
def alternatives(q, tags, place, point):
    """Alternatives in declaration order, failing at several points, at several places."""
    q.s.may_reject = False
    p = q.it.pick
    mode = p('search mode', MODES)
    u = Union(q, [None] * 3 if tags == 'same' else 'abc', point)
    cls = container(q, u, place, mode)
    seq = p('elements', (SAME if tags == 'same' else DIFF)[:None if point == 'own' and place in ('direct', 'list') else 2])
    kids, els, judge = [], {}, Judge(q)
    rej = {}        # (alternative, element) -> errors
    for i, c in enumerate(seq):
        if c in 'nabc':
            e = els[i] = u.element(i, c)
            who = p(f'element {i} is rejected by', (['', 'ABC'] if i else ['', 'A', 'AB', 'ABC']) if c == 'n' else ['', c.upper()])
            if point == 'extra' and 'A' not in who and c in 'na':
                who += 'A'
            if c == 'n' and point == 'sub' and 'A' in who and 'C' not in who and who != 'A':
                who += 'C'      # the nested model is part of C too
            for n in sorted(who):
                rej[n, i] = u.reject(judge, n, i, e)
                if n == 'C' and point == 'sub' and c == 'n':
                    rej[n, i] = rej['A', i] if ('A', i) in rej else rej[n, i]
            kids.append(e)
        else:
            kids.append(el(q, Const('last' if c == 'l' else 'other'), [], q.str(f'text{i}')))
    run(q, cls, u, place, seq, kids, els, judge, rej, mode, f'{tags} tags, {place}, {point}')


def container(q, u, place, mode):
    s = u.schema()
    sch = {'direct': lambda: s, 'list': lambda: list_of(s), 'tuple': lambda: tuple_of(s, s), 'wrapped': lambda: s}[place]()
    path = None if u.tags['A'] else 'n'
    at = dict(location='ELEMENT', path=path)
    if place == 'wrapped':
        at = dict(location='WRAPPED', path='w1/w2', wrapped=Field('', None, **at))
    return q.s.model('M', [Field('fld', default(nullable(sch)), **at), Field('last', default(nullable(dict(STR))), location='ELEMENT')],
                     settings=dict(search_mode=q.it.enum_member(q.s.SM, mode)))


def run(q, cls, u, place, seq, kids, els, judge, rej, mode, rule, pick=None):
    inner = seq
    outer = kids
    if place == 'wrapped':
        inner = seq.replace('l', 'o')
        w = [k for k, c in zip(kids, seq) if c != 'l']
        inner_idx = [i for i, c in enumerate(seq) if c != 'l']
        outer = [el(q, Const('w1'), children=[el(q, Const('w2'), children=w)])] + [k for k, c in zip(kids, seq) if c == 'l']
        inner = ''.join(seq[i] for i in inner_idx)
    else:
        inner_idx = list(range(len(seq)))
    root = el(q, Const('M'), children=outer)
    state = [0, set()]
    errors = []

    def take(at):
        """One value of the union from the current position."""
        errs, rejected = [], None
        for n in ALTS:
            pos, bound = [state[0]], set(state[1])
            i = bind(inner, mode, u.tags[n] or 'n', pos, bound)
            if i is None or pick and not pick(n, inner_idx[i]):
                continue
            j = inner_idx[i]
            if (n, j) in rej:
                errs += [(at + (() if pick else (u.names[n],)) + lo, e, ln) for lo, e, ln in rej[n, j]]
                rejected = rejected or (pos[0], bound)
                if pick:
                    break
                continue
            state[0], state[1] = pos[0], bound
            return u.value(n, j, els[j], pick and u.discr[n])
        if errs:
            state[0], state[1] = rejected
            errors.extend(errs)
            return 'error'
        return None
    if place == 'list':
        v, n = [], 0
        while (x := take(('fld', n))) is not None:
            v.append(x)
            n += 1
        v = v or None
    elif place == 'tuple':
        v = [take(('fld', 0)), take(('fld', 1))]
        v = None if v == [None, None] else [ABSENT if x is None else x for x in v]
    else:
        v = take(('fld',))
    if place == 'wrapped':
        li = seq.index('l') if 'l' in seq else None
    else:
        li = bind(seq, mode, 'l', [state[0]], state[1])
    since = q.mark()
    out = parse(q, cls, root)
    what = f'elements {seq!r}, {mode}, rejected: {sorted(rej)}'
    if errors:
        q.check('C11 C10', not validated(q, cls, since), f'{rule}: no model is built from an invalid document', what)
        check_errors(q, 'C11 C12 C13', out, errors, rule, what)
        q.check('C10', out[0] == 'raise', f'{rule}: rejection by every alternative is an error', what)
        return
    want = {} if v is None else {'fld': v}
    if li is not None:
        want['last'] = q.str(f'text{li}')
    outcome(q, UNI.replace(' C11 C12 C13', ''), cls, out, want, rule, since, what)


@scenario(UNI, cases=[dict(place=pl) for pl in ('direct', 'list')], max_paths=4000)
def same_names(q, place):
    """Alternatives whose classes have the same name."""
    q.s.may_reject = False
    u = Union(q, [None] * 3, names=('A', 'A', 'C'))
    judge, rej = Judge(q), {}
    e = u.element(0, 'n')
    for n in ALTS:
        rej[n, 0] = u.reject(judge, n, 0, e)
    rej['A', 0] = rej['B', 0]
    run(q, container(q, u, place, 'STRICT'), u, place, 'n', [e], {0: e}, judge, rej, 'STRICT', f'alternatives of one name, {place}')


@scenario(UNI, cases=[dict(tags=t, place=pl) for t in ('same', 'different') for pl in ('direct', 'list', 'tuple', 'wrapped')], max_paths=20000)
def discriminated(q, tags, place):
    """The discriminating attribute selects the alternative."""
    q.s.may_reject = False
    p = q.it.pick
    mode = p('search mode', MODES)
    discr = {'A': 'da', 'B': 'db', 'C': 'dc'}
    u = Union(q, [None] * 3 if tags == 'same' else 'abc', discr=discr)
    cls = container(q, u, place, mode)
    seq = p('elements', SAME if tags == 'same' else DIFF)
    kids, els, judge, rej, disc = [], {}, Judge(q), {}, {}
    for i, c in enumerate(seq):
        if c in 'nabc':
            n = c.upper() if c != 'n' else p(f'alternative of element {i}', list(ALTS))
            disc[i] = n
            e = els[i] = u.element(i, c, discr[n])
            if p(f'element {i} is rejected', [False, True]):
                rej[n, i] = u.reject(judge, n, i, e)
            kids.append(e)
        else:
            kids.append(el(q, Const('last' if c == 'l' else 'other'), [], q.str(f'text{i}')))
    run(q, cls, u, place, seq, kids, els, judge, rej, mode, f'discriminated, {tags} tags, {place}', pick=lambda n, i: disc[i] == n)


@scenario('C10 C24 C25', cases=[dict(form=f, place=pl) for f in ('union', 'discriminated', 'derived discriminator') for pl in ('direct', 'list', 'tuple', 'wrapped', 'nullable')],
          max_paths=4000)
def written(q, form, place):
    """The alternative that writes a value, for alternatives derived from one another or of one name, in every order."""
    p, it = q.it.pick, q.it
    relation = p('classes', ['derived', 'unrelated', 'one name'])
    tags = p('tags', ['own', 'one'])
    ds = form != 'union'
    discr = {'A': 'da', 'B': 'db', 'C': 'dc'}
    cls = {}
    for n in ALTS:
        fs = [Field('x', dict(STR), location='ATTRIBUTE')]
        for k in ALTS[:ALTS.index(n) + 1] if relation == 'derived' else n:
            fs.append(Field(k.lower() + 'only', default(nullable(dict(STR))), location='ELEMENT'))
        if ds:
            fs.append(Field('d', {'type': 'literal', 'expected': [discr[n]]}, location='ATTRIBUTE', path='kind' if form != 'discriminated' else None))
        bases = None
        if relation == 'derived' and n != 'A':
            bases = [cls[{'B': 'A', 'C': 'B'}[n]]]
        cls[n] = q.s.model('A' if relation == 'one name' else n, fs, bases=bases, settings=dict(tag=n.lower() if tags == 'own' else 'n'))
    order = p('order', ['ABC', 'CBA', 'BAC'])
    sc = q.s.schema_of
    s = {'type': 'tagged-union', 'discriminator': 'd', 'choices': {discr[n]: sc(cls[n]) for n in order}} if ds \
        else union_of(*[sc(cls[n]) for n in order])
    sch = {'direct': lambda: s, 'list': lambda: list_of(s), 'tuple': lambda: tuple_of(s, s), 'wrapped': lambda: s,
           'nullable': lambda: default(nullable(s))}[place]()
    at = dict(location='ELEMENT')
    if place == 'wrapped':
        at = dict(location='WRAPPED', path='w1', wrapped=Field('', None, location='ELEMENT'))
    M = q.s.model('M', [Field('fld', sch, **at)])
    many = place in ('list', 'tuple')
    vals, encs, exps = [], [], []
    for i, n in enumerate(p('values', ['AB', 'BC', 'CA'] if many else ALTS)):
        only = {k.lower() + 'only': q.str(f'{k}only{i}') for k in (ALTS[:ALTS.index(n) + 1] if relation == 'derived' else n)}
        own = {'x': q.str(f'x{i}'), **only, **({'d': Const(discr[n])} if ds else {})}
        vals.append(q.s.instance(cls[n], own, own, fields_set=it.new_set([Const(x) for x in own])))
        encs.append(it.new_dict([('kv', Const(x), v) for x, v in own.items()]))
        d = [(Const('kind' if form == 'derived discriminator' else 'd'), Const(discr[n]))] if ds else []
        exps.append(E(Const(n.lower() if tags == 'own' else 'n'), [(Const('x'), q.str(f'x{i}'))] + d, None, [E(Const(k), [], w) for k, w in only.items()]))
    v = it.list_of(vals) if place == 'list' else it.lift(tuple(vals)) if place == 'tuple' else vals[0]
    m = q.s.instance(M, {'fld': v}, {'fld': it.list_of(encs) if many else encs[0]}, fields_set=it.new_set([Const('fld')]))
    out = write(q, m, skip_empty=p('skip_empty', [False, True]))
    if not q.no_raise('C10', out, f'{form}, {place}: serialization succeeds', ''):
        return
    root = E(Const('M'), children=[E(Const('w1'), children=exps)] if place == 'wrapped' else exps)
    same_tree(q, 'C10', out[1], root, f'{form}, {place}: the alternative of the value writes it')
