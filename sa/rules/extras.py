"""C08: data not bound to any field is reported by models which forbid extra data, and only by them."""
from ..domain import Const, DictObj
from ..engine import scenario
from ..harness import Field
from .common import *  # noqa: F401,F403
from .common import STR, XSI_NIL, default, list_of, mapping, namedtuple_of, nullable, raw, tuple_of, union_of, validated
from .errors import check_errors, line_of
from .shapes import el, parse

EXTRA = 'C08 C13 C12 C11'
KINDS = ('text', 'attr', 'attrs', 'prim', 'nil', 'mapping', 'model', 'nil_model', 'raw', 'list', 'list_model', 'list_mapping', 'list_raw',
         'tuple', 'named', 'list_tuple', 'wrapped', 'wrapped_attr', 'wrapped_text', 'wrapped_attrs', 'wrapped_list', 'wrapped_model', 'union', 'tagged',
         'prim_union', 'computed', 'noxml', 'custom', 'root', 'excluded', 'rest')


class Left:
    """A document and the places of it where data nobody binds can be put."""

    def __init__(self, q):
        self.q, self.spots = q, []

    def free(self, path, e, bound='', at_root=False):
        """Places in element e (path: tags from the model's element). bound: letters of what is bound: a(ttributes) t(ext) c(hildren)"""
        q, n = self.q, len(self.spots)
        if 'a' not in bound:
            self.spots.append((f'attribute of {"/".join(path) or "."}', lambda: self.attr(e, f'xa{n}', path)))
        if 't' not in bound:
            self.spots.append((f'text of {"/".join(path) or "."}', lambda: self.text(e, 'text', f'left{n}', path)))
        if not at_root:
            self.spots.append((f'tail of {"/".join(path) or "."}', lambda: self.text(e, 'tail', f'tail{n}', path)))
        if 'c' not in bound:
            self.spots.append((f'element in {"/".join(path) or "."}', lambda: self.child(e, n, path)))

    def err(self, loc, value, line):
        return (tuple(loc), dict(type=Const('extra_forbidden'), msg=Const('Extra inputs are not permitted'), input=value), line)

    def attr(self, e, name, path):
        v = self.q.str(name, empty=True)
        self.q.it.dict_set(e.attrs['attrib'], Const(name), v)
        return [self.err([*path, '@' + name], v, line_of(e))]

    def text(self, e, what, v, path):
        e.attrs[what] = Const(v)
        return [self.err(path, Const(v), line_of(e))]

    def child(self, e, n, path):
        q = self.q
        a, b, v = f'zz{n}', f'yy{n}', q.str(f'v{n}', empty=True)
        inner = el(q, Const(b), [(Const('p'), v)], Const(f'{b} text'), [el(q, Const('empty'))], Const(f'{b} tail'))
        x = el(q, Const(a), [], Const(' \n '), [inner], Const('\n'))
        q.it.list_append(e.attrs['children'], x)
        p = [*path, a, b]
        ln = line_of(inner)
        return [self.err([*p, '@p'], v, ln), self.err(p, Const(f'{b} text'), ln), self.err(p, Const(f'{b} tail'), ln)]


def build(q, kind, config, beside=None):
    """(class, root element, Left). beside: a field that reads a union of models before or after the one examined"""
    L = Left(q)
    Sub = q.s.model('Sub', [Field('x', dict(STR), location='ATTRIBUTE'), Field('y', default(nullable(dict(STR))), location='ELEMENT')])
    s, st = q.s.schema_of(Sub), dict(STR)
    f, attrs, text, kids, rb = dict(location='ELEMENT', path='n'), [], None, [], ''

    def prim(i=0):
        return el(q, Const('n'), [], Const(f'bound{i}'))

    def model(i=0, more=()):
        return el(q, Const('n'), [(Const('x'), q.str(f'x{i}')), *more], None, [el(q, Const('y'), [], Const('bound'))])

    def free(e, bound, path=('n',)):
        kids.append(e) if path == ('n',) else None
        L.free(path, e, bound)

    def free_model(e, path=('n',)):
        free(e, '', path)
        L.free((*path, 'y'), e.attrs['children'].segs[0][1], 't')
    sch, extra, settings, attrs_ = st, [], {}, {}
    if kind == 'text':
        f, text, rb = {}, Const('bound'), 't'
    elif kind == 'attr':
        f, attrs = dict(location='ATTRIBUTE', path='n'), [(Const('n'), q.str('a'))]
    elif kind == 'attrs':
        f, sch, attrs, rb = {}, mapping(), [(Const('p'), q.str('a')), (Const('q'), q.str('b'))], 'a'
    elif kind in ('prim', 'prim_union', 'excluded'):
        sch = st if kind != 'prim_union' else union_of(st, {'type': 'int'})
        free(prim(), 't')
        if kind == 'excluded':
            f['exclude'] = True
    elif kind == 'nil':
        f['nillable'] = True
        free(el(q, Const('n'), [(Const(XSI_NIL), Const('true'))]), '')
    elif kind == 'mapping':
        sch = mapping()
        free(el(q, Const('n'), [(Const('p'), q.str('a'))]), 'a')
    elif kind in ('model', 'union', 'tagged', 'rest'):
        sch = s
        more = []
        if kind == 'union':
            O = q.s.model('O', [Field('z', dict(STR), location='ATTRIBUTE')])
            sch = union_of(s, q.s.schema_of(O))
        elif kind == 'tagged':
            t = lambda v: Field('d', {'type': 'literal', 'expected': [v]}, location='ATTRIBUTE')  # noqa: E731
            A = q.s.model('A', [t('da'), Field('x', dict(STR), location='ATTRIBUTE'), Field('y', dict(STR), location='ELEMENT')])
            B = q.s.model('B', [t('db')])
            sch = {'type': 'tagged-union', 'discriminator': 'd', 'choices': {'db': q.s.schema_of(B), 'da': q.s.schema_of(A)}}
            more = [(Const('d'), Const('da'))]
        free_model(model(more=more))
        if kind == 'rest':
            # the field binds one element only: the others are left over
            e = el(q, Const('n'), [(Const('x'), q.str('second'))])
            kids.append(e)
            L.always = [L.err(['n', '@x'], q.str('second'), line_of(e))]
    elif kind == 'nil_model':
        sch = s
        free(el(q, Const('n'), [(Const(XSI_NIL), Const('true'))]), '')
    elif kind == 'raw':
        sch = raw(q)
        kids.append(el(q, Const('n'), [(Const('p'), q.str('rp'))], Const('raw'), [el(q, Const('r'), [], Const('raw'), tail=Const('rt'))], Const('tail')))
    elif kind in ('list', 'tuple', 'named', 'list_tuple'):
        sch = {'list': lambda: list_of(st), 'tuple': lambda: tuple_of(st, st), 'named': lambda: namedtuple_of(st, st),
               'list_tuple': lambda: list_of(tuple_of(st, st))}[kind]()
        for i in range(2):
            free(prim(i), 't')
    elif kind == 'list_model':
        sch = list_of(s)
        for i in range(2):
            free_model(model(i))
    elif kind == 'list_mapping':
        sch = list_of(mapping())
        for i in range(2):
            free(el(q, Const('n'), [(Const('p'), q.str(f'a{i}'))]), 'a')
    elif kind == 'list_raw':
        sch = list_of(raw(q))
        for i in range(2):
            kids.append(el(q, Const('n'), [(Const('p'), q.str(f'a{i}'))], Const('raw'), [el(q, Const('r'), [], Const('raw'))]))
    elif kind.startswith('wrapped'):
        k = kind.split('_')[1] if '_' in kind else 'prim'
        sch = {'list': lambda: list_of(st), 'model': lambda: s, 'attrs': lambda: mapping()}.get(k, lambda: st)()
        inner = None if k in ('attrs', 'text') else Field('', None, location='ATTRIBUTE' if k == 'attr' else 'ELEMENT', path='n')
        f = dict(location='WRAPPED', path='w1/w2', wrapped=inner)
        w2 = el(q, Const('w2'), [(Const('n'), q.str('a'))] if 'attr' in k else [], Const('bound') if k == 'text' else None)
        w1 = el(q, Const('w1'), children=[w2])
        kids.append(w1)
        items = {'prim': 1, 'list': 2, 'model': 1}.get(k, 0)
        for i in range(items):
            e = model() if k == 'model' else prim(i)
            q.it.list_append(w2.attrs['children'], e)
            free_model(e, ('w1', 'w2', 'n')) if k == 'model' else free(e, 't', ('w1', 'w2', 'n'))
        free(w2, 'a' if k == 'attrs' else 't' if k == 'text' else '', ('w1', 'w2'))
        free(w1, '', ('w1',))
    elif kind == 'computed':
        f['computed'] = True
        e = prim()
        kids.append(e)
        L.always = [L.err(['n'], Const('bound0'), line_of(e))]
    elif kind == 'noxml':
        f['noxml'] = True
        e = model()
        kids.append(e)
        L.always = [L.err(['n', '@x'], q.str('x0'), line_of(e)), L.err(['n', 'y'], Const('bound'), line_of(e.attrs['children'].segs[0][1]))]
    elif kind == 'custom':
        pass
    elif kind == 'root':
        R = q.s.model('R', [Field('root', list_of(st), location='ELEMENT', path='n')], root=True)
        sch, f = q.s.schema_of(R), dict(location='ELEMENT', path='r')
        e = el(q, Const('r'), children=[prim(0), prim(1)])
        kids.append(e)
        for c in e.attrs['children'].segs:
            free(c[1], 't', ('r', 'n'))
        free(e, '', ('r',))
    if 'computed' not in f and 'noxml' not in f:
        sch = default(nullable(sch))
    fields = [Field('fld', sch, **f)]
    if beside:
        U1 = q.s.model('U1', [Field('v', dict(STR), location='ATTRIBUTE'), Field('w', dict(STR), location='ELEMENT')], settings=dict(tag='U1'))
        U2 = q.s.model('U2', [Field('v', default(nullable(dict(STR))), location='ATTRIBUTE'), Field('z', default(nullable(dict(STR))), location='ELEMENT')], settings=dict(tag='U2'))
        u = union_of(q.s.schema_of(U1), q.s.schema_of(U2))
        tag = lambda i: 'U1' if i else 'U2'  # noqa: E731
        ue = [el(q, Const(tag(i)), [(Const('v'), q.str(f'uv{i}'))], None, [el(q, Const('w' if tag(i) == 'U1' else 'z'), [], Const('bound'))])
              for i in range(2 if 'list' in beside else 1)]
        uf = Field('u', default(nullable(list_of(u) if 'list' in beside else u)))
        for e in ue:
            L.free((e.attrs['tag'].v,), e, '')
        after = 'after' in beside
        fields = fields + [uf] if after else [uf] + fields
        kids[len(kids) if after else 0:0] = ue
    cls = q.s.model('M', fields + extra, settings=settings, config=config)
    root = el(q, Const('M'), attrs, text, kids)
    L.free((), root, rb, at_root=True)
    return cls, root, L


def spots_of(q, L):
    """Choice of one place, all of them, or none."""
    names = [f'{i}: {n}' for i, (n, _) in enumerate(L.spots)]
    c = q.it.pick('left over', ['nothing', 'everywhere'] + names)
    out = list(getattr(L, 'always', []))
    for n, (_, fn) in zip(names, L.spots):
        if c in (n, 'everywhere'):
            out += fn()
    return c, out


@scenario(EXTRA, cases=[dict(kind=k) for k in KINDS if k != 'custom'], max_paths=4000, deep='C24 C25')
def leftovers(q, kind):
    """Leftovers at every place around every kind of field."""
    q.s.may_reject = False
    p = q.it.pick
    forbid = p('extra', ['forbid', 'ignore', None])
    hide = p('hide_input', [None, True]) if forbid == 'forbid' else None
    cfg = {} if forbid is None else dict(extra=forbid)
    if hide:
        cfg['hide_input_in_errors'] = True
    cls, root, L = build(q, kind, cfg)
    where, want = spots_of(q, L)
    since = q.mark()
    out = parse(q, cls, root)
    judge(q, cls, out, want if forbid == 'forbid' else [], kind, f'left over: {where}, extra={forbid}', since, bool(hide))


@scenario('C08 C09 C11', cases=[dict(kind=k, beside=b) for k in ('prim', 'mapping', 'model', 'nil', 'tuple', 'wrapped', 'wrapped_attr', 'rest')
                                for b in ('before', 'after', 'list before', 'list after')
                                if k != 'rest' or 'before' in b])
def beside_unions(q, kind, beside):
    """Leftovers around fields before and behind a union of models: no alternative tried takes or forgets any."""
    q.s.may_reject = False
    cls, root, L = build(q, kind, dict(extra='forbid'), beside)
    where, want = spots_of(q, L)
    since = q.mark()
    out = parse(q, cls, root)
    judge(q, cls, out, want, f'{kind}, union {beside}', f'left over: {where}', since, None, 'C08 C09')


def judge(q, cls, out, want, kind, what, since, hide, pids='C08'):
    if not want:
        q.no_raise(pids, out, f'{kind}: nothing left over is not an error', what)
        return
    q.check(pids, out[0] == 'raise', f'{kind}: leftovers are refused', f'{what}: no error is raised')
    q.check('C08 C11', not validated(q, cls, since), f'{kind}: no model is built from a document with leftovers', what)
    if out[0] == 'raise':
        check_errors(q, 'C08 C11 C12 C13', out, want, f'{kind}: leftovers', what, hide=hide)
        from .errors import error_list
        got = error_list(q, out[1])
        if got is not None:
            show = lambda ls: sorted(map(str, ls))  # noqa: E731
            q.check(pids, show(x[0] for x in got) == show(x[0] for x in want), f'{kind}: every leftover is reported with its path',
                    f'{what}: {show(x[0] for x in got)} instead of {show(x[0] for x in want)}')


@scenario(EXTRA, cases=[dict(place=pl) for pl in ('direct', 'list', 'tuple', 'wrapped', 'nullable', 'root', 'root_self')])
def nested_forbid(q, place):
    """The setting of each model counts for its own element."""
    q.s.may_reject = False
    p = q.it.pick
    outer = p('extra of the outer model', ['forbid', None])
    inner = p('extra of the inner model', ['forbid', None, 'ignore', 'allow'])
    cfg = lambda x: {} if x is None else dict(extra=x)  # noqa: E731
    L = Left(q)
    n = 2 if place in ('list', 'tuple') else 1
    if place.startswith('root'):
        Sub = q.s.model('Sub', [Field('root', default(nullable(dict(STR))), location='ELEMENT', path='y')], root=True, config=cfg(inner))
    else:
        Sub = q.s.model('Sub', [Field('x', dict(STR), location='ATTRIBUTE'), Field('y', default(nullable(dict(STR))), location='ELEMENT')], config=cfg(inner))
    subs = [el(q, Const('n'), [] if place.startswith('root') else [(Const('x'), q.str(f'x{i}'))], None, [el(q, Const('y'), [], Const('bound'))]) for i in range(n)]
    s = q.s.schema_of(Sub)
    sch = {'list': lambda: list_of(s), 'tuple': lambda: tuple_of(s, s)}.get(place, lambda: s)()
    f = dict(location='ELEMENT', path='n')
    kids = subs
    pre = ('n',)
    if place == 'wrapped':
        f = dict(location='WRAPPED', path='w1/w2', wrapped=Field('', None, **f))
        kids = [el(q, Const('w1'), children=[el(q, Const('w2'), children=subs)])]
        pre = ('w1', 'w2', 'n')
    if place == 'nullable':
        sch = nullable(sch)
    cls = q.s.model('M', [Field('fld', sch, **f)], config=cfg(outer))
    root = el(q, Const('M'), children=kids)
    where = p('left over', ['nothing', 'inside', 'outside', 'inside and outside', 'deep inside'])
    ins = []
    if 'inside' in where:
        for i, e in enumerate(subs):
            t = e if where != 'deep inside' else e.attrs['children'].segs[0][1]
            loc = () if where != 'deep inside' else ('y',)
            ins.append((i, L.attr(t, f'xa{i}', loc)))
            if where == 'inside':
                ins.append((i, L.child(t, i, loc)))
    out_ = L.attr(root, 'xo', ()) if 'outside' in where else []
    at = lambda i: ('fld',) if n == 1 else ('fld', i)  # noqa: E731
    if inner == 'forbid' and ins:
        want = [(at(i) + lo, e, ln) for i, es in ins for lo, e, ln in es]
    elif outer == 'forbid':
        want = [(pre + lo, e, ln) for i, es in ins for lo, e, ln in es] + out_
    else:
        want = []
    since = q.mark()
    out = parse(q, cls, root)
    judge(q, cls, out, want, f'nested {place}', f'{where}, outer {outer}, inner {inner}', since, None)
