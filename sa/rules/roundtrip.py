"""C01: what is written is read back by the same model, for every kind of field, place and namespace declaration."""
from ..domain import Const, Inst
from ..engine import scenario
from ..externals import mk_str
from ..harness import Field
from .common import *  # noqa: F401,F403
from .common import STR, default, list_of, mapping, namedtuple_of, nsmap_value, nullable, raw, tuple_of, union_of, write
from .reading import outcome
from .shapes import el, parse

KINDS = ('text', 'attr', 'attrs', 'prim', 'mapping', 'model', 'raw')
PLACES = ('direct', 'list', 'tuple', 'named', 'list_tuple', 'wrapped', 'wrapped_list', 'union', 'tagged', 'root', 'root_list', 'sub')
SPACES = ('none', 'default', 'model', 'field', 'wrapper', 'sub')


class Trip:
    def __init__(self, q, kind, ns, ns_attrs):
        self.q, self.kind, self.ns, self.ns_attrs = q, kind, ns, ns_attrs
        self.nsmap = {a: q.str('uri_' + (a or 'default')) for a in ('a', 'b')}
        if ns == 'default':
            self.nsmap[''] = q.str('uri_default')

    def settings(self, level):
        q = self.q
        st = dict(ns_attrs=True) if self.ns_attrs else {}
        if self.ns != 'none' and level == 'model':
            st['nsmap'] = nsmap_value(q, self.nsmap)
            st['ns'] = 'a' if self.ns in ('model', 'wrapper') else None
        if self.ns == 'sub' and level == 'sub':
            st.update(ns='b', nsmap=nsmap_value(q, dict(b=q.str('uri_sub_b'))))
        st['search_mode'] = q.it.enum_member(q.s.SM, self.mode)
        return {k: v for k, v in st.items() if v is not None}

    def at(self):
        loc = dict(attr='ATTRIBUTE', text=None, attrs=None).get(self.kind, 'ELEMENT')
        kw = dict(location=loc)
        if self.ns == 'field' and loc is not None:
            kw.update(ns='b', nsmap=nsmap_value(self.q, dict(b=self.q.str('uri_field_b'))) if self.kind != 'attr' else None)
        return kw

    def schema(self, tagged=False):
        q = self.q
        if self.kind in ('mapping', 'attrs'):
            return mapping()
        if self.kind == 'raw':
            return raw(q)
        if self.kind == 'model':
            fs = [Field('x', dict(STR), location='ATTRIBUTE'), Field('t', dict(STR)), Field('y', default(nullable(dict(STR))), location='ELEMENT'),
                  Field('l', list_of(dict(STR)), location='ELEMENT', path='item')]
            if tagged:
                fs.insert(0, Field('d', {'type': 'literal', 'expected': ['sub']}, location='ATTRIBUTE', path='kind'))
            self.Sub = q.s.model('Sub', fs, settings=self.settings('sub'))
            return q.s.schema_of(self.Sub)
        return dict(STR)

    def make(self, n, tagged=False):
        """(value, encoded, what is read back)"""
        q, it, k = self.q, self.q.it, self.kind
        if k in ('mapping', 'attrs'):
            keys = [Const(f'k{n}'), Const('a-b.c\u00e9_9')]
            if not self.ns_attrs:
                keys.append(mk_str([Const('{'), q.str('foreign'), Const('}'), Const('other')]))
            return (it.new_dict([('kv', x, q.value(f'v{n}')) for x in keys]), it.new_dict([('kv', x, q.str(f'e{n}')) for x in keys]),
                    ('items', {x.key: q.str(f'e{n}') for x in keys}))
        if k == 'model':
            d = {'d': Const('sub')} if tagged else {}
            d.update(x=q.str(f'x{n}'), t=q.str(f't{n}'))
            vs = dict(d, y=q.str(f'y{n}'), l=it.list_of([q.str(f'l{n}'), q.str(f'm{n}')]))
            return (q.s.instance(self.Sub, vs, vs, fields_set=it.new_set([Const(x) for x in vs])),
                    it.new_dict([('kv', Const(a), b) for a, b in vs.items()]),
                    ('model', dict(d, y=q.str(f'y{n}'), l=[q.str(f'l{n}'), q.str(f'm{n}')]), self.Sub))
        if k == 'raw':
            e = el(q, self.name(), [(q.str('ra'), q.str('rv'))], q.str(f'rt{n}'), [el(q, q.str('rs'), [], q.str('rst'), tail=q.str('rtail'))])
            return e, Const(None), ('copy', e)
        return q.value(f'val{n}'), q.str(f'enc{n}'), q.str(f'enc{n}')

    def name(self):
        q = self.q
        # an element kept as it is has to bear the name of the field
        uri = {'none': None, 'default': self.nsmap.get(''), 'model': self.nsmap['a'], 'field': q.str('uri_field_b'), 'wrapper': self.w_uri(),
               'sub': None}[self.ns]
        return q.qname(Const(self.fname), uri)

    def w_uri(self):
        return self.q.str('uri_wrapper_b') if self.place.startswith('wrapped') else self.nsmap['a']


TRIP = 'C01 C02 C03 C30 C34 C24 C25'


@scenario(TRIP, cases=[dict(kind=k, place=pl) for k in KINDS for pl in PLACES
                       if not (k in ('text', 'attr', 'attrs') and pl not in ('direct', 'wrapped', 'root', 'sub', 'union'))
                       and not (pl == 'tagged' and k != 'model') and not (pl == 'union' and k not in ('model', 'prim', 'text', 'attr'))], max_paths=4000)
def trip(q, kind, place):
    """Write a value, parse what was written."""
    q.s.may_reject = False
    p, it = q.it.pick, q.it
    ns = p('namespaces', [x for x in SPACES if not (x == 'wrapper' and not place.startswith('wrapped')) and not (x == 'sub' and kind != 'model')])
    t = Trip(q, kind, ns, p('namespaced attributes', [False, True]) if kind in ('attr', 'attrs', 'mapping', 'model') and ns not in ('default',) else False)
    t.place, t.mode = place, p('search mode', ['STRICT', 'ORDERED', 'UNORDERED'])
    root = place.startswith('root')
    t.fname = 'fld'
    s = t.schema(place == 'tagged')
    many = 2 if place in ('list', 'tuple', 'named', 'wrapped_list', 'root_list', 'list_tuple') else 1
    made = [t.make(i, place == 'tagged') for i in range(many)]

    def other(tagged=False):
        fs = [Field('zz', dict(STR), location='ATTRIBUTE')]
        if tagged:
            fs.append(Field('d', {'type': 'literal', 'expected': ['other']}, location='ATTRIBUTE', path='kind'))
        return q.s.schema_of(q.s.model('Other', fs, settings=dict(t.settings('sub'), tag='other')))
    sch = {'direct': lambda: s, 'list': lambda: list_of(s), 'tuple': lambda: tuple_of(s, s), 'named': lambda: namedtuple_of(s, s),
           'list_tuple': lambda: list_of(tuple_of(s, s)), 'wrapped': lambda: s, 'wrapped_list': lambda: list_of(s), 'root': lambda: s,
           'root_list': lambda: list_of(s), 'sub': lambda: s, 'union': lambda: union_of(s, other() if kind == 'model' else {'type': 'int'}),
           'tagged': lambda: {'type': 'tagged-union', 'discriminator': 'd', 'choices': {'other': other(True), 'sub': s}}}[place]()
    at = t.at()
    if at['location'] is not None and (root or place in ('union', 'tagged')):
        at['path'] = 'fld'
    if place.startswith('wrapped'):
        w = dict(ns='b', nsmap=nsmap_value(q, dict(b=q.str('uri_wrapper_b')))) if ns == 'wrapper' else {}
        at = dict(location='WRAPPED', path='w1/w2', **w, wrapped=Field('', None, **at) if at['location'] is not None else None)
    f = Field('root' if root else 'fld', sch if root else default(nullable(sch)), **at)
    values, encs, wants = zip(*made)
    v, e, want = values[0], encs[0], wants[0]
    if many == 2:
        v = it.lift(tuple(values)) if place in ('tuple', 'named') else it.list_of([it.lift(tuple(values))]) if place == 'list_tuple' \
            else it.list_of(list(values))
        e = it.list_of(list(encs))
        want = list(wants)
        if place == 'list_tuple':
            e, want = it.list_of([e]), [want]
    one = lambda vs: it.new_set([Const(x) for x in vs])  # noqa: E731
    if root:
        M = q.s.model('R', [f], root=True, settings=t.settings('model'))
        m = q.s.instance(M, {'root': v}, e, fields_set=one(['root']))
    else:
        around = [Field('last', dict(STR), location='ELEMENT')]
        if kind != 'attrs' or place == 'wrapped':
            around.append(Field('pre', dict(STR), location='ATTRIBUTE'))
        M = q.s.model('M', [f, *around], settings=t.settings('model'))
        vs, es = {'fld': v, 'last': q.value('last'), 'pre': q.value('pre')}, {'fld': e, 'last': q.str('last'), 'pre': q.str('pre')}
        m = q.s.instance(M, vs, es, fields_set=one(vs))
    top, inst = M, m
    if place == 'sub':
        top = q.s.model('Top', [Field('m', q.s.schema_of(M), location='ELEMENT', path='M'), Field('end', dict(STR), location='ELEMENT')],
                        settings=t.settings('top'))
        inst = q.s.instance(top, {'m': m, 'end': q.value('end')},
                            {'m': it.new_dict([('kv', Const(k), x) for k, x in es.items()]), 'end': q.str('end')}, fields_set=one(['m', 'end']))
    rule = f'{kind}, {place}: what was written is read back'
    out = write(q, inst)
    if not q.no_raise('C01', out, f'{rule}: serialization', ''):
        return
    if not isinstance(out[1], Inst):
        q.check('C01', None, rule, 'written tree')
        return
    since = q.mark()
    r = parse(q, top, out[1])
    pids = 'C01 C02 C03' + (' C30' if many == 2 else '') + (' C34' if place.startswith('wrapped') else '')
    if root:
        if q.no_raise(pids, r, f'{rule}: parsing', ''):
            from .reading import value_differs
            ev = [x for x in q.events(since, 'model_validate') if x.recv is not None and x.recv.key == M.key]
            if len(ev) != 1:
                q.check(pids, None if ev else False, rule, f'{len(ev)} validations')
                return
            d = value_differs(q, ev[0].args[0], want, since)
            q.check(pids, None if d and d[0] == '?' else not d, rule, d or '')
        return
    data = {'fld': want, 'last': q.str('last')}
    if kind != 'attrs' or place == 'wrapped':
        data['pre'] = q.str('pre')
    if place == 'sub':
        data = {'m': ('model', data, M), 'end': q.str('end')}
    outcome(q, pids, top, r, data, rule, since, f'namespaces: {ns}, {t.mode}')
