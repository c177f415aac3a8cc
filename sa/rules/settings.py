"""C22 (and C04, C15, C24): settings of models along class hierarchies, observed in what the models read and write."""
from ..domain import ClassV, Const
from ..engine import scenario
from ..harness import Field
from .common import *  # noqa: F401,F403
from .common import (FIELD_ERROR, MODEL_ERROR, Refused, STR, attribute_uri, default, element_uri, nullable, nsmap_of, nsmap_value, write)
from .reading import outcome
from .shapes import E, el, parse, same_tree

LEVELS = ('Base', 'Mid', 'Derived')
DEFAULTS = dict(tag=None, ns=None, ns_attrs=False, skip_empty=None, search_mode='STRICT')


def nearest(given, key):
    """given: settings of the levels, the derived class first."""
    return next((g[key] for g in given if g.get(key) is not None), DEFAULTS[key])


class Chain:
    def __init__(self, q, given, maps):
        """given: [settings per level, base first]; maps: [aliases of the namespace map per level]"""
        self.q, self.given, self.aliases = q, given, maps
        self.maps = [nsmap_of(q, LEVELS[i], m) for i, m in enumerate(maps)]
        self.classes = []

    def fields(self):
        f = lambda n, loc: Field(n, default(nullable(dict(STR))), location=loc)  # noqa: E731
        return [f('at', 'ATTRIBUTE'), f('y', 'ELEMENT'), f('z', 'ELEMENT')]

    def kw(self, i):
        q = self.q
        d = {k: v for k, v in self.given[i].items() if v is not None}
        if 'search_mode' in d:
            d['search_mode'] = q.it.enum_member(q.s.SM, d['search_mode'])
        if self.maps[i] is not None:
            d['nsmap'] = nsmap_value(q, self.maps[i])
        return d

    def define(self):
        for i in range(len(self.given)):
            self.classes.append(self.q.s.model(LEVELS[i], self.fields(), bases=[self.classes[-1]] if i else None, settings=self.kw(i)))

    def effective(self, i):
        """Settings in effect for the class of level i."""
        own = list(reversed(self.given[:i + 1]))
        d = {k: nearest(own, k) for k in DEFAULTS}
        d['maps'] = [m for m in reversed(self.maps[:i + 1]) if m is not None]
        return d

    def names(self, i, root=True):
        """(element name, attribute name, sub-element namespace); raises Refused"""
        q, d = self.q, self.effective(i)
        uri = element_uri([d['ns']], d['maps'])
        at = attribute_uri(None, [d['ns']], d['maps'], d['ns_attrs'])
        tag = d['tag'] or (LEVELS[i] if root else 'sub')
        return q.qname(Const(tag), uri), q.qname(Const('at'), at), uri


def observe(q, pids, ch, i, place, what, flag):
    """What the class of level i writes and reads shows which settings it has."""
    name, at, uri = ch.names(i, place == 'root')
    d = ch.effective(i)
    cls = ch.classes[i]
    top = cls
    if place == 'sub':
        top = q.s.model('Outer', [Field('sub', q.s.schema_of(cls), location='ELEMENT')], settings=dict(
            search_mode=q.it.enum_member(q.s.SM, 'UNORDERED' if d['search_mode'] != 'UNORDERED' else 'STRICT'), tag='outer'))
    t = lambda n: q.qname(Const(n), uri)  # noqa: E731
    if q.it.pick('direction', ['write', 'read']) == 'write':
        se = q.it.pick('skip_empty', [False, True] if flag else [False])
        eff = se if d['skip_empty'] is None else d['skip_empty']
        names = ('at', 'y', 'z')
        v = q.s.instance(cls, {'at': q.value('at'), 'y': q.value('y'), 'z': Const(None)},
                         {'at': q.str('at_enc'), 'y': q.str('y_enc'), 'z': Const(None)}, fields_set=q.it.new_set([Const(n) for n in names]))
        exp = E(name, [(at, q.str('at_enc'))], None, [E(t('y'), [], q.str('y_enc'))] + ([] if eff else [E(t('z'))]))
        if place == 'sub':
            enc = q.s.encoded[v.key]
            v = q.s.instance(top, {'sub': v}, {'sub': enc}, fields_set=q.it.new_set([Const('sub')]))
            exp = E(Const('outer'), children=[exp])
        out = write(q, v, skip_empty=se)
        if q.no_raise(pids, out, f'{what}: serialization', ''):
            same_tree(q, pids, out[1], exp, f'{what}: what is written')
        return
    q.s.may_reject = False
    body = el(q, name, [(at, q.str('at'))], None, [el(q, Const('other')), el(q, t('z'), [], q.str('z')), el(q, t('y'), [], q.str('y'))])
    root = body if place == 'root' else el(q, Const('outer'), children=[body])
    since = q.mark()
    out = parse(q, top, root)
    want = {'at': q.str('at')}
    want.update({'STRICT': {}, 'ORDERED': {'y': q.str('y')}, 'UNORDERED': {'y': q.str('y'), 'z': q.str('z')}}[d['search_mode']])
    if place == 'sub':
        outcome(q, pids, top, out, {'sub': ('model', want, cls)}, f'{what}: parsing', since)
    else:
        outcome(q, pids, cls, out, want, f'{what}: parsing', since)


VALUES = dict(tag=[None, '', 't'], ns=[None, '', 'a', 'b'], ns_attrs=[None, False, True], skip_empty=[None, False, True],
              search_mode=[None, 'STRICT', 'ORDERED', 'UNORDERED'])


def run(q, ch, what, pids='C22', flag=False, at=(2, 0, 1)):
    refused = None
    for i in range(len(ch.given)):
        try:
            ch.names(i)
        except Refused as e:
            refused = e
            break
    out = q.attempt(ch.define)
    if refused:
        q.raises('C22 C05', out, refused.kinds, f'{what}: a definition with an undeclared namespace is refused', '')
        return
    if q.no_raise('C22', out, f'{what}: the classes are defined', ''):
        at = q.it.pick('class', list(at))
        observe(q, pids, ch, at, q.it.pick('place', ['root', 'sub'] if at == 2 else ['root']), what, flag)


@scenario('C22', cases=[dict(setting=s, base=repr(b)) for s in VALUES for b in VALUES[s]], max_paths=8000, deep='C24 C25')
def one(q, setting, base):
    """One setting, given or not at each of three levels; every class afterwards has its own value."""
    p = q.it.pick
    vals = [next(v for v in VALUES[setting] if repr(v) == base)] + [p(f'{setting} of {lv}', VALUES[setting]) for lv in LEVELS[1:]]
    other = dict(ns='a') if setting == 'ns_attrs' else {}
    given = [{**(other if i == 0 else {}), setting: v} for i, v in enumerate(vals)]
    ch = Chain(q, given, [('', 'a', 'b')] + [None] * 2)
    run(q, ch, setting, flag=setting == 'skip_empty')


@scenario('C22', cases=[dict(base=b) for b in ('all', 'nothing')], max_paths=8000, deep='C24 C25')
def subsets(q, base):
    """Every subset of the settings given by the derived class; the others are inherited from two classes up."""
    p = q.it.pick
    given = dict(tag='t', ns='a', ns_attrs=True, skip_empty=True, search_mode='UNORDERED')
    new = dict(tag='', ns='b', ns_attrs=False, skip_empty=False, search_mode='ORDERED')
    if base == 'nothing':
        given = {}
    derived = {k: v for k, v in new.items() if p(f'derived gives {k}', [True, False])}
    ch = Chain(q, [given, {}, derived], [('', 'a', 'b'), None, None])
    run(q, ch, 'subset of settings', at=(2, 0))


@scenario('C22 C04', cases=[dict(at=a) for a in (2, 0, 1)], max_paths=8000, deep='C24 C25')
def nsmaps(q, at):
    """Namespace maps: extended along the hierarchy, the nearer declaration of a prefix wins, base maps stay as they are."""
    p = q.it.pick
    maps = [p('map of Base', [('a',), ('', 'a'), None]), p('map of Mid', [None, (), ('a',), ('', 'b')]),
            p('map of Derived', [None, (), ('', 'a'), ('b', 'a'), ('b',)])]
    ns = p('ns', [None, '', 'a', 'b'])
    if ns == '' or ns == 'b':
        if not any(m and ns in m for m in maps):
            return
    given = [{}, {}, {}]
    given[at] = dict(ns=ns)
    ch = Chain(q, given, maps)
    run(q, ch, 'namespace map', 'C22 C04', at=(at,))


@scenario('C22', max_paths=4000, deep='C24 C25')
def roots(q):
    """The same for root models."""
    p = q.it.pick
    tags = [p('tag of Base', [None, 't']), p('tag of Derived', [None, '', 'u'])]
    nss = [p('ns of Base', [None, 'a']), p('ns of Derived', [None, '', 'b'])]
    ses = [p('skip_empty of Base', [None, False, True]), p('skip_empty of Derived', [None, False, True])]
    m = nsmap_of(q, 'Base', ('', 'a', 'b'))
    F = lambda: [Field('root', default(nullable(dict(STR))), location='ELEMENT', path='x')]  # noqa: E731
    kw = lambda i: {k: v for k, v in dict(tag=tags[i], ns=nss[i], skip_empty=ses[i]).items() if v is not None}  # noqa: E731
    B = q.s.model('Base', F(), root=True, settings={**kw(0), 'nsmap': nsmap_value(q, m)})
    D = q.s.model('Derived', F(), root=True, bases=[B], settings=kw(1))
    for cls, i in ((D, 1), (B, 0)):
        given = [dict(tag=tags[j], ns=nss[j], skip_empty=ses[j]) for j in range(i, -1, -1)]
        tag, ns, own = (nearest(given, k) for k in ('tag', 'ns', 'skip_empty'))
        uri = element_uri([ns], [m])
        v = q.s.instance(cls, {'root': Const(None)}, Const(None), fields_set=q.it.new_set([Const('root')]))
        out = write(q, v, skip_empty=False)
        name = Const(tag or ('Derived' if i else 'Base'))
        if q.no_raise('C22', out, 'root model: serialization', ''):
            same_tree(q, 'C22', out[1], E(q.qname(name, uri), children=[] if own else [E(q.qname(Const('x'), uri))]), 'root model: what is written')
