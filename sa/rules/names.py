"""C01-C06: names, namespaces and places of every kind of field, over all combinations of declarations at every level."""
from ..domain import Const, DictObj, Inst, ListObj, TupleV, lin_comb
from ..engine import scenario
from .common import *  # noqa: F401,F403
from .common import (Refused, STR, XSI_NIL, attribute_uri, default, element_uri, list_of, lookups, mapping, mapping_uri, namedtuple_of,
                     native_root, nsmap_of, nsmap_value, nullable, raw, read, tuple_of, union_of, validated, write)
from ..harness import Field

PIDS = 'C01 C02 C03 C04 C05'
ELEMENT_KINDS = ('prim', 'mapping', 'model', 'raw')
CONTAINERS = ('direct', 'list', 'tuple', 'named', 'union', 'nullable')


class Conf:
    """One configuration: what is declared at which level."""

    def __init__(self, q, kind, container='direct', wrapped=False, names=False, spaces=False, computed=False, fixed=None):
        self.q, self.kind, self.container, self.wrapped, self.computed = q, kind, container, wrapped, computed
        fixed = fixed or {}

        def p(text, options):
            return fixed[text] if text in fixed else q.it.pick(text, options)
        self.path = q.str('path') if (p('explicit name', [True, False]) if names else True) and kind not in ('text', 'attrs') else None
        self.alias = q.str('alias') if names and p('alias', [False, True]) else None
        self.sub_tag = q.str('sub_tag') if kind == 'model' and (names and p('sub-model tag', [False, True])) else None
        self.tag = q.str('tag') if not names or p('model tag', [True, False]) else None
        wide = spaces == 'all'

        def level(name, has_ns=True, has_map=True):
            nss, maps = [None, '', 'a', 'b'], [None, ('a',), ('', 'b')]
            if not wide and name in ('field', 'wrapper') and wrapped:
                nss, maps = [None, '', 'a'], [None, ('', 'a') if name == 'wrapper' else ('a',)]
            if not wide and kind == 'model':
                nss, maps = ([None, '', 'a'], [None, ('', 'a')]) if name != 'model' else ([None, 'a', 'b'], maps)
            if not wide and kind == 'mapping' and wrapped:
                nss, maps = ([None, 'a'] if name == 'field' else [None, '', 'a']), [None, ('', 'a')]
            ns = p(f'{name} ns', nss) if has_ns and spaces else None
            mp = p(f'{name} nsmap', maps) if spaces and has_map else None
            return ns, nsmap_of(q, name, mp)
        placed = kind not in ('text', 'attrs')
        self.ns, self.nsmap = level('field', placed, placed and kind != 'attr')
        self.sub_ns, self.sub_nsmap = level('sub', kind == 'model', kind == 'model')
        self.w_ns, self.w_nsmap = level('wrapper', wrapped, wrapped)
        self.m_ns, self.m_nsmap = level('model')
        self.ns_attrs = p('ns_attrs', [False, True]) if spaces and kind in ('attr', 'attrs', 'mapping') else False
        self.w_parts = ['w1', 'w2'] if wrapped else []
        self.mode = p('search mode', ['STRICT', 'ORDERED', 'UNORDERED']) if names else 'STRICT'

    def item_schema(self):
        q = self.q
        if self.kind in ('mapping', 'attrs'):
            return mapping()
        if self.kind == 'raw':
            return raw(q)
        if self.kind == 'model':
            self.Sub = q.s.opaque_model('Sub', settings={k: v for k, v in dict(
                tag=self.sub_tag, ns=self.sub_ns, nsmap=nsmap_value(q, self.sub_nsmap)).items() if v is not None})
            return q.s.schema_of(self.Sub)
        return dict(STR)

    def schema(self):
        s = self.item_schema()
        c = self.container
        if c == 'list':
            return list_of(s)
        if c == 'tuple':
            return tuple_of(s)
        if c == 'named':
            return namedtuple_of(s)
        if c == 'union':
            return union_of(s)
        if c == 'nullable':
            return default(nullable(s))
        return s

    def define(self):
        """Runs the class statement."""
        q = self.q
        loc = dict(attr='ATTRIBUTE', text=None, attrs=None).get(self.kind, 'ELEMENT')
        kw = dict(location=loc, path=self.path, ns=self.ns, nsmap=nsmap_value(q, self.nsmap))
        if self.wrapped:
            kw = dict(location='WRAPPED', path='/'.join(self.w_parts), ns=self.w_ns, nsmap=nsmap_value(q, self.w_nsmap),
                      wrapped=Field('', None, **kw) if loc is not None else None)
        f = Field('fld', self.schema(), ser_alias=self.alias, computed=self.computed, **kw)
        settings = {k: v for k, v in dict(tag=self.tag, ns=self.m_ns, nsmap=nsmap_value(q, self.m_nsmap),
                                          ns_attrs=self.ns_attrs or None).items() if v is not None}
        settings['search_mode'] = q.it.enum_member(q.s.SM, self.mode)
        return q.s.model('M', [f], settings=settings)

    # ---- what the documentation says
    def name(self):
        if self.path is not None:
            return self.path
        if self.kind == 'model' and self.sub_tag is not None:
            return self.sub_tag
        if self.alias is not None:
            return self.alias
        return Const('fld')

    def expected(self):
        """dict(root=, path=[...], name=, map_uri=) or Refused"""
        q = self.q
        refused = []
        out = {}

        def part(key, fn):
            try:
                out[key] = fn()
            except Refused as r:
                refused.extend(r.kinds)
        part('root', lambda: q.qname(self.tag if self.tag is not None else Const('M'),
                                     element_uri([self.m_ns], [self.m_nsmap])))
        outer_ns, outer_maps = [self.m_ns], [self.m_nsmap]
        if self.wrapped:
            outer_ns, outer_maps = [self.w_ns] + outer_ns, [self.w_nsmap] + outer_maps
            part('path', lambda: [q.qname(Const(x), element_uri(outer_ns, outer_maps)) for x in self.w_parts])
        else:
            out['path'] = []
        if self.kind == 'attr':
            part('name', lambda: q.qname(self.name(), attribute_uri(self.ns, outer_ns, [self.nsmap] + outer_maps, self.ns_attrs)))
        elif self.kind in ('text', 'attrs'):
            out['name'] = None
            out['map_uri'] = mapping_uri([self.ns] + outer_ns, [self.nsmap] + outer_maps, self.ns_attrs)
        elif self.kind == 'model':
            part('name', lambda: q.qname(self.name(), element_uri([self.ns, self.sub_ns] + outer_ns,
                                                                  [self.nsmap, self.sub_nsmap] + outer_maps)))
        else:
            part('name', lambda: q.qname(self.name(), element_uri([self.ns] + outer_ns, [self.nsmap] + outer_maps)))
            out['map_uri'] = mapping_uri([self.ns] + outer_ns, [self.nsmap] + outer_maps, self.ns_attrs)
        if refused:
            raise Refused(refused)
        return out


def values_for(q, conf):
    """(value, encoded value) of a present field"""
    it = q.it
    k = conf.kind
    if k in ('mapping', 'attrs'):
        v = it.new_dict([('kv', q.str('key'), q.value('val'))])
        e = it.new_dict([('kv', q.str('key'), q.value('enc_val'))])
    elif k == 'model':
        v, e = q.s.instance(conf.Sub, {}, Const(0)), q.value('enc')
    elif k == 'raw':
        v, e = q.s.native(q.str('raw_tag')), Const(None)
    else:
        v, e = q.value('val'), q.value('enc', 'str')
    c = conf.container
    if c in ('list',):
        return it.list_of([v]), it.list_of([e])
    if c in ('tuple', 'named'):
        return it.lift((v,)), it.list_of([e])
    return v, e


def check_define(q, conf, pids):
    """(class, expectation) or None"""
    try:
        exp = conf.expected()
    except Refused as r:
        exp = r
    out = q.attempt(conf.define)
    if isinstance(exp, Refused):
        q.raises('C05', out, exp.kinds, f'{conf.kind}: an undeclared prefix or default-namespaced attribute is refused',
                 'the definition must be refused')
        return None
    if not q.no_raise(pids, out, f'{conf.kind}: a supported definition is accepted', 'class definition'):
        return None
    return out[1], exp


def check_written(q, conf, cls, exp, pids):
    v, e = values_for(q, conf)
    m = q.s.instance(cls, {'fld': v}, {'fld': e})
    out = write(q, m)
    if not q.no_raise('C01', out, f'{conf.kind}: serialization', 'serialization of a present field'):
        return
    node = out[1]
    if not isinstance(node, Inst):
        q.check(pids, None, 'written tree', 'tree not followed')
        return
    q.same(pids, node.attrs['tag'], exp['root'], 'root element name', 'name of the root element')
    for i, part in enumerate(exp['path']):
        ch = q.children(node)
        if ch is None or len(ch) != 1:
            q.check('C01 C34', None if ch is None else False, 'wrapper elements', f'wrapper element not created: {q.tree(node)}')
            return
        node = ch[0]
        q.same(pids + ' C34', node.attrs['tag'], part, f'{conf.kind}: wrapper element name', f'name of wrapper {i}')
    ch, at = q.children(node), q.attrs_of(node)
    if ch is None:
        q.check(pids, None, 'written tree', 'children not followed')
        return
    k = conf.kind
    if k == 'attr':
        if at is None:
            q.check(pids, None, 'written attributes', 'not enumerable')
            return
        q.check(pids, list(at) == [exp['name'].key], f'{k}: written name',
                f'expected one attribute {exp["name"]!r}, found {q.tree(node)}')
        q.check('C01', not ch and q.it.isnone(node.attrs['text']), f'{k}: only the attribute is written', q.tree(node))
        return
    if k == 'text':
        q.check('C01', not ch and not at and q.equal(node.attrs['text'], e), f'{k}: text is written as text', q.tree(node))
        return
    if k == 'attrs':
        check_mapping(q, node, exp, pids)
        return
    if len(ch) != 1:
        q.check(pids, False, f'{k}: one element is written', q.tree(node))
        return
    q.check('C01', not at and q.it.isnone(node.attrs['text']), f'{k}: only the element is written', q.tree(node))
    if k == 'raw':
        return
    q.same(pids, ch[0].attrs['tag'], exp['name'], f'{k}: written name', 'name of the written element')
    if k == 'mapping':
        check_mapping(q, ch[0], exp, pids)


def check_mapping(q, node, exp, pids):
    at = q.attrs_of(node)
    want = q.qname(q.str('key'), exp['map_uri'])
    if at is None:
        q.check(pids, None, 'mapping attributes', 'not enumerable')
    else:
        q.check(pids, list(at) == [want.key], 'mapping: written attribute name', f'expected {want!r}, found {q.tree(node)}')


def check_read(q, conf, cls, exp, pids):
    since = q.mark()
    out = read(q, cls, exp['root'])
    if out[0] == 'raise':
        if not q.exc_is(out[1], VE):
            q.no_raise(pids, out, f'{conf.kind}: parsing', 'parsing a document with the expected root element')
        return
    look = [x for x in lookups(q, since) if not (x[1] == 'attribute' and isinstance(x[2], Const) and x[2].v == XSI_NIL)]
    mode = q.it.enum_member(q.s.SM, conf.mode)
    for e, kind, v in look:
        if 'search_mode' in e.kwargs:
            q.same('C06 C07', e.kwargs['search_mode'], mode, f'{conf.kind}: search mode of the containing model', 'search mode')
    if conf.computed:
        q.check('C19', not [x for x in look if x[1] != 'path'], f'{conf.kind}: nothing is read for a computed entity',
                f'{look!r}')
        for e, d in validated(q, cls, since):
            q.check('C19', None if d is None else not d, f'{conf.kind}: no value is passed for a computed entity', repr(e.args))
        return
    inner = look
    root = q.events(since, 'from_native')
    k = conf.kind
    if conf.wrapped:
        paths = [x for x in look if x[1] == 'path']
        if len(paths) != 1 or not isinstance(paths[0][2], (TupleV, ListObj)) or not paths[0][2].concrete:
            q.check(pids, None, 'wrapper path', f'{look!r}')
            return
        got = [x.key for x in paths[0][2].items]
        q.check(pids + ' C34', got == [x.key for x in exp['path']], f'{k}: path looked for',
                f'expected {exp["path"]!r}, found {paths[0][2]!r}')
        inner = [x for x in look if x[1] != 'path']
        found = paths[0][0].result
        if not isinstance(found, TupleV):
            q.check('C34', None, 'elements on the path', f'{found!r}')
            return
        whole = len(found.items) == len(exp['path'])
        last = found.items[-1] if found.items else None
        taken = [e for e in q.events(since) if e.kind == 'call' and any(e.recv is not None and e.recv.key == x.key for x in found.items)
                 and e.name not in ('get_sourceline', 'get_unbound')]
        q.check('C01 C34', bool(taken) == whole, f'{k}: a wrapped field is read if and only if its whole path is present',
                f'{len(found.items)} of {len(exp["path"])} parts of the path are present, operations: {[e.name for e in taken]}')
        for e in taken:
            q.check('C01 C34', e.recv.key == last.key, f'{k}: a wrapped field is read from the end of its path', f'{e.name} on {e.recv!r}')
        if not taken:
            return
    if k in ('text', 'attrs'):
        q.check('C01', not inner, f'{k}: no named entity is looked for', f'{inner!r}')
        names = {e.name for e in q.events(since) if e.kind == 'call'}
        if not conf.wrapped:
            q.check('C01', ('pop_text' if k == 'text' else 'pop_attributes') in names, f'{k}: read from its place', f'{sorted(names)}')
        return
    want = 'attribute' if k == 'attr' else 'element'
    q.check('C01', bool(inner), f'{k}: looked for', 'the field is never looked for')
    for e, kind, v in inner:
        q.check('C01', kind == want, f'{k}: read from its place', f'{kind} {v!r} is looked for')
        q.same(pids, v, exp['name'], f'{k}: name looked for', f'name of the {want}')


def run(q, conf):
    q.s.may_reject = False      # what happens to rejected data is the subject of other rules
    d = check_define(q, conf, PIDS)
    if d is None:
        return
    cls, exp = d
    way = q.it.pick('direction', ['write', 'read']) if conf.kind in ('mapping', 'attrs') else 'both'
    if way != 'read':
        check_written(q, conf, cls, exp, PIDS)
    if way != 'write':
        check_read(q, conf, cls, exp, PIDS)


KINDS = ('text', 'attr', 'attrs', 'prim', 'mapping', 'model', 'raw')


@scenario(PIDS + ' C06 C07 C34', cases=[dict(kind=k, wrapped=w) for k in KINDS for w in (False, True)])
def names(q, kind, wrapped):
    """Every combination of explicit name, model tag, alias, search mode."""
    run(q, Conf(q, kind, wrapped=wrapped, names=True))


@scenario(PIDS, cases=[dict(kind=k, wrapped=w, m_ns=n) for k in KINDS for w in (False, True) if not (w and k == 'model')
                       for n in ((None, 'a', 'b') if k == 'model' else (None, '', 'a', 'b'))], max_paths=20000)
def namespaces(q, kind, wrapped, m_ns):
    """Every combination of namespaces and namespace maps at every level."""
    run(q, Conf(q, kind, wrapped=wrapped, spaces=True, fixed={'model ns': m_ns}))


@scenario(PIDS, tier='thorough', thorough_backends=(), cases=[dict(kind=k) for k in KINDS], max_paths=60000, deep='C24 C25')
def namespaces_wide(q, kind):
    """Every combination of namespaces at every level, under a wrapper."""
    run(q, Conf(q, kind, wrapped=True, spaces='all'))
