"""C28 (and C02-C05): the options of the public functions take effect, and field factories can be reused."""
from ..domain import ClassV, Const, DictObj, ExtV, FuncV, Inst, ListObj, Sym, SynthClass, Term, TupleV
from ..engine import scenario
from ..fieldinfo import UNDEFINED
from ..harness import Field
from .common import *  # noqa: F401,F403
from .common import (STR, XSI_NIL, Refused, attribute_uri, default, element_uri, nsmap_of, nsmap_value, nullable, validated, write)
from .reading import outcome
from .shapes import E, differs, el, parse, same_tree

FIELDS = 'pydantic_xml.fields'


def function(q, name, module=FIELDS):
    return FuncV(q.s.p.func(module, name))


def call(q, f, *args, **kw):
    return q.it.call(f, [q.it.lift(a) for a in args], {k: q.it.lift(v) for k, v in kw.items()})


def present(**kw):
    return {k: v for k, v in kw.items() if v is not None}


def info_ok(q, out, rule):
    if not q.no_raise('C28', out, rule, ''):
        return None
    if not isinstance(out[1], Inst) or 'metadata' not in out[1].attrs and 'decorator_info' not in out[1].attrs:
        q.give_up(f'{out[1]!r} is not a field definition')
    return out[1]


# ------------------------------------------------------------------ what a field definition means
class Decl:
    """Arguments of element(), attr() or wrapped(), and the place they stand for."""

    def __init__(self, q, kind, level, names=True, spaces=True, nil=True):
        p = q.it.pick
        self.q, self.kind, self.level = q, kind, level
        tag = {'element': 'tag', 'attr': 'name', 'wrapped': 'path'}[kind]
        self.args = {}
        if kind == 'wrapped' or p(f'{level} name', [True, False] if names else [True]):
            self.args[tag] = f'{level}_{tag}'
        self.ns = p(f'{level} ns', [None, 'a', '']) if spaces and kind != 'attr' else p(f'{level} ns', [None, 'a']) if spaces else None
        self.aliases = p(f'{level} nsmap', [None, ('', 'a')]) if spaces and kind != 'attr' else None
        self.maps = nsmap_of(q, level, self.aliases)
        self.nillable = p(f'{level} nillable', [None, True, False]) if nil and kind == 'element' else None
        self.name = self.args.get(tag)

    def kw(self):
        return present(**self.args, ns=self.ns, nsmap=nsmap_value(self.q, self.maps), nillable=self.nillable)

    def call(self, **more):
        return call(self.q, function(self.q, self.kind), **self.kw(), **more)


def place(q, decls, leaf_name='fld'):
    """Wrapper names, leaf kind and name, given the declarations outermost first; raises Refused"""
    maps, nss, out = [], [], []
    model = nsmap_of(q, 'model', ('', 'a'))
    for d in decls:
        level = [m for m in [d.maps] + maps] + [model]
        if d.kind == 'wrapped':
            out.append(('wrap', q.qname(Const(d.name), element_uri([d.ns, *nss], level))))
        elif d.kind == 'attr':
            out.append(('attr', q.qname(Const(d.name or leaf_name), attribute_uri(d.ns, nss, level, False))))
        else:
            out.append(('element', q.qname(Const(d.name or leaf_name), element_uri([d.ns, *nss], level))))
        maps, nss = [d.maps] + maps, [d.ns] + nss
    return out


SHAPES = (('element',), ('attr',), ('wrapped',), ('wrapped', 'element'), ('wrapped', 'attr'), ('wrapped', 'wrapped', 'element'),
          ('wrapped', 'wrapped', 'attr'))


@scenario('C28 C02 C03 C04 C34', cases=[dict(shape='-'.join(s)) for s in SHAPES], max_paths=6000, deep='C24 C25')
def entities(q, shape):
    """Fields declared with the public functions are written at the place their arguments say."""
    kinds = shape.split('-')
    n = len(kinds)
    at = q.it.pick('namespaces at', ['0', '1', '2', '01', '12', '02'] if q.thorough else ['0', '1', '2']) if n == 3 else ''
    at = [int(c) for c in at]
    decls = [Decl(q, k, f'l{i}', names=i == n - 1 and n < 3, spaces=n < 3 or i in at, nil=n < 3)
             for i, k in enumerate(kinds)]

    def build(ds):
        if len(ds) == 1:
            return ds[0].call()
        return ds[0].call(entity=build(ds[1:]))
    out = q.attempt(lambda: build(decls))
    info = info_ok(q, out, f'{shape}: the definition is accepted')
    if info is None:
        return
    try:
        want = place(q, decls)
    except Refused as e:
        want = e
    cls = q.attempt(lambda: q.s.model('M', [Field('fld', default(nullable(dict(STR))), info=info)],
                                      settings=dict(nsmap=nsmap_value(q, nsmap_of(q, 'model', ('', 'a'))))))
    if isinstance(want, Refused):
        q.raises('C28 C05', cls, want.kinds, f'{shape}: refused', 'an undeclared prefix is refused')
        return
    if not q.no_raise('C28', cls, f'{shape}: the model is defined', ''):
        return
    leaf = decls[-1]
    for none in ([False, True] if leaf.kind == 'element' else [False]):
        v = q.s.instance(cls[1], {'fld': Const(None) if none else q.value('v')}, {'fld': Const(None) if none else q.str('enc')},
                         fields_set=q.it.new_set([Const('fld')]))
        out = write(q, v)
        if not q.no_raise('C28', out, f'{shape}: serialization succeeds', ''):
            return
        root = target = E(q.qname(Const('M'), element_uri([None], [nsmap_of(q, 'model', ('', 'a'))])))
        if none and 'wrapped' in kinds:
            continue        # see C16
        for k, name in want:
            if k == 'attr':
                target.attrs.append((name, q.str('enc')))
            elif k == 'element':
                target.children.append(E(name, [(Const(XSI_NIL), Const('true'))] if none and leaf.nillable else [],
                                         Const('') if none else q.str('enc')))
            else:
                target.children.append(E(name))
                target = target.children[-1]
        if leaf.kind == 'wrapped':
            target.text = q.str('enc')
        same_tree(q, 'C28 C34', out[1], root, f'{shape}: the arguments of the field functions take effect')


@scenario('C28 C02 C03 C04 C17', cases=[dict(kinds=k) for k in ('element-element', 'attr-attr', 'attr-element', 'element-attr')], max_paths=6000)
def annotated(q, kinds):
    """Several declarations of one field in an Annotated type: the last one that gives a parameter counts, false ones included."""
    ds = [Decl(q, k, f'd{i}') for i, k in enumerate(kinds.split('-'))]
    out = q.attempt(lambda: [d.call() for d in ds])
    if not q.no_raise('C28', out, f'{kinds}: the declarations are accepted', ''):
        return
    infos = out[1]
    if not all(isinstance(i, Inst) and isinstance(i.attrs.get('metadata'), ListObj) for i in infos):
        q.give_up('no metadata')
    metas = [m for i in infos for m in i.attrs['metadata'].items]
    info = infos[-1]
    info.attrs['metadata'] = q.it.list_of(metas)
    last = lambda vs: next((v for v in reversed(vs) if v is not None), None)  # noqa: E731
    leaf = ds[-1].kind
    name, ns, nil = last([d.name for d in ds]), last([d.ns for d in ds]), last([d.nillable for d in ds])
    model = nsmap_of(q, 'model', ('', 'a'))
    level = [d.maps for d in reversed(ds)] + [model]
    try:
        uri = attribute_uri(ns, [], level, False) if leaf == 'attr' else element_uri([ns], level)
    except Refused as e:
        uri = e
    cls = q.attempt(lambda: q.s.model('M', [Field('fld', default(nullable(dict(STR))), info=info)],
                                      settings=dict(nsmap=nsmap_value(q, model))))
    if isinstance(uri, Refused):
        q.raises('C28 C05', cls, uri.kinds, f'{kinds}: refused', 'an undeclared prefix is refused')
        return
    if not q.no_raise('C28', cls, f'{kinds}: the model is defined', ''):
        return
    qn = q.qname(Const(name or 'fld'), uri)
    for none in (False, True):
        v = q.s.instance(cls[1], {'fld': Const(None) if none else q.value('v')}, {'fld': Const(None) if none else q.str('enc')},
                         fields_set=q.it.new_set([Const('fld')]))
        out = write(q, v)
        if not q.no_raise('C28', out, f'{kinds}: serialization succeeds', ''):
            return
        root = E(q.qname(Const('M'), element_uri([None], [model])))
        text = Const('') if none else q.str('enc')
        if leaf == 'attr':
            root.attrs.append((qn, text))
        else:
            root.children.append(E(qn, [(Const(XSI_NIL), Const('true'))] if none and nil else [], text))
        same_tree(q, 'C28 C17' if none else 'C28', out[1], root, f'{kinds}: the last declaration that gives a parameter counts')


def plain(v):
    """A deep copy is as good as the value."""
    return plain(v.args[0]) if isinstance(v, Term) and v.op == 'deepcopy' else v


# ------------------------------------------------------------------ pydantic's own field options
OPTIONS = ('title', 'description', 'examples', 'exclude', 'json_schema_extra', 'frozen', 'repr', 'gt', 'max_length', 'pattern',
           'discriminator', 'deprecated', 'validate_default')
ALIASES = ('alias', 'serialization_alias', 'validation_alias')


def call_kind(q, kind, **kw):
    """One of the field functions; the options given to the outer one, the entity or both."""
    if kind in ('element', 'attr'):
        return call(q, function(q, kind), **kw)
    if kind == 'wrapped':
        return call(q, function(q, 'wrapped'), 'p', **kw)
    if kind == 'wrapped outer':
        return call(q, function(q, 'wrapped'), 'p', call(q, function(q, 'element')), **kw)
    if kind == 'wrapped outer attr':
        return call(q, function(q, 'wrapped'), 'p', call(q, function(q, 'attr'), 'n'), **kw)
    if kind == 'wrapped inner':
        return call(q, function(q, 'wrapped'), 'p', call(q, function(q, 'element'), **kw))
    return call(q, function(q, 'wrapped'), 'p', call(q, function(q, 'wrapped'), 'q', call(q, function(q, 'element'), **kw)))


KINDS = ('element', 'attr', 'wrapped', 'wrapped outer', 'wrapped outer attr', 'wrapped inner', 'wrapped twice')


def constraints(q, info):
    return {m.attrs['name'].v: m.attrs['value'] for m in info.attrs['metadata'].items
            if isinstance(m, Inst) and isinstance(m.cls, ExtV) and m.cls.name == 'pydantic.Constraint'}


@scenario('C28 C32 C02', cases=[dict(kind=k) for k in KINDS], max_paths=4000, deep='C24 C25')
def options(q, kind):
    """Default, default factory, aliases and every other pydantic option arrive at the field."""
    p = q.it.pick
    mode = p('option', ['default', 'default None', 'default_factory', 'aliases', 'nothing', *OPTIONS])
    kw = {}
    if mode == 'default':
        kw['default'] = q.value('dflt')
    elif mode == 'default None':
        kw['default'] = Const(None)
    elif mode == 'default_factory':
        kw['default_factory'] = Sym('factory', 'fn')
    elif mode == 'aliases':
        kw = {a: q.str(a) for a in ALIASES if p(a, [False, True])}
    elif mode == 'exclude':
        kw['exclude'] = Const(True)
    elif mode == 'repr':
        kw['repr'] = Const(False)
    elif mode != 'nothing':
        kw[mode] = q.value(mode)
    out = q.attempt(lambda: call_kind(q, kind, **kw))
    info = info_ok(q, out, f'{kind}: the definition is accepted')
    if info is None:
        return
    a = info.attrs
    want = {'default': ExtV(UNDEFINED[0]), 'default_factory': Const(None), 'repr': Const(True), **{
        k: Const(None) for k in OPTIONS if k in a and k != 'repr'}}
    want.update({k: v for k, v in kw.items() if k in a and k not in ALIASES})
    for k, w in want.items():
        q.same('C28', plain(a[k]), w, f'{kind}: pydantic option {k}')
    if mode in ('gt', 'max_length', 'pattern'):
        q.same('C28', plain(constraints(q, info).get(mode)), kw[mode], f'{kind}: constraint {mode}')
    q.check('C28', all(k == mode for k in constraints(q, info)), f'{kind}: no other constraints', f'{constraints(q, info)}')
    ser = kw.get('serialization_alias') or kw.get('alias') or Const(None)
    val = kw.get('validation_alias') or kw.get('alias') or Const(None)
    q.same('C28 C02', a['serialization_alias'], ser, f'{kind}: serialization alias')
    q.same('C28 C32', a['validation_alias'], val, f'{kind}: validation alias')


VERSIONS = ('2.6.4', '2.9.0', '2.11.10', '2.12.0', '2.12.0b1', '2.13.4', '3.0.1', '10.1')


def versions(fn):
    for v in VERSIONS:
        scenario('C28', environ=dict(pydantic=v), cases=[dict(kind=k, version=v) for k in ('wrapped', 'wrapped twice')], max_paths=400)(fn)
    return fn


@scenario('C28', cases=[dict(kind=k) for k in ('wrapped', 'wrapped twice')], max_paths=400, deep='C24 C25')
@versions
def merged(q, kind, version='2.12.5'):
    """Different options given to wrapped() and to its entity are all kept, with every supported version of pydantic."""
    f, w = function(q, 'element'), function(q, 'wrapped')
    title, alias, descr, gt, le = q.str('title'), q.str('alias'), q.str('description'), q.value('gt'), q.value('le')
    digits, pattern = q.value('max_digits'), q.str('pattern')
    new = [int(x) for x in version.split('.')[:2]] >= [2, 12]     # older versions keep one object of a type

    def build():
        e = call(q, f, alias=alias, title=title, gt=gt, max_digits=digits)
        if kind == 'wrapped':
            return call(q, w, 'p', e, description=descr, default=q.value('dflt'), le=le, pattern=pattern)
        return call(q, w, 'p', call(q, w, 'q', e, description=descr, le=le, pattern=pattern), default=q.value('dflt'))
    out = q.attempt(build)
    info = info_ok(q, out, f'{kind}: the definition is accepted')
    if info is None:
        return
    for k, v in dict(title=title, alias=alias, serialization_alias=alias, validation_alias=alias, description=descr,
                     default=q.value('dflt')).items():
        q.same('C28', plain(info.attrs[k]), v, f'{kind}: {k} is kept')
    c = constraints(q, info)
    for k, v in dict(gt=gt, le=le, **(dict(max_digits=digits, pattern=pattern) if new else {})).items():
        q.same('C28', plain(c.get(k)), v, f'{kind}: constraint {k} is kept')


# ------------------------------------------------------------------ reuse
def snapshot(q, v, depth=0, seen=None):
    """Structure of a definition for comparison."""
    seen = seen or set()
    if depth > 6:
        return '...'
    if isinstance(v, Inst):
        return (v.key, tuple(sorted((k, snapshot(q, x, depth + 1)) for k, x in v.attrs.items())))
    if isinstance(v, (ListObj, TupleV)):
        return tuple((s[0], snapshot(q, s[1], depth + 1) if s[0] == 'i' else repr(s)) for s in v.segs)
    if isinstance(v, DictObj):
        return tuple((la[0],) + tuple(snapshot(q, x, depth + 1) if hasattr(x, 'key') else repr(x) for x in la[1:]) for la in v.layers)
    return repr(v)


@scenario('C28 C04', cases=[dict(kind=k) for k in ('element', 'attr', 'wrapped')], max_paths=400, deep='C24 C25')
def reuse(q, kind):
    """An entity given to wrapped() several times stays as it was, and the wrapped fields do not affect each other."""
    m1, m2 = nsmap_of(q, 'one', ('a',)), nsmap_of(q, 'two', ('a', 'b'))
    inner = {'element': dict(tag='t', ns='a', nsmap=nsmap_value(q, m1)), 'attr': dict(name='t'), 'wrapped': dict(path='q', nsmap=nsmap_value(q, m1))}[kind]
    w = function(q, 'wrapped')

    def build():
        e = call(q, function(q, kind), **inner, title=q.str('title'))
        before = snapshot(q, e)
        one = call(q, w, 'p1', e, alias=q.str('alias1'), nsmap=nsmap_value(q, m2))
        first = snapshot(q, one)
        two = call(q, w, 'p2', e, description=q.str('d2'))
        return e, before, one, first, two
    out = q.attempt(build)
    if not q.no_raise('C28', out, f'{kind}: the definitions are accepted', ''):
        return
    e, before, one, first, two = out[1]
    q.check('C28', snapshot(q, e) == before, f'{kind}: an entity given to wrapped() is not changed', f'{before} became {snapshot(q, e)}')
    q.check('C28', snapshot(q, one) == first, f'{kind}: fields wrapping the same entity do not affect each other',
            f'{first} became {snapshot(q, one)}')
    q.same('C28', two.attrs['alias'], Const(None), f'{kind}: options of one wrapped field do not reach another')
    q.check('C28', not (one.attrs['metadata'].key == two.attrs['metadata'].key or e.attrs['metadata'].key in (
        one.attrs['metadata'].key, two.attrs['metadata'].key)), f'{kind}: definitions do not share their metadata', '')


# ------------------------------------------------------------------ computed fields
COPTIONS = ('title', 'description', 'examples', 'deprecated', 'json_schema_extra', 'return_type', 'alias', 'alias_priority', 'repr')


@scenario('C28 C02 C03 C19', cases=[dict(kind=k, form=f) for k in ('computed_attr', 'computed_element', 'computed_entity')
                                    for f in ('bare', 'called', 'called with property')], max_paths=4000)
def computed(q, kind, form):
    """Arguments of the computed field functions, used as a decorator with or without arguments, also twice."""
    p = q.it.pick
    f = function(q, kind)
    loc = p('location', ['ELEMENT', 'ATTRIBUTE', None]) if kind == 'computed_entity' else 'ATTRIBUTE' if kind == 'computed_attr' else 'ELEMENT'
    pos = [q.s.loc(loc)] if kind == 'computed_entity' else []
    kw, opts = {}, {}
    tag = {'computed_attr': 'name', 'computed_element': 'tag', 'computed_entity': 'path'}[kind]
    o = None if form == 'bare' else p('option', [None, *COPTIONS])
    if o:
        opts[o] = q.str('calias') if o == 'alias' else Const(False) if o == 'repr' else q.value(o)
        if o == 'alias' and p('name given', [False, True]):
            kw[tag] = q.str('given')
    elif form != 'bare':
        if p('name given', [False, True]):
            kw[tag] = q.str('given')
        if p('ns given', [False, True]):
            kw['ns'] = 'a'
        if loc == 'ELEMENT':
            kw['nsmap'] = nsmap_value(q, nsmap_of(q, 'field', p('nsmap given', [None, ('a',)])))
            kw['nillable'] = p('nillable given', [None, True])
    kw = present(**kw)
    props = [Sym('prop1', 'fn'), Sym('prop2', 'fn')]

    def build():
        if form == 'bare':
            return [q.it.call(f, [*pos, x], {}) for x in props]
        if form == 'called with property':
            return [call(q, f, *pos, x, **kw, **opts) for x in props]
        d = call(q, f, *pos, **kw, **opts)
        return [q.it.call(d, [x], {}) for x in props]
    out = q.attempt(build)
    if not q.no_raise('C28', out, f'{kind}: the decorator is accepted', f'{form}'):
        return
    for x, r in zip(props, out[1]):
        info = r.attrs.get('decorator_info') if isinstance(r, Inst) else None
        if not isinstance(info, Inst):
            q.give_up(f'{r!r}')
        q.same('C28', info.attrs.get('wrapped_property'), x, f'{kind}: each property is decorated itself')
        for k, v in opts.items():
            q.same('C28', info.attrs.get(k), v, f'{kind}: pydantic option {k}')
    model = nsmap_of(q, 'model', ('', 'a'))
    cls = q.attempt(lambda: q.s.model('M', [Field(f'c{i}', nullable(dict(STR)), computed=True, info=r.attrs['decorator_info'])
                                            for i, r in enumerate(out[1][:2] if loc else out[1][:1])],
                                      settings=dict(nsmap=nsmap_value(q, model))))
    if not q.no_raise('C28', cls, f'{kind}: the model is defined', form):
        return
    n = 2 if loc else 1
    none = loc == 'ELEMENT' and q.it.pick('value', ['some', 'None']) == 'None'
    vals = {f'c{i}': Const(None) if none else q.value(f'v{i}') for i in range(n)}
    encs = {f'c{i}': Const(None) if none else q.str(f'e{i}') for i in range(n)}
    w = write(q, q.s.instance(cls[1], vals, encs, fields_set=q.it.new_set()))
    if not q.no_raise('C28', w, f'{kind}: serialization succeeds', form):
        return
    maps = [nsmap_of(q, 'field', ('a',)) if 'nsmap' in kw else None, model]
    root = E(q.qname(Const('M'), model['']))
    for i in range(n):
        name = kw.get(tag) or opts.get('alias') or Const(f'c{i}')
        if loc is None:
            root.text = encs['c0']
        elif loc == 'ATTRIBUTE':
            nm = q.qname(name, attribute_uri(kw.get('ns'), [], maps, False))
            root.attrs = [(k, v) for k, v in root.attrs if q.qkey(k) != nm.key] + [(nm, encs[f'c{i}'])]
        else:
            nil = none and kw.get('nillable')
            root.children.append(E(q.qname(name, element_uri([kw.get('ns')], maps)), [(Const(XSI_NIL), Const('true'))] if nil else [],
                                   Const('') if none else encs[f'c{i}']))
    same_tree(q, 'C28 C19', w[1], root, f'{kind}: the arguments take effect ({form})')


# ------------------------------------------------------------------ parsing and serialization functions
def simple(q, **settings):
    return q.s.model('M', [Field('a', dict(STR), location='ATTRIBUTE'), Field('x', default(nullable(dict(STR))), location='ELEMENT')],
                     settings=settings)


@scenario('C28 C14', backends=('lxml', 'std'), cases=[dict(fn=f) for f in ('from_xml', 'from_xml_tree')], max_paths=400, deep='C24 C25')
def reading_calls(q, fn):
    """The options of from_xml/from_xml_tree: context, styles of passing them, and the text options."""
    q.s.may_reject = False
    p = q.it.pick
    cls = simple(q)
    ctx = p('context', [None, 'given'])
    eas = p('empty_as_string', [None, False, True])
    style = p('arguments', ['keyword', 'positional'])
    more = p('backend arguments', [False, True]) if fn == 'from_xml' else False
    doc = el(q, Const('M'), [(Const('a'), q.str('a'))], children=[el(q, Const('x'))])
    source = doc
    if fn == 'from_xml':
        source = q.value('source', 'str')

        def fromstring(it, args, kw):
            e = it.event('ext', 'fromstring', None, args, kw)
            e.result = doc
            return doc
        q.it.ext[f'{q.s.et}.fromstring'] = q.it.ext[f'{q.s.et}.XML'] = fromstring
    cv = q.value('context', 'dict') if ctx else None
    q.it.unroll = 12
    pos, kw = [source], {}
    if style == 'positional':
        pos += [q.it.lift(cv)] + ([q.it.lift(eas)] if eas is not None else [])
    else:
        kw = present(context=cv, empty_as_string=eas)
    if more:
        kw.update(parser=q.value('parser'), base_url=q.str('base_url'))
    since = q.mark()
    out = q.attempt(lambda: q.it.call(q.it.getattr(cls, fn), pos, {k: q.it.lift(v) for k, v in kw.items()}))
    if fn == 'from_xml' and q.no_raise('C28', out, f'{fn}: parsing', ''):
        ev = q.events(since, 'fromstring')
        q.check('C28', len(ev) == 1, f'{fn}: the source is parsed once', f'{len(ev)} times')
        for e in ev[:1]:
            a = list(e.args) + [e.kwargs[k] for k in ('text',) if k in e.kwargs]
            q.same('C28', a[0] if a else None, source, f'{fn}: the source is handed to the backend')
            got = {k: v for k, v in e.kwargs.items() if k not in ('text', '**')}
            want = {k: kw[k] for k in ('parser', 'base_url') if k in kw}
            q.check('C28', None if e.kwargs.get('**') else {k: v.key for k, v in got.items()} == {k: v.key for k, v in want.items()},
                    f'{fn}: extra arguments are handed to the backend', f'{got} instead of {want}')
    e = outcome(q, 'C28 C14', cls, out, {'a': q.str('a'), **({'x': Const('')} if eas else {})}, f'{fn}: options', since, f'{style} {kw}')
    if e is not None:
        q.same('C28 C14', e.kwargs.get('context', Const(None)), cv, f'{fn}: the context is handed to validation')


@scenario('C28 C15', backends=('lxml', 'std'), cases=[dict(fn=f) for f in ('to_xml', 'to_xml_tree')], max_paths=400, deep='C24 C25')
def writing_calls(q, fn):
    """The options of to_xml/to_xml_tree, however they are passed."""
    p = q.it.pick
    cls = q.s.model('M', [Field('a', dict(STR), location='ATTRIBUTE'), Field('x', default(nullable(dict(STR))), location='ELEMENT'),
                          Field('y', default(nullable(dict(STR))), location='ELEMENT'), Field('z', default(nullable(dict(STR))), location='ELEMENT')])
    flags = {k: p(k, [None, False, True]) for k in ('skip_empty', 'exclude_none', 'exclude_unset')}
    more = p('backend arguments', [False, True]) if fn == 'to_xml' else False
    kw = present(**flags)
    if more:
        kw.update(encoding=q.str('encoding'), pretty_print=q.value('pretty'))

    def tostring(it, args, k):
        e = it.event('ext', 'tostring', None, args, k)
        e.result = Sym(f'string@{e.seq}', 'str')
        return e.result
    q.it.ext[f'{q.s.et}.tostring'] = tostring
    v = q.s.instance(cls, {'a': q.value('a'), 'x': Const(None), 'y': Const(''), 'z': q.value('z')},
                     {'a': q.str('a_enc'), 'x': Const(None), 'y': Const(''), 'z': q.str('z_enc')},
                     fields_set=q.it.new_set([Const(n) for n in ('a', 'x', 'y')]))
    since = q.mark()
    out = q.attempt(lambda: q.it.call(q.it.getattr(v, fn), [], {k: q.it.lift(x) for k, x in kw.items()}))
    if not q.no_raise('C28', out, f'{fn}: serialization', ''):
        return
    tree = out[1]
    if fn == 'to_xml':
        ev = q.events(since, 'tostring')
        q.check('C28', len(ev) == 1, f'{fn}: the tree is written once', f'{len(ev)} times')
        if len(ev) != 1:
            return
        e = ev[0]
        q.same('C28', out[1], e.result, f'{fn}: the result is what the backend returns')
        tree = e.args[0] if e.args else None
        got = {k: x for k, x in e.kwargs.items() if k != '**'}
        want = {k: kw[k] for k in ('encoding', 'pretty_print') if k in kw}
        q.check('C28', None if e.kwargs.get('**') else {k: x.key for k, x in got.items()} == {k: x.key for k, x in want.items()},
                f'{fn}: extra arguments are handed to the backend', f'{got} instead of {want}')
    se, en, eu = (bool(flags[k]) for k in ('skip_empty', 'exclude_none', 'exclude_unset'))
    kids = ([] if se or en else [E(Const('x'))]) + ([] if se else [E(Const('y'))]) + ([] if eu else [E(Const('z'), [], q.str('z_enc'))])
    same_tree(q, 'C28 C15', tree, E(Const('M'), [(Const('a'), q.str('a_enc'))], None, kids), f'{fn}: flags take effect')


# ------------------------------------------------------------------ create_model
def emulate(q):
    """pydantic.create_model: the class statement it stands for."""
    q.metas = {}

    def create(it, args, kw):
        e = it.event('ext', 'create_model', None, args, kw)
        kw = dict(kw)
        if kw.pop('**', []):
            it.imprecise('unknown keywords of create_model')
        name = args[0]
        get = lambda k: None if k not in kw or it.isnone(kw[k]) else kw.pop(k)  # noqa: E731
        config, base, module, ck = get('__config__'), get('__base__'), get('__module__'), get('__cls_kwargs__')
        for k in ('__config__', '__base__', '__module__', '__cls_kwargs__'):
            kw.pop(k, None)
        if config is not None and base is not None:
            it.raise_('pydantic.errors.PydanticUserError')
        if base is None:
            e.result = c = SynthClass(it.new_serial(), name.v, [ExtV('pydantic.BaseModel')], {'model_config': config or it.new_dict(),
                                                                                        'model_fields': it.new_dict()})
            return c
        bases = list(base.items) if isinstance(base, (TupleV, ListObj)) else [base]
        cfg = {}
        for b in bases:
            c = it.getattr_opt(b, 'model_config')
            if isinstance(c, DictObj):
                cfg.update({la[1].v: la[2] for la in c.layers})
        ck = {la[1].v: la[2] for la in ck.layers} if isinstance(ck, DictObj) else {}
        q.metas[e.seq] = ck.pop('metaclass', None)
        fields = list(q.base_fields)
        for k, v in kw.items():
            if k.startswith('__'):
                continue
            if isinstance(v, TupleV) and len(v.items) == 2 and isinstance(v.items[1], Inst):
                fields.append(Field(k, default(nullable(dict(STR))), info=v.items[1]))
            else:
                fields.append(Field(k, default(nullable(dict(STR)))))
        attrs = {'__module__': module} if module is not None else {'__module__': Const('pydantic_xml.model')}
        e.result = q.s.model(name.v, fields, config=cfg, bases=bases, settings=ck, attrs=attrs)
        return e.result
    q.it.ext['pydantic.create_model'] = q.it.ext['pydantic.main.create_model'] = create


@scenario('C28 C22', cases=[dict(what=w) for w in ('tag', 'ns', 'nsmap', 'ns_attrs', 'skip_empty', 'search_mode', 'all', 'nothing')], max_paths=4000, deep='C24 C25')
def create(q, what):
    """Every argument of create_model takes effect."""
    p = q.it.pick
    emulate(q)
    q.base_fields = []
    on = lambda k: what in (k, 'all')  # noqa: E731
    m = nsmap_of(q, 'given', ('', 'a')) if what != 'nothing' else None
    ns = p('ns', ['a', '']) if on('ns') else 'a' if what in ('ns_attrs',) else None
    tag = p('tag', ['t', '']) if on('tag') else None
    ns_attrs = p('ns_attrs', [True, False]) if on('ns_attrs') and ns != '' else None
    se = p('skip_empty', [True, False]) if on('skip_empty') else None
    mode = p('search_mode', ['ORDERED', 'UNORDERED']) if on('search_mode') else None
    base = p('base', [None, 'model', 'tuple'])
    config = None if base == 'tuple' and what != 'nothing' else p('config', [None, 'forbid'])
    module = 'given' if base and config else None
    kw = {'__tag__': tag, '__ns__': ns, '__nsmap__': nsmap_value(q, m), '__ns_attrs__': ns_attrs, '__skip_empty__': se,
          '__search_mode__': None if mode is None else q.it.enum_member(q.s.SM, mode), '__module__': q.str('module') if module else None}
    bcls = None
    if base:
        bcls = q.s.model('B', [], settings=dict(skip_empty=True, tag='base_tag'))
        kw['__base__'] = bcls if base == 'model' else TupleV.of([bcls, ClassV(q.s.BXM)])
    if config:
        kw['__config__'] = q.it.new_dict([('kv', Const('extra'), Const(config))])
    kw = present(**kw)
    fields = {'at': ('attr', {}), 'x': ('element', {}), 'y': ('element', {})}
    defs = {k: TupleV.of([ExtV('annotation'), call(q, function(q, f), **a)]) for k, (f, a) in fields.items()}
    other = {'__doc__': q.str('doc'), '__validators__': q.value('validators', 'dict')}
    since = q.mark()
    out = q.attempt(lambda: q.it.call(function(q, 'create_model', 'pydantic_xml.model'), [Const('Name')],
                                      {**{k: q.it.lift(v) for k, v in kw.items()}, **other, **defs}))
    if not q.no_raise('C28', out, 'create_model: the class is created', f'{kw}'):
        return
    evs = [e for e in q.events(since, 'create_model') if e.result is not None and e.result.key == out[1].key]
    q.check('C28', len(evs) == 1, 'create_model: the result is the class pydantic made', f'{out[1]!r}')
    if len(evs) != 1:
        return
    e, cls = evs[0], out[1]
    for k, v in other.items():
        q.same('C28', e.kwargs.get(k), v, f'create_model: {k} is passed on')
    if module:
        q.same('C28', e.kwargs.get('__module__'), q.str('module'), 'create_model: __module__ is passed on')
    mro = q.it.class_mro(cls)
    q.check('C28', (bcls or q.s.BXM) in mro, 'create_model: the class derives from the given base', f'{mro}')
    d_se = se if se is not None else True if base else None
    d_tag = tag if tag is not None else 'base_tag' if base else None
    uri = element_uri([ns], [m])
    at = q.qname(Const('at'), attribute_uri(None, [ns], [m], ns_attrs))
    name = q.qname(Const(d_tag or 'Name'), uri)
    t = lambda n: q.qname(Const(n), uri)  # noqa: E731
    v = q.s.instance(cls, {'at': q.value('at'), 'x': Const(None), 'y': q.value('y')}, {'at': q.str('at'), 'x': Const(None), 'y': q.str('y')},
                     fields_set=q.it.new_set([Const(n) for n in fields]))
    w = write(q, v)
    if q.no_raise('C28', w, 'create_model: serialization', ''):
        same_tree(q, 'C28 C22', w[1], E(name, [(at, q.str('at'))], None, ([] if d_se else [E(t('x'))]) + [E(t('y'), [], q.str('y'))]),
                  'create_model: the settings take effect')
    q.s.may_reject = False
    doc = el(q, name, [(at, q.str('at'))], None, [el(q, Const('other'), [(Const('k'), q.str('v'))]), el(q, t('y'), [], q.str('y')), el(q, t('x'), [], q.str('x'))])
    since = q.mark()
    r = parse(q, cls, doc)
    if config:
        q.check('C28 C08', r[0] == 'raise', 'create_model: the configuration takes effect', 'leftovers are accepted')
        return
    want = {'at': q.str('at')}
    want.update({None: {}, 'ORDERED': {'x': q.str('x')}, 'UNORDERED': {'x': q.str('x'), 'y': q.str('y')}}[mode])
    outcome(q, 'C28 C22', cls, r, want, 'create_model: the settings take effect when parsing', since)


@scenario('C28', max_paths=400, deep='C24 C25')
def class_keywords(q):
    """Further class keywords given to create_model are kept and the caller's dictionary is not changed."""
    emulate(q)
    q.base_fields = []
    p = q.it.pick
    given = q.it.new_dict([('kv', Const(k), v) for k, v in dict(ns=Const('a')).items()])
    if p('metaclass given', [False, True]):
        q.it.dict_set(given, Const('metaclass'), ClassV(q.s.RMETA))
    m = nsmap_value(q, nsmap_of(q, 'given', ('', 'a')))
    before = snapshot(q, given)
    tag = p('tag', [None, 't'])
    since = q.mark()
    out = q.attempt(lambda: call(q, function(q, 'create_model', 'pydantic_xml.model'), 'Name', **present(__nsmap__=m, __tag__=tag, __cls_kwargs__=given)))
    if not q.no_raise('C28', out, 'create_model: class keywords', ''):
        return
    q.check('C28', snapshot(q, given) == before, "create_model: the caller's class keywords are not changed", f'{given!r}')
    e = q.events(since, 'create_model')[-1]
    meta = q.metas.get(e.seq)
    want = q.s.RMETA if 'RootXml' in repr(before) else q.s.META
    q.check('C28', isinstance(meta, ClassV) and meta.ci is want, 'create_model: the metaclass', f'{meta!r}')
    w = write(q, q.s.instance(out[1], {}, {}, fields_set=q.it.new_set()))
    if q.no_raise('C28', w, 'create_model: serialization', ''):
        same_tree(q, 'C28', w[1], E(q.qname(Const(tag or 'Name'), q.str('uri_given_a'))), 'create_model: class keywords take effect')
