"""C19, C20: computed entities are written only, fields marked as not-XML take no part, excluded fields are read only."""
from ..domain import ClassV, Const, Inst, Sym
from ..engine import scenario
from ..harness import Field
from .common import *  # noqa: F401,F403
from .common import STR, default, list_of, namedtuple_of, nullable, tuple_of, union_of, validated, write
from .custom import install, mark, new_function
from .errors import check_errors, line_of
from .reading import ABSENT, Doc, outcome
from .shapes import E, el, parse, same_tree
from .writing import Case, assemble

KINDS = ('text', 'attr', 'attrs', 'prim', 'mapping', 'model', 'raw', 'list', 'list_model', 'list_mapping', 'list_raw', 'tuple', 'named',
         'list_tuple', 'union', 'tagged', 'prim_union', 'list_union', 'root', 'root_list')
ROLES = ('computed', 'noxml', 'excluded', 'excluded computed', 'plain')
BASE = {'list': 'prim', 'list_model': 'model', 'list_mapping': 'mapping', 'list_raw': 'raw', 'tuple': 'prim', 'named': 'prim',
        'list_tuple': 'prim', 'union': 'model', 'tagged': 'model', 'prim_union': 'prim', 'list_union': 'model', 'root': 'model',
        'root_list': 'model'}
FULL = {'text': 'str', 'attr': 'str', 'attrs': 'two', 'prim': 'str', 'mapping': 'two', 'model': 'full', 'raw': 'full'}


def solid(q, node):
    """Unknown texts become known ones (whether an unknown text is blank is not the question here)."""
    a = node.attrs
    if isinstance(a['tag'], Sym):
        a['tag'] = Const(a['tag'].name)
    at = a['attrib']
    at.layers = [('kv', Const(la[1].name) if isinstance(la[1], Sym) else la[1], la[2]) for la in at.layers]
    for k in ('text', 'tail'):
        if isinstance(a[k], Sym):
            a[k] = Const(f'<{a[k].name}>')
    for c in q.children(node):
        solid(q, c)


def everything(q, node, path=(), root=True):
    """What is left over if nothing below node is bound."""
    line = line_of(node)
    err = lambda loc, v: (tuple(loc), dict(type=Const('extra_forbidden'), msg=Const('Extra inputs are not permitted'), input=v), line)  # noqa: E731
    out = []
    for k in ('text', 'tail'):
        v = node.attrs[k]
        if isinstance(v, Const) and v.v:
            out.append(err(path, v))
    for la in node.attrs['attrib'].layers:
        out.append(err([*path, '@' + la[1].v], la[2]))
    for c in q.children(node):
        out += everything(q, c, [*path, c.attrs['tag'].v], False)
    return out


def field_schema(q, kind, s):
    if kind in ('union', 'list_union', 'tagged'):
        O = q.s.model('Other', [Field('d', {'type': 'literal', 'expected': ['other']}, location='ATTRIBUTE')])
        o = q.s.schema_of(O)
        return {'union': lambda: union_of(s, o), 'list_union': lambda: list_of(union_of(s, o)),
                'tagged': lambda: {'type': 'tagged-union', 'discriminator': 'd', 'choices': {'other': o, 'this': s}}}[kind]()
    if kind.startswith('root'):
        R = q.s.model('R', [Field('root', s if kind == 'root' else list_of(s), location='ELEMENT', path='fld')], root=True)
        return q.s.schema_of(R)
    return {'tuple': lambda: tuple_of(s, s), 'named': lambda: namedtuple_of(s, s), 'list_tuple': lambda: list_of(tuple_of(s, s)),
            'prim_union': lambda: union_of(s, {'type': 'int'})}.get(kind, lambda: list_of(s) if kind.startswith('list') else s)()


def base_schema(q, d, kind, with_tag):
    if with_tag:
        d.Sub = q.s.model('Sub', [Field('x', dict(STR), location='ATTRIBUTE'), Field('t', dict(STR)),
                                  Field('d', {'type': 'literal', 'expected': ['this']}, location='ATTRIBUTE')])
        return q.s.schema_of(d.Sub)
    return d.schema()


HID = 'C19 C20 C08'


@scenario(HID, cases=[dict(kind=k, wrapped=w) for k in KINDS for w in (False, True)], max_paths=4000, deep='C24 C25')
def read(q, kind, wrapped):
    """Data in the document for a computed / not-XML / excluded field of every kind."""
    q.s.may_reject = False
    p = q.it.pick
    role = p('role', list(ROLES))
    extra = p('extra', ['ignore', 'forbid'])
    d = Doc(q, BASE.get(kind, kind))
    s = field_schema(q, kind, base_schema(q, d, kind, kind == 'tagged'))
    loc = dict(attr='ATTRIBUTE', text=None, attrs=None).get(kind, 'ELEMENT')
    at = dict(location=loc)
    if wrapped:
        at = dict(location='WRAPPED', path='w1/w2', wrapped=Field('', None, location=loc) if loc is not None else None)
    computed = 'computed' in role
    f = Field('fld', s if computed else default(nullable(s)), computed=computed, noxml=role == 'noxml', exclude=role.startswith('excluded') or None, **at)
    before = [Field('pre', dict(STR), location='ATTRIBUTE')]
    cls = q.s.model('M', before + [f] + [Field('last', dict(STR), location='ELEMENT')], config=dict(extra=extra),
                    settings=dict(search_mode=q.it.enum_member(q.s.SM, 'UNORDERED')))
    attrs, kids = [], []
    n = 2 if kind in ('list', 'list_model', 'list_mapping', 'list_raw', 'tuple', 'named', 'list_tuple', 'list_union', 'root_list') else 1
    text, els = None, []
    for i in range(n):
        text, e = d.place(FULL[d.kind], attrs, kids, str(i) if n > 1 else '')
        els.append(e)
        if kind == 'tagged':
            q.it.dict_set(e.attrs['attrib'], Const('d'), Const('this'))
    if kind.startswith('root'):
        kids = [el(q, Const('fld'), children=kids)]
    if wrapped:
        kids = [el(q, Const('w1'), children=[el(q, Const('w2'), attrs, text, kids)])]
        attrs, text = [], None
    left = el(q, Const('M'), attrs, text, kids)
    solid(q, left)
    last = el(q, Const('last'), [], q.str('last'))
    root = el(q, Const('M'), attrs + [(Const('pre'), q.str('pre'))], left.attrs['text'], kids + [last])
    root.attrs['sourceline'] = left.attrs['sourceline']
    since = q.mark()
    out = parse(q, cls, root)
    want = {'pre': q.str('pre'), 'last': q.str('last')}
    pids = 'C19' if computed else 'C20'
    if computed or role == 'noxml':
        if extra == 'forbid':
            check_errors(q, 'C08 C11', out, everything(q, left), f'{role} {kind}')
            from .errors import error_list
            if out[0] == 'raise':
                got = error_list(q, out[1])
                ws = sorted(str(x[0]) for x in everything(q, left))
                q.check(pids, None if got is None else sorted(str(x[0]) for x in got) == ws, f'{role} {kind}: no data is taken from the document',
                        f'{got if got is None else sorted(str(x[0]) for x in got)} is left over instead of {ws}')
            else:
                q.fail(pids, f'{role} {kind}: no data is taken from the document', 'all data is bound')
            return
        outcome(q, pids, cls, out, want, f'{role} {kind}: parsing', since)
        return
    if kind in ('root', 'root_list'):
        q.no_raise(pids, out, f'{role} {kind}: parsing', '')
        return
    v = [d.expected(FULL[d.kind], False, str(i) if n > 1 else '', e) for i, e in enumerate(els)]
    fix = lambda x: Const(f'<{x.name}>') if isinstance(x, Sym) and d.kind in ('prim', 'text') else x  # noqa: E731
    v = [('model', {**x[1], 't': Const(f'<{x[1]["t"].name}>'), **({'d': Const('this')} if kind == 'tagged' else {})}, x[2])
         if isinstance(x, tuple) and x[0] == 'model' else fix(x) for x in v]
    want['fld'] = v[0] if n == 1 else [v] if kind == 'list_tuple' else v
    outcome(q, pids, cls, out, want, f'{role} {kind}: parsing', since)


@scenario('C19 C20 C16', cases=[dict(kind=k, wrapped=w) for k in ('text', 'attr', 'attrs', 'prim', 'mapping', 'model', 'raw') for w in (False, True)])
def written(q, kind, wrapped):
    """Which of these fields are written."""
    p = q.it.pick
    c = Case(q, kind, wrapped)
    role = p('role', list(ROLES))
    many = p('collection', [False, True]) if kind in ('prim', 'mapping', 'model', 'raw') else False
    computed = 'computed' in role
    loc = dict(attr='ATTRIBUTE', text=None, attrs=None).get(kind, 'ELEMENT')
    kw = dict(location=loc, nillable=c.nillable)
    if wrapped:
        kw = dict(location='WRAPPED', path='w1/w2', wrapped=Field('', None, **kw) if loc is not None else None)
    s = c.schema()
    s = list_of(s) if many else s
    f = Field('fld', s, computed=computed, noxml=role == 'noxml', exclude=True if role == 'excluded' else None, **kw)
    custom = p('custom serializer', [None, 'method', 'annotation']) if role in ('noxml', 'excluded') else None
    attrs = {}
    if custom:
        fn = new_function(q, 'fn')
        install(q, fn, 'serializer')
        if custom == 'method':
            attrs['custom'] = mark(q, 'serializer', ('fld',), fn)
        else:
            f.meta = [*(f.meta or ()), q.it.call(ClassV(q.s.p.cls('pydantic_xml.fields', 'XmlFieldSerializer')), [fn], {})]
    cls = q.s.model('M', [Field('pre', dict(STR), location='ATTRIBUTE'), f, Field('post', dict(STR), location='ATTRIBUTE'),
                          Field('last', dict(STR), location='ELEMENT')], attrs=attrs)
    if role == 'excluded computed':
        return
    se, en = p('skip_empty', [False, True]), p('exclude_none', [False, True])
    case = [x for x in c.values() if x not in ('None', '', 'empty')][0]
    v, e = c.make(case)
    if many:
        made = [(v, e), c.make(case, 'b')]
        val, enc = q.it.list_of([m[0] for m in made]), q.it.list_of([m[1] for m in made])
    else:
        made, val, enc = [(v, e)], v, e
    vals = {'pre': q.value('pre'), 'fld': val, 'post': q.value('post'), 'last': q.value('last')}
    encs = {'pre': q.str('pre_enc'), 'post': q.str('post_enc'), 'last': q.str('last_enc')}
    if role != 'noxml':
        encs['fld'] = enc
    if role == 'excluded':
        del encs['fld']         # pydantic leaves it out of the encoded data
    fs = q.it.new_set([Const(n) for n in ('pre', 'fld', 'post', 'last')])
    out = write(q, q.s.instance(cls, vals, encs, fields_set=fs), skip_empty=se, exclude_none=en)
    pids = 'C19' if computed else 'C20'
    if not q.no_raise(pids, out, f'{role} {kind}: serialization succeeds', ''):
        return
    adds = []
    if role in ('computed', 'plain'):
        for i, (x, _) in enumerate(made):
            adds += c.written(case, se, en, n='b' if i else '', value=x)
    w = wrapped if role in ('computed', 'plain') else 'absent' if wrapped else False
    # computed entities are written after the fields
    exp = assemble(q, adds, w)
    if computed and not (wrapped and w == 'absent'):
        body = [x for x in exp.children if not (isinstance(x, E) and x.tag == Const('last'))]
        exp.children = [x for x in exp.children if isinstance(x, E) and x.tag == Const('last')] + body
    same_tree(q, pids, out[1], exp, f'{role} {kind}: what is written')
