"""C27: the expected root only; models that are not completely defined neither read nor write."""
from ..domain import Const, ExtV
from ..engine import exc_name, scenario, MODEL_GAP
from ..harness import Field
from .common import PARSING_ERROR, STR, default, list_of, nullable, write
from .shapes import E, el, parse, same_tree

OTHERS = ['Tag', 'tagx', 'xtag', 'Tag ', '', 'M']


@scenario('C27', backends=('lxml', 'std'), cases=[dict(root=r, ns=n) for r in (False, True) for n in (None, '', 'p')], max_paths=4000)
def roots(q, root, ns):
    """Root elements named like the model and almost like it."""
    q.s.may_reject = False
    p = q.it.pick
    tag = p('tag of the model', [None, 'tag'])
    name = tag or 'M'
    nsmap = None if ns is None else q.it.new_dict([('kv', Const(ns), Const('http://u'))])
    settings = dict(tag=tag, ns=ns, nsmap=nsmap)
    settings = {k: v for k, v in settings.items() if v is not None}
    base = p('inherited', [False, True])
    fields = [Field('root', dict(STR))] if root else [Field('x', default(nullable(dict(STR))), location='ATTRIBUTE')]
    cls = q.s.model('B' if base else 'M', fields, root=root, settings=settings)
    if base:
        cls = q.s.model('M', fields, root=root, bases=[cls])
    uri = None if ns is None else 'http://u'
    right = f'{{{uri}}}{name}' if uri else name
    wrong = [n for n in OTHERS if n != name] + [name.upper()]
    wrong = [f'{{{uri}}}{n}' if uri else n for n in wrong]
    wrong += [f'{{http://v}}{name}', f'{{}}{name}', f'{{http://u/}}{name}', f'p:{name}'] + ([name] if uri else [f'{{http://u}}{name}'])
    got = p('root element', [right] + wrong)
    api = p('function', ['from_xml_tree', 'from_xml'])
    doc = el(q, Const(got), [(Const('x'), q.str('x'))], q.str('text'))
    since = q.mark()
    if api == 'from_xml_tree':
        out = parse(q, cls, doc)
    else:
        q.it.ext[f'{q.s.et}.fromstring'] = lambda it, a, k: doc
        q.it.unroll = 12
        out = q.attempt(lambda: q.it.call(q.it.getattr(cls, 'from_xml'), [q.str('source')], {}))
    ev = q.events(since, 'model_validate')
    if got == right:
        if q.no_raise('C27', out, 'the root element of the model is parsed', f'{got!r}'):
            q.check('C27', len(ev) == 1, 'the root element of the model is parsed', f'{len(ev)} validations')
        return
    q.raises('C27', out, (PARSING_ERROR,), 'any other root element is refused', f'{got!r} for the model {right!r}')
    q.check('C27', not ev, 'nothing of a document with another root is bound', f'{got!r} for the model {right!r}')


def refuses(q, out, since, rule, what):
    if out[0] == 'raise' and exc_name(out[1]) in MODEL_GAP:
        q.it.note(f'{exc_name(out[1])} in the abstract run')
        q.check('C27', None, rule, what)
        return
    q.check('C27', out[0] == 'raise', rule, f'{what}: nothing is raised')
    q.check('C27', not q.events(since, 'model_validate'), rule, f'{what}: a document is validated')


PARTIAL = {
    'parameters': dict(params=True), 'forward reference': dict(complete=False), 'both': dict(params=True, complete=False),
    'root parameter': dict(root=True, params=True, ann='T'), 'root parameter inside': dict(root=True, params=True, ann='list'),
    'root parameter deep inside': dict(root=True, params=True, ann='deep'), 'root without field': dict(root=True, params=True, ann=None),
    'root forward reference': dict(root=True, complete=False, ann='int'),
    'root parameters of a base': dict(root=True, params=True, ann='int', ok=True), 'complete': dict(ok=True),
    'complete root': dict(root=True, ann='list of int', ok=True),
}
PLACES = ('direct', 'list', 'wrapped')


def annotation(q, a):
    t = q.s.typevar()
    return {'T': lambda: t, 'list': lambda: q.s.generic(t), 'deep': lambda: q.s.generic(ExtV('annotation'), q.s.generic(t)),
            'list of int': lambda: q.s.generic(ExtV('annotation'))}.get(a, lambda: None)()


def define(q, name, kind, base=None):
    k = PARTIAL[kind]
    root = k.get('root', False)
    sch = {'type': 'any'} if k.get('params') and not k.get('ok') else dict(STR)
    if k.get('ann') in ('list', 'list of int'):
        sch = list_of(sch)
    fields = [Field('root', sch, location='ELEMENT', path='i', annotation=annotation(q, k.get('ann')))] if root else \
        [Field('x', sch, location='ATTRIBUTE')]
    attrs = {'model_fields': q.it.new_dict()} if root and k['ann'] is None else None
    return q.s.model(name, fields, root=root, params=[q.s.typevar()] if k.get('params') else None, attrs=attrs,
                     complete=k.get('complete', True), bases=[base] if base is not None else None), root, k.get('ok', False)


def documents(q, root, place=None):
    inner = lambda: el(q, Const('M'), [] if root else [(Const('x'), q.str('x'))],  # noqa: E731
                       children=[el(q, Const('i'), text=q.str('x'))] if root else [])
    if place is None:
        return inner()
    if place == 'wrapped':
        return el(q, Const('Top'), children=[el(q, Const('w'), children=[inner()])])
    return el(q, Const('Top'), children=[inner()])


def instance(q, cls, root, kind):
    if not root:
        return q.s.instance(cls, {'x': q.str('x')}, {'x': q.str('x_enc')})
    if 'list' in (PARTIAL[kind].get('ann') or ''):
        return q.s.instance(cls, {'root': q.it.list_of([q.str('x')])}, q.it.list_of([q.str('x_enc')]))
    return q.s.instance(cls, {'root': q.str('x')}, q.str('x_enc'))


@scenario('C27', cases=[dict(kind=k) for k in PARTIAL], max_paths=4000)
def partial(q, kind):
    """Models with unresolved parameters or references, alone and inside other models."""
    q.s.may_reject = False
    p = q.it.pick
    place = p('place', [None, *PLACES])
    base = None
    if p('base', ['none', 'complete model']) == 'complete model':
        if PARTIAL[kind].get('root'):
            base = define(q, 'Base', 'complete root')[0]
        else:
            base = define(q, 'Base', 'complete')[0]
    done = q.attempt(lambda: define(q, 'M', kind, base))
    if not q.no_raise('C27', done, 'a generic or forward referencing model can be defined', kind):
        return
    cls, root, ok = done[1]
    top = cls
    v = instance(q, cls, root, kind)
    if place is not None:
        s = q.it.getattr(cls, '__pydantic_core_schema__')
        s = list_of(s) if place == 'list' else s
        f = Field('m', default(nullable(s)), **(dict(location='WRAPPED', path='w', wrapped=Field('', None, location='ELEMENT', path='M'))
                                                if place == 'wrapped' else dict(location='ELEMENT', path='M')))
        top = q.s.model('Top', [f])
        enc = q.s.encoded[v.key]
        many = place == 'list'
        v = q.s.instance(top, {'m': q.it.list_of([v]) if many else v}, {'m': q.it.list_of([enc]) if many else enc})
    since = q.mark()
    out = parse(q, top, documents(q, root, place))
    w = write(q, v)
    if ok:
        q.no_raise('C27', out, 'a complete model is parsed', kind)
        q.no_raise('C27', w, 'a complete model is serialized', kind)
        return
    n = len([e for e in q.events(since, 'model_validate') if e.recv is not None and e.recv.key == cls.key])
    q.check('C27', not n, 'a partial model never parses', f'{kind}: a document is validated by it')
    for rule, o in (('a partial model never parses', out), ('a partial model never serializes', w)):
        if o[0] == 'raise' and exc_name(o[1]) in MODEL_GAP:
            q.it.note(f'{exc_name(o[1])} in the abstract run')
            q.check('C27', None, rule, kind)
        else:
            q.check('C27', o[0] == 'raise', rule, f'{kind}: nothing is raised')


@scenario('C27 C28', cases=[dict(root=r, when=w) for r in (False, True) for w in ('before', 'after', 'alone')], max_paths=4000)
def rebuilt(q, root, when):
    """model_rebuild of a forward referencing model, before or after another model refers to it."""
    q.s.may_reject = False
    p = q.it.pick
    cls, _, _ = define(q, 'M', 'root forward reference' if root else 'forward reference')
    how = p('pydantic', ['resolves the references', 'fails'])
    success = how != 'fails'
    depth = p('namespace depth', [None, 0, 2, 5])
    more = p('other arguments', [False, True])
    calls, results = [], []

    def rebuild(recv, args, kwargs):
        calls.append((recv, list(args), dict(kwargs)))
        if len(calls) == 1:
            if success:
                q.it.setattr(recv, '__pydantic_complete__', Const(True))
            results.append(Const({'resolves the references': True, 'fails': False}.get(how)))
        else:
            results.append(Const(None))
        return results[-1]
    q.s.on_rebuild = rebuild

    def outer():
        f = Field('m', default(nullable(q.it.getattr(cls, '__pydantic_core_schema__'))), location='ELEMENT', path='M')
        return q.s.model('Top', [f])
    top = outer() if when == 'before' else None
    kw = {} if depth is None else {'_parent_namespace_depth': Const(depth)}
    if more:
        kw.update(force=q.value('force', 'bool'), raise_errors=q.value('raise_errors', 'bool'), _types_namespace=q.value('namespace'))
    r = q.attempt(lambda: q.it.call(q.it.getattr(cls, 'model_rebuild'), [], dict(kw)))
    if not q.no_raise('C27 C28', r, 'a model can be rebuilt', ''):
        return
    if len(calls) != 1:
        q.check('C27', False if not calls else None, 'pydantic rebuilds the model', f'{len(calls)} calls')
        return
    recv, args, got = calls[0]
    q.check('C27', recv.key == cls.key, 'pydantic rebuilds the model', repr(recv))
    q.same('C27 C28', r[1], results[0], "pydantic's result is returned")
    want = dict(kw)
    want['_parent_namespace_depth'] = Const(3 if depth is None else depth + 1 if depth else 0)
    for k, v in want.items():
        if k == '_parent_namespace_depth' and k not in got:
            q.check('C27', False, 'references are resolved where the caller can see them', 'no namespace depth is given')
        else:
            q.same('C27 C28', got.get(k), v, 'references are resolved where the caller can see them' if k in ('_parent_namespace_depth',)
                   else 'arguments reach pydantic', k)
    extra = [k for k in got if k not in want]
    q.check('C27 C28', not extra, 'arguments reach pydantic', f'unexpected {extra}')
    if when == 'after':
        top = outer()
    if when == 'alone':
        top = cls
    since = q.mark()
    v = instance(q, cls, root, 'forward reference')
    if top is not cls:
        v = q.s.instance(top, {'m': v}, {'m': q.s.encoded[v.key]})
    out = parse(q, top, documents(q, root, None if top is cls else 'direct'))
    w = write(q, v)
    if success:
        q.no_raise('C27', out, 'a resolved and rebuilt model parses', '')
        if q.no_raise('C27', w, 'a resolved and rebuilt model serializes', ''):
            x = E(Const('M'), [] if root else [(Const('x'), q.str('x_enc'))], children=[E(Const('i'), text=q.str('x_enc'))] if root else [])
            same_tree(q, 'C27', w[1], x if top is cls else E(Const('Top'), children=[x]), 'a resolved and rebuilt model serializes')
        since = q.mark()
        # again: a complete model stays as it is
        r = q.attempt(lambda: q.it.call(q.it.getattr(cls, 'model_rebuild'), [], {}))
        q.no_raise('C27', r, 'a complete model can be rebuilt', '')
        q.no_raise('C27', parse(q, top, documents(q, root, None if top is cls else 'direct')), 'a complete model rebuilt again parses', '')
    else:
        refuses(q, out, since, 'a model that could not be resolved never parses', '')
        q.check('C27', w[0] == 'raise', 'a model that could not be resolved never serializes', 'nothing is raised')
