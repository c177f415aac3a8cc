"""C31: which prefixes are registered with the XML backend."""
from ..domain import Const, FuncV
from ..engine import scenario
from ..harness import Field
from .common import *  # noqa: F401,F403
from .common import STR, default, list_of, nullable

#: prefix -> is it registered
PREFIXES = {'': False, 'a': True, 'ns': True, 'ns1': False, 'ns12': False, 'ns1a': True, 'xns1': True, 'NS1': True, 'ns_1': True, 'n1': True}
SETS = [['a', 'b'], ['', 'a'], ['ns1', 'a'], [''], ['ns12']] + [[k] for k in PREFIXES if k not in ('', 'a', 'ns12')] + [list(PREFIXES)]


def registered(q, since):
    """{prefix: {uri keys}} or None"""
    out = {}
    for e in q.events(since, f'{q.s.et}.register_namespace'):
        a = list(e.args) + [e.kwargs[k] for k in ('prefix', 'uri')[len(e.args):] if k in e.kwargs]
        p = q.it.known_const(a[0]) if len(a) == 2 else None
        if p is None:
            return None
        out.setdefault(p.v, set()).add(a[1].key)
    return out


def function(q, name):
    return FuncV(q.s.p.func('pydantic_xml.fields', name))


def declare(q, place, m):
    """Declares the namespace map at a place."""
    s = q.s
    if place == 'model':
        return lambda: s.model('M', [Field('x', dict(STR), location='ELEMENT')], settings=dict(nsmap=m))
    if place == 'root model':
        return lambda: s.model('M', [Field('root', dict(STR), location='ELEMENT', path='x')], root=True, settings=dict(nsmap=m))
    if place == 'partial model':
        return lambda: s.model('M', [Field('x', dict(STR), location='ELEMENT')], settings=dict(nsmap=m), complete=False)
    if place == 'element':
        return lambda: q.it.call(function(q, 'element'), [], {'nsmap': m})
    if place == 'wrapped':
        return lambda: q.it.call(function(q, 'wrapped'), [Const('p')], {'nsmap': m})
    if place == 'wrapped element':
        def both():
            e = q.it.call(function(q, 'element'), [], {'nsmap': m})
            return q.it.call(function(q, 'wrapped'), [Const('p'), e], {})
        return both
    if place == 'computed element':
        return lambda: q.it.call(function(q, 'computed_element'), [prop(q)], {'nsmap': m})
    deco = q.it.call(function(q, 'computed_element'), [], {'nsmap': m})
    return lambda: q.it.call(deco, [prop(q)], {})


def prop(q):
    from ..domain import Sym
    return Sym('prop', 'fn')


PLACES = ('model', 'root model', 'partial model', 'element', 'wrapped', 'wrapped element', 'computed element', 'computed element with arguments')


def _register(q, place, on):
    p = q.it.pick
    prefixes = p('prefixes', SETS)
    m = {k: q.str(f'uri_{k}') for k in prefixes}
    value = q.it.new_dict([('kv', Const(k), u) for k, u in m.items()])
    since = q.mark()
    out = q.attempt(declare(q, place, value))
    if not q.no_raise('C31', out, f'{place}: the declaration is accepted', f'{prefixes}'):
        return
    got = registered(q, since)
    want = {k: {u.key} for k, u in m.items() if on and PREFIXES.get(k, True)}
    q.check('C31', None if got is None else got == want, f'{place}: registered prefixes (registration {"on" if on else "off"})',
            f'of {prefixes}: registered {sorted(got or {})} instead of {sorted(want)}')


@scenario('C31', backends=('lxml', 'std'), environ={'REGISTER_NS_PREFIXES': 'true'}, cases=[dict(place=x) for x in PLACES])
def enabled(q, place):
    """With registration on, the prefixes of every map are registered."""
    _register(q, place, True)


@scenario('C31', backends=('lxml', 'std'), environ={'REGISTER_NS_PREFIXES': 'false'}, cases=[dict(place=x) for x in PLACES])
def disabled(q, place):
    """With registration off, none is."""
    _register(q, place, False)


@scenario('C31', environ={'REGISTER_NS_PREFIXES': 'true'})
def inherited(q):
    """The map of a subclass is registered too; models without a map register nothing."""
    a, b = q.str('uri_a'), q.str('uri_b')
    m = lambda **kw: q.it.new_dict([('kv', Const(k), v) for k, v in kw.items()])  # noqa: E731
    F = lambda: [Field('x', default(nullable(dict(STR))), location='ELEMENT')]  # noqa: E731
    B = q.s.model('B', F(), settings=dict(nsmap=m(a=a)))
    since = q.mark()
    q.s.model('D', F(), bases=[B], settings=dict(nsmap=m(b=b)))
    got = registered(q, since)
    q.check('C31', None if got is None else got.get('b') == {b.key}, 'prefixes of a subclass are registered', f'{got}')
    since = q.mark()
    q.s.model('N', F())
    got = registered(q, since)
    q.check('C31', None if got is None else got == {}, 'nothing is registered without a map', f'{got}')


#: values of the environment variable
@scenario('C31', environ={'REGISTER_NS_PREFIXES': 'off'}, cases=[dict(place='model')])
def spelled_off(q, place):
    """Another spelling of 'false'."""
    _register(q, place, False)


@scenario('C31', environ={'REGISTER_NS_PREFIXES': 'YES'}, cases=[dict(place='model')])
def spelled_on(q, place):
    """Another spelling of 'true'."""
    _register(q, place, True)


@scenario('C31', environ={'REGISTER_NS_PREFIXES': None}, cases=[dict(place=x) for x in ('model', 'element')])
def by_default(q, place):
    """Without the environment variable, registration is on."""
    _register(q, place, True)
