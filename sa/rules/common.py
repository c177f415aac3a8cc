"""Shared pieces of the model scenarios: schemas, entity kinds, the naming rules of the library as its documentation states them."""
from ..domain import Const, DictObj, ExtV, Inst, ListObj, Sym, Term, TupleV
from ..harness import Field

STR = {'type': 'str'}
MODEL_ERROR = 'pydantic_xml.errors.ModelError'
FIELD_ERROR = 'pydantic_xml.errors.ModelFieldError'
PARSING_ERROR = 'pydantic_xml.errors.ParsingError'
SERIALIZATION_ERROR = 'pydantic_xml.errors.SerializationError'
VE = 'pydantic.ValidationError'
XSI_NIL = '{http://www.w3.org/2001/XMLSchema-instance}nil'


def mapping():
    return {'type': 'dict', 'keys_schema': dict(STR), 'values_schema': dict(STR)}


def nullable(s):
    return {'type': 'nullable', 'schema': s}


def default(s):
    return {'type': 'default', 'schema': s}


def list_of(s):
    return {'type': 'list', 'items_schema': s}


def tuple_of(*ss):
    return {'type': 'tuple', 'items_schema': list(ss)}


def union_of(*ss):
    return {'type': 'union', 'choices': list(ss)}


def raw(q):
    return {'type': 'is-instance', 'cls': ExtV(f'{q.s.et}.{"_Element" if q.s.et.startswith("lxml") else "Element"}')}


def namedtuple_of(*ss):
    cls = Sym('NamedTupleClass', 'cls', meta={'sub': [ExtV('builtins.tuple'), ExtV('builtins.object')], 'isclass': True})
    return {'type': 'call', 'function': cls, 'arguments_schema': {
        'type': 'arguments', 'arguments_schema': [{'name': f'f{i}', 'schema': s} for i, s in enumerate(ss)]}}


# ---- the documented naming rules, over {'alias': uri value} maps
def merged(*maps):
    """Nearest declaration first."""
    out = {}
    for m in reversed([m for m in maps if m]):
        out.update(m)
    return out


class Refused(Exception):
    """The definition must be refused."""

    def __init__(self, kinds):
        self.kinds = kinds


def element_uri(nss, maps):
    """Namespace uri (value or None) of an element; nss and maps: innermost first."""
    ns = next((n for n in nss if n is not None), None)
    m = merged(*maps)
    if ns is None:
        return m.get('')
    if not m:
        return None
    if ns not in m:
        raise Refused((MODEL_ERROR,))
    return m[ns]


def attribute_uri(own, inherited, maps, ns_attrs):
    ns = own
    if ns is None and ns_attrs:
        ns = next((n for n in inherited if n is not None), None)
    if ns is None:
        return None
    if ns == '':
        raise Refused((FIELD_ERROR,))
    m = merged(*maps)
    if not m:
        return None
    if ns not in m:
        raise Refused((MODEL_ERROR,))
    return m[ns]


def mapping_uri(nss, maps, ns_attrs):
    """Namespace of the attributes of a mapping."""
    ns = next((n for n in nss if n is not None), None)
    if not ns_attrs or not ns:
        return None
    return merged(*maps).get(ns)


# ---- symbolic namespace maps
def nsmap_of(q, level, aliases):
    """{'alias': unknown non-empty uri} or None."""
    if aliases is None:
        return None
    return {a: q.str(f'uri_{level}_{a or "default"}') for a in aliases}


def nsmap_value(q, m):
    if m is None:
        return None
    return q.it.new_dict([('kv', Const(a), u) for a, u in m.items()])


# ---- reading
def native_root(q, tag, name='root'):
    """An unknown document whose root element has the given qualified name."""
    root = Sym(name, 'native')
    q.it.symattrs[(root.key, 'tag')] = q.it.lift(tag)
    return root


def read(q, cls, tag, name='root', **kw):
    root = native_root(q, tag, name)
    kw = {k: q.it.lift(v) for k, v in kw.items()}
    return q.framed(lambda: q.it.call(q.it.getattr(cls, 'from_xml_tree'), [root], kw), [root, *kw.values()])


def write(q, inst, **kw):
    kw = {k: q.it.lift(v) for k, v in kw.items()}
    return q.framed(lambda: q.it.call(q.it.getattr(inst, 'to_xml_tree'), [], kw), [inst, *kw.values()])


def lookups(q, since=0):
    """Names looked up in elements: [(element, 'element'|'attribute', value)]"""
    out = []
    for e in q.events(since):
        if e.kind != 'call' or e.recv is None or getattr(e.recv, 'typ', '').lstrip('?') != 'elem':
            continue
        if e.name in ('pop_element', 'find_element', 'find_element_or_create'):
            out.append((e, 'element', e.kwargs.get('tag')))
        elif e.name == 'find_sub_element':
            out.append((e, 'path', e.kwargs.get('path')))
        elif e.name in ('pop_attrib', 'get_attrib'):
            out.append((e, 'attribute', e.kwargs.get('name')))
    return out


def validated(q, cls, since=0):
    """Dictionaries handed to the validation of cls: [(event, {key: value} | None)]"""
    out = []
    for e in q.events(since, 'model_validate'):
        if e.recv is not None and e.recv.key == cls.key:
            d = e.args[0] if e.args else e.kwargs.get('obj')
            if isinstance(d, DictObj) and all(la[0] == 'kv' and isinstance(la[1], Const) for la in d.layers):
                out.append((e, {la[1].v: la[2] for la in d.layers}))
            else:
                out.append((e, None))
    return out
