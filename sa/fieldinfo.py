"""Abstract pydantic.fields: FieldInfo objects, their merging, and the computed_field decorator."""
from .domain import NONE, Const, DictObj, ExtV, Inst, ListObj, PyFn, Sym, Term, TupleV, lin_of  # noqa: F401

FIELD_INFO = 'pydantic.fields.FieldInfo'
UNDEFINED = ('pydantic_core.PydanticUndefined', 'pydantic.fields.PydanticUndefined', 'pydantic.fields._Unset')
ATTRS = ('annotation', 'default', 'default_factory', 'alias', 'alias_priority', 'validation_alias', 'serialization_alias', 'title',
         'field_title_generator', 'description', 'examples', 'exclude', 'exclude_if', 'discriminator', 'deprecated', 'json_schema_extra',
         'frozen', 'validate_default', 'repr', 'init', 'init_var', 'kw_only')
COMPUTED = ('wrapped_property', 'return_type', 'alias', 'alias_priority', 'title', 'field_title_generator', 'description', 'deprecated',
            'examples', 'json_schema_extra', 'repr')
#: constraints pydantic keeps in one object
GENERAL = ('pattern', 'max_digits', 'decimal_places', 'coerce_numbers_to_str', 'allow_inf_nan', 'union_mode')
PROXY = 'pydantic._internal._decorators.PydanticDescriptorProxy'


def undefined(v):
    return isinstance(v, ExtV) and v.name in UNDEFINED


def make(it, kw):
    """FieldInfo(**kw)"""
    kw = dict(kw)
    for b in kw.pop('**', []):
        it.imprecise('unknown keywords of FieldInfo')
    attrs = {a: NONE for a in ATTRS}
    attrs['default'] = ExtV(UNDEFINED[0])
    attrs['repr'] = Const(True)
    md, given = [], {}
    for k, v in kw.items():
        if k in ATTRS:
            if undefined(v):
                continue
            given[k] = v
            if not (k == 'default' and isinstance(v, Const) and v.v is Ellipsis):
                attrs[k] = v
        elif not it.isnone(v):
            md.append(it.new_inst(ExtV('pydantic.Constraint'), {'name': Const(k), 'value': v}))
    attrs['metadata'] = it.list_of(md)
    attrs['_attributes_set'] = it.dict_of(given)
    return it.new_inst(ExtV(FIELD_INFO), attrs)


def given_of(fi):
    return {la[1].v: la[2] for la in fi.attrs['_attributes_set'].layers}


def parts(it, infos):
    out = []
    for x in infos:
        if isinstance(x, Inst) and isinstance(x.cls, ExtV) and x.cls.name == FIELD_INFO and '_attributes_set' in x.attrs \
                and isinstance(x.attrs['metadata'], ListObj) and x.attrs['metadata'].concrete:
            out.append((given_of(x), list(x.attrs['metadata'].items)))
        else:
            it.imprecise(f'merging {x!r}')
    return out


def construct(it, args, kw):
    """FieldInfo._construct(list): the metadata of all, later attributes override the earlier ones"""
    seq = args[0] if args else kw.pop('metadata')
    if not isinstance(seq, (ListObj, TupleV)) or not seq.concrete:
        it.imprecise('unknown field infos')
    given, md = {}, []
    for g, m in parts(it, seq.items):
        given.update(g)
        md += m
    given.update({k: v for k, v in kw.items() if k != 'metadata'})
    r = make(it, given)
    r.attrs['metadata'] = it.list_of(md)
    return r


def kind_of(m):
    c = m.cls if isinstance(m, Inst) else m
    if isinstance(m, Inst) and 'name' in m.attrs and isinstance(m.attrs['name'], Const) and m.attrs['name'].v in GENERAL:
        return 'PydanticGeneralMetadata'
    n = getattr(c, 'fullname', None) or getattr(c, 'name', repr(c))
    return (n, m.attrs['name'].v) if n == 'pydantic.Constraint' else n


def merge(it, args, kw):
    """FieldInfo.merge_field_infos (pydantic before 2.12): one metadatum per type is kept"""
    given, md = {}, {}
    for g, m in parts(it, args):
        given.update(g)
        new = {}
        for x in m:
            new.setdefault(kind_of(x), []).append(x)
        md.update(new)
    given.update(kw)
    r = make(it, given)
    r.attrs['metadata'] = it.list_of([x for v in md.values() for x in v])
    return r


def computed_field(it, args, kw):
    kw = dict(kw)
    if kw.pop('**', []):
        it.imprecise('unknown keywords of computed_field')
    func = args[0] if args else kw.pop('func', NONE)

    def deco(it_, a, k):
        attrs = {x: NONE for x in COMPUTED}
        attrs.update(return_type=ExtV(UNDEFINED[0]), repr=Const(True))
        for n, v in kw.items():
            if n not in COMPUTED:
                it.raise_('builtins.TypeError', n)
            attrs[n] = v
        if 'repr' in kw and it.isnone(kw['repr']):
            attrs['repr'] = Const(True)
        attrs['wrapped_property'] = a[0]
        info = it.new_inst(ExtV('pydantic.fields.ComputedFieldInfo'), attrs)
        return it.new_inst(ExtV(PROXY), {'wrapped': a[0], 'decorator_info': info})
    if isinstance(func, Const) and func.v is None:
        return PyFn('computed_field', deco)
    return deco(it, [func], {})


def missing(it, args, kw):
    it.raise_('builtins.AttributeError', 'type object FieldInfo has no attribute _construct')


def install(it, version='2.12.5'):
    new = tuple(int(x) for x in version.split('.')[:2]) >= (2, 12)
    for n in ('pydantic.fields.FieldInfo', 'pydantic.Field', 'pydantic.fields.Field'):
        it.ext[n] = lambda i, a, k: make(i, {**({'default': a[0]} if a else {}), **k})
        it.ext[n + '._construct'] = construct if new else missing
        it.ext[n + '.merge_field_infos'] = merge
    it.ext['pydantic.computed_field'] = it.ext['pydantic.fields.computed_field'] = computed_field
    it.ext_dataclass_fields = {'pydantic.fields.ComputedFieldInfo': COMPUTED}
    for n in ('pydantic.__version__', 'pydantic.VERSION', 'pydantic.version.VERSION'):
        it.global_values[n] = lambda i: Const(version)
