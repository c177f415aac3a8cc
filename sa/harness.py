"""Abstract environment of the library: pydantic's metaclass and validation, native XML elements, user models.

A rule builds abstract user models (class statements whose names, aliases, namespaces, settings and values are unknowns),
lets the interpreter walk the library's own source for class creation, parsing or serialization of them, and looks at the
events and abstract results of every path.
"""
import re

from . import fieldinfo
from .domain import (
    NONE, TRUE, FALSE, BoundV, ClassV, Const, DictObj, EnumM, ExtV, FuncV, Inst, ListObj, MethV, Obj, PyFn, SetObj, Sym,
    SynthClass, Term, TupleV, Value, lin_comb,
)
from .interp import Interp, PyRaise
from .loader import ClassInfo, FuncInfo

NATIVE = 'native.Element'
VE = 'pydantic.ValidationError'
BASEMODEL_DIR = [
    '__init__', '__new__', '__class__', '__dict__', '__doc__', '__module__', '__init_subclass__', '__setattr__', '__eq__',
    '__repr__', '__str__', '__hash__', '__copy__', '__deepcopy__', '__fields__', '__slots__', '__annotations__',
    '__class_getitem__', '__pydantic_core_schema__', '__pydantic_decorators__', '__pydantic_complete__',
    '__pydantic_generic_metadata__', '__pydantic_root_model__', '__pydantic_validator__', '__pydantic_serializer__',
    'model_fields', 'model_config', 'model_validate', 'model_rebuild', 'model_dump', 'model_construct', 'model_copy',
    'model_computed_fields', 'model_extra', 'model_fields_set', 'model_json_schema', 'model_dump_json', 'model_post_init',
    'model_validate_json', 'model_validate_strings', 'model_parametrized_name', '__pydantic_fields_set__', 'copy', 'json',
    'dict', 'construct', 'validate', 'parse_obj', 'schema',
]

#: what RootModel defines itself
ROOTMODEL_DIR = ['__init__', '__init_subclass__', '__module__', '__doc__', '__annotations__', '__copy__', '__deepcopy__', '__eq__', '__dict__',
                 '__getstate__', '__setstate__', '__class_vars__', '__private_attributes__', '__signature__', '__pydantic_root_model__',
                 '__pydantic_core_schema__', '__pydantic_decorators__', '__pydantic_complete__', '__pydantic_generic_metadata__',
                 '__pydantic_validator__', '__pydantic_serializer__', 'model_config', 'model_construct', 'model_fields']
#: what dir(BaseModel) lists here: the attributes the abstract metaclass sets, and some others
DIR = ['__init__', '__new__', '__init_subclass__', '__pydantic_core_schema__', '__pydantic_decorators__', '__pydantic_complete__',
       '__pydantic_generic_metadata__', '__pydantic_root_model__', '__pydantic_fields_set__', 'model_fields', 'model_config',
       'model_validate', 'model_rebuild', 'model_dump', '__class_getitem__', '__module__', '__schema__', '__doc__']
#: operations on an unknown element which are recorded as events; every other method of the element class is followed
INTERFACE = {
    'find_element', 'find_element_or_create', 'find_sub_element', 'pop_element', 'pop_elements', 'pop_text', 'pop_tail', 'pop_attrib',
    'pop_attributes', 'get_attrib', 'get_unbound', 'get_sourceline', 'create_snapshot', 'apply_snapshot', 'step_forward', 'is_empty',
    'to_native', 'from_native', 'make_element', 'set_text', 'set_attribute', 'set_attributes', 'append_element',
}


class Field:
    """One field of an abstract model."""

    def __init__(self, name, schema, location=None, path=None, ns=None, nsmap=None, nillable=None, wrapped=None,
                 ser_alias=None, val_alias=None, exclude=None, noxml=False, computed=False, entity=None, meta=(),
                 value=None, enc=None, info=None, annotation=None):
        self.name, self.schema, self.location = name, schema, location
        self.path, self.ns, self.nsmap, self.nillable, self.wrapped = path, ns, nsmap, nillable, wrapped
        self.ser_alias, self.val_alias, self.exclude, self.noxml = ser_alias, val_alias, exclude, noxml
        self.computed, self.entity, self.meta = computed, entity, meta
        self.value, self.enc, self.info, self.annotation = value, enc, info, annotation
        if info is not None:        # made by one of the library's own functions
            from .domain import ExtV as _E
            given = lambda n: None if isinstance(info.attrs.get(n), Const) and info.attrs[n].v is None or isinstance(  # noqa: E731
                info.attrs.get(n), _E) else info.attrs.get(n)
            if computed:
                self.ser_alias = given('alias')
            else:
                self.ser_alias, self.val_alias = given('serialization_alias'), given('validation_alias')
                if given('exclude') is not None:
                    self.exclude = given('exclude')


class Session:
    def __init__(self, program, environ=None):
        self.p = program
        self.it = it = Interp(program)
        self.environ = {'REGISTER_NS_PREFIXES': 'false', 'FORCE_STD_XML': 'false'}
        self.environ.update(environ or {})
        p = program
        self.XE = p.cls('pydantic_xml.element.element', 'XmlElement')
        self.Reader = p.cls('pydantic_xml.element.element', 'XmlElementReader')
        self.Writer = p.cls('pydantic_xml.element.element', 'XmlElementWriter')
        self.SM = p.cls('pydantic_xml.element.element', 'SearchMode')
        self.native_mod = f'pydantic_xml.element.native.{p.backend}'
        self.LX = p.cls(self.native_mod, 'XmlElement')
        self.BXM = p.cls('pydantic_xml.model', 'BaseXmlModel')
        self.RXM = p.cls('pydantic_xml.model', 'RootXmlModel')
        self.META = p.cls('pydantic_xml.model', 'XmlModelMeta')
        self.RMETA = p.cls('pydantic_xml.model', 'RootXmlModelMeta')
        self.EL = p.cls('pydantic_xml.typedefs', 'EntityLocation')
        self.XEI = p.cls('pydantic_xml.fields', 'XmlEntityInfo')
        self.CXEI = p.cls('pydantic_xml.fields', 'ComputedXmlEntityInfo')
        self.NOXML = p.cls('pydantic_xml.fields', 'NoXml')
        self.BMS = p.cls('pydantic_xml.serializers.factories.model', 'BaseModelSerializer')
        it.typ_classes = {'elem': self.XE, 'serializer': self.BMS}
        it.attr_typs = {
            ('elem', 'tag'): 'str', ('native', 'tag'): 'str', ('native', 'text'): '?str', ('native', 'tail'): '?str',
            ('elem', 'nsmap'): '?dict', ('serializer', 'element_name'): 'str', ('serializer', 'nsmap'): '?dict',
            ('elem', 'find_sub_element'): 'tuple', ('elem', 'get_unbound'): 'list', ('elem', 'is_empty'): 'bool',
            ('elem', 'pop_elements'): 'tuple', ('serializer', 'deserialize'): 'model', ('elem', 'get_sourceline'): 'int',
            ('elem', 'pop_attributes'): '?dict', ('elem', 'create_snapshot'): 'elem',
            ('elem', 'to_native'): 'native', ('elem', 'step_forward'): 'none', ('elem', 'apply_snapshot'): 'none',
        }
        it.sym_methods = self.sym_methods
        it.raises = self.raises
        it.ext_has = self.ext_has
        it.no_attr = self.no_attr
        self.may_reject = True       # opaque nested parsing / validation may raise a validation error
        et = 'lxml.etree' if p.backend == 'lxml' else 'xml.etree.ElementTree'
        self.et = et
        it.ext.update({
            'os.environ.get': self.ext_environ, 'os.getenv': self.ext_environ,
            'pydantic_core.to_jsonable_python': self.ext_jsonable,
            f'{et}.Element': self.ext_element, f'{et}.SubElement': self.ext_subelement,
            'builtins.dir': self.ext_dir, 'builtins.vars': self.ext_vars,
        })
        fieldinfo.install(it, self.environ.pop('pydantic', '2.12.5'))
        it.hooks[f'{self.native_mod}.XmlElement.from_native'] = self.hook_from_native
        self.models = {}
        self.reader_names = set(self.Reader.methods)
        self.reject_names = {'deserialize', 'model_validate'}

    # ------------------------------------------------------------ environment
    def ext_has(self, dotted, name):
        base = dotted.split('.')[-1].split('[')[0]
        if base == 'RootModel':
            return name in ROOTMODEL_DIR
        if base == 'BaseModel':
            return name in BASEMODEL_DIR
        return True

    def no_attr(self, v, name):
        """Marks the library itself puts on functions are absent from everything else."""
        if name in ('__args__', '__origin__', '__parameters__'):
            return v == ExtV('annotation') or isinstance(v, Inst) and isinstance(v.cls, ExtV) and name not in v.attrs
        if not name.startswith('__xml_'):
            return False
        if isinstance(v, (Sym, Term)):
            return (v.key, name) not in self.it.symattrs
        if isinstance(v, Inst):
            return isinstance(v.cls, ExtV) and name not in v.attrs
        return isinstance(v, (EnumM, ExtV, MethV, Const, DictObj, ListObj, SetObj, TupleV, PyFn))

    def ext_environ(self, it, args, kw):
        k = args[0]
        if isinstance(k, Const) and self.environ.get(k.v) is not None:
            return Const(self.environ[k.v])
        return args[1] if len(args) > 1 else NONE

    def ext_jsonable(self, it, args, kw):
        e = it.event('ext', 'to_jsonable_python', None, args, kw)
        enc = self.encoded.get(args[0].key) if args else None
        e.result = enc if enc is not None else it.fresh('encoded', havoc=True)
        return e.result

    def native(self, tag, attrib=None, nsmap=None):
        it = self.it
        e = it.new_inst(ExtV(NATIVE), dict(
            tag=tag, attrib=it.new_dict(it.as_layers(attrib) if attrib is not None and not it.isnone(attrib) else []),
            nsmap=nsmap if nsmap is not None else NONE, text=NONE, tail=NONE, children=it.new_list(),
            sourceline=it.fresh('sourceline', 'int')))
        n = e.attrs['sourceline']
        it.nonneg[n.key] = n
        return e

    def typevar(self):
        return self.it.new_inst(ExtV('typing.TypeVar'), {})

    def generic(self, *args):
        """Annotation like List[T]."""
        t = TupleV.of(list(args))
        return self.it.new_inst(ExtV('types.GenericAlias'), {
            '__args__': t, '__origin__': ExtV('builtins.list'),
            '__parameters__': TupleV.of([a for a in args if isinstance(a, Inst) and a.cls == ExtV('typing.TypeVar')])})

    def node(self, kind, text=None, tail=None):
        """A comment or processing instruction."""
        e = self.native(ExtV(f'{self.et}.{kind}'))
        e.attrs.update(__node__=Const(kind), text=self.it.lift(text), tail=self.it.lift(tail))
        return e

    def ext_element(self, it, args, kw):
        kw = dict(kw)
        tag = args[0] if args else kw.pop('tag', kw.pop('_tag', NONE))
        attrib = args[1] if len(args) > 1 else kw.pop('attrib', None)
        nsmap = args[2] if len(args) > 2 else kw.pop('nsmap', None)
        e = self.native(tag, attrib, nsmap)
        for k, v in kw.items():
            if k == '**':
                it.note('keyword attributes of Element')
            else:
                it.dict_set(e.attrs['attrib'], Const(k), v)
        return e

    def ext_subelement(self, it, args, kw):
        e = self.ext_element(it, args[1:], kw)
        it.list_append(args[0].attrs['children'], e)
        return e

    def ext_dir(self, it, args, kw):
        if not args:
            it.imprecise('dir()')
        c = args[0]
        if isinstance(c, ExtV):
            return it.list_of([Const(n) for n in DIR])
        names = []
        for k in it.class_mro(c):
            if isinstance(k, SynthClass):
                names += list(k.attrs)
            elif isinstance(k, ClassInfo):
                names += list(k.methods) + list(k.attrs)
        names = list(dict.fromkeys(names + DIR))
        lst = it.list_of([Const(n) for n in names])
        return lst

    def ext_vars(self, it, args, kw):
        c = args[0] if args else None
        if isinstance(c, SynthClass):
            return it.dict_of({k: v for k, v in c.attrs.items()})
        if isinstance(c, ClassV):
            names = list(c.ci.methods) + list(c.ci.attrs)
            return it.new_dict([('kv', Const(n), it.getattr_opt(c, n) or NONE) for n in names])
        if isinstance(c, ExtV):
            return it.new_dict()
        return NotImplemented

    def raises(self, it, e):
        if self.may_reject and e.name in self.reject_names and e.kind == 'call':
            return [VE]
        return []

    def hook_from_native(self, it, args, kw):
        x = args[-1] if args else kw.get('element')
        if isinstance(x, (Sym, Term)) and x.typ == 'native':
            e = it.event('call', 'from_native', x, args, kw)
            e.result = Sym(f'elem({x!r})', 'elem', meta={'native': x})
            return e.result
        if isinstance(x, (Sym, Term)):
            e = it.event('call', 'from_native', x, args, kw)
            e.result = Sym(f'elem({x!r})@{e.seq}', 'elem', meta={'native': x})
            return e.result
        return NotImplemented

    def sym_methods(self, it, recv, name, args, kwargs):
        if name == '__new__' and isinstance(recv, ClassV) and self.META in self.p.mro(recv.ci):
            return self.type_new(it, args, kwargs)
        if isinstance(recv, Inst) and isinstance(recv.cls, ExtV) and recv.cls.name == NATIVE:
            return self.native_method(it, recv, name, args, kwargs)
        if isinstance(recv, (Sym, Term)) and recv.typ.lstrip('?') == 'elem' and not it.isnone(recv):
            fi = it.class_lookup(self.XE, name)
            if fi is not None and isinstance(fi[0], FuncInfo):
                if name == 'is_empty' and recv.typ == 'elem':
                    return Term('is_empty', (recv,), 'bool')
                if not self.is_interface(name):
                    return it.call(it.bind_method(fi[0], recv, self.XE), args, kwargs)
                return self.elem_call(it, recv, name, fi[0], args, kwargs)
        if name in self.inherited:
            return self.inherited[name](recv, args, kwargs)
        if isinstance(recv, SynthClass) and name == 'model_rebuild' and self.on_rebuild is not None:
            return self.on_rebuild(recv, args, kwargs)
        if isinstance(recv, SynthClass) and name == 'model_validate' and self.verdict is not None:
            return self.judged(it, recv, args, kwargs)
        if isinstance(recv, Inst) and isinstance(recv.cls, ExtV) and recv.cls.name == VE and name == 'errors':
            return self.errors_of(recv, kwargs)
        if isinstance(recv, Inst) and isinstance(recv.cls, ExtV) and recv.cls.name == VE and name == 'error_count':
            return it.len_of(self.errors_of(recv, {}))
        if isinstance(recv, SynthClass) and name == 'model_validate':
            return it.opaque_call('call', 'model_validate', recv, args, kwargs, 'model')
        if isinstance(recv, (Sym, Term)) and name == 'errors' and isinstance(recv, Sym) and (recv.meta or {}).get('exc'):
            n = Sym(f'n_errors({recv.name})', 'int')
            it.nonneg[n.key] = n
            it.add_ge(lin_comb(n, Const(1), -1))
            return Sym(f'errors({recv.name})', 'list', meta={'item': 'dict', 'len': n, 'of': recv})
        return NotImplemented

    # ------------------------------------------------------------ validation errors
    def judged(self, it, cls, args, kwargs):
        """model_validate whose outcome the rule decides."""
        e = it.event('call', 'model_validate', cls, args, kwargs)
        errs = self.verdict(cls, e)
        if errs:
            exc = it.new_inst(ExtV(VE), {
                'title': Const(cls.name), 'hide_input': FALSE,
                'line_errors': it.list_of([it.new_dict([('kv', Const(k), it.lift(v)) for k, v in x.items()]) for x in errs])})
            e.raised = exc
            raise PyRaise(exc)
        e.result = Sym(f'model_validate()@{e.seq}', 'model', meta={'event': e})
        return e.result

    def errors_of(self, exc, kwargs=None):
        """What ValidationError.errors() returns."""
        it = self.it
        drop = {'input' if k == 'include_input' else 'ctx' for k, v in (kwargs or {}).items()
                if k in ('include_input', 'include_context') and v == FALSE}
        le = exc.attrs.get('line_errors')
        if not isinstance(le, (ListObj, TupleV)) or not le.concrete:
            return it.fresh('errors', 'list', havoc=True)
        out = []
        for d in le.items:
            g = {la[1].v: la[2] for la in d.layers if la[0] == 'kv' and isinstance(la[1], Const)} if isinstance(d, DictObj) else None
            if g is None or 'type' not in g:
                return it.fresh('errors', 'list', havoc=True)
            t = g['type']
            r = {'loc': g.get('loc', TupleV.of([]))}
            if isinstance(r['loc'], ListObj) and r['loc'].concrete:
                r['loc'] = TupleV.of(r['loc'].items)
            if isinstance(t, Inst):
                ctx = t.attrs.get('context')
                r['type'], r['msg'] = t.attrs['type'], self.render(t.attrs['message_template'], ctx)
                if isinstance(ctx, DictObj) and not it.isnone(ctx):
                    r['ctx'] = ctx
            else:
                r['type'], r['msg'] = t, g.get('msg', NONE)
                if 'ctx' in g:
                    r['ctx'] = g['ctx']
            r['input'] = g.get('input', NONE)
            out.append(it.new_dict([('kv', Const(k), v) for k, v in r.items() if k not in drop]))
        return it.list_of(out)

    def render(self, template, ctx):
        from .externals import mk_str
        c = self.it.known_const(template) or template
        if not isinstance(c, Const) or not isinstance(c.v, str) or not isinstance(ctx, DictObj):
            return template
        vals = {la[1].v: la[2] for la in ctx.layers if la[0] == 'kv' and isinstance(la[1], Const)}
        parts = []
        for x in re.split(r'(\{\w+\})', c.v):
            if x[:1] == '{' and x[1:-1] in vals:
                parts.append(self.it.x.to_str(self.it, vals[x[1:-1]]))
            elif x:
                parts.append(Const(x))
        return mk_str(parts)

    def is_interface(self, name):
        return name in INTERFACE

    def elem_call(self, it, recv, name, fi, args, kwargs):
        """Interface-level event on an opaque element, arguments normalised by signature."""
        kw = self.x_bind(fi, args, kwargs)
        # canonical form of "take the next matching element"
        if name == 'find_element' and kw.get('look_behind') == FALSE and kw.get('step_forward') == TRUE:
            name = 'pop_element'
            kw = {'tag': kw['tag'], 'search_mode': kw['search_mode'], 'remove': FALSE}
        typ = it.attr_typs.get(('elem', name)) or it.annotation_typ(fi.returns)
        meta = {}
        if name == 'find_sub_element' and isinstance(kw['path'], (TupleV, ListObj)) and kw['path'].concrete:
            full = len(kw['path'].items)
            n = it.choose('parts of the path found', list(range(full, -1, -1)))
            e = it.event('call', name, recv, [], kw)
            e.result = it.lift(tuple(Sym(f'{name}()[{i}]@{e.seq}', 'elem') for i in range(n)))
            return e.result
        if name == 'find_sub_element':
            n = Sym(f'len(find_sub_element)@{it.evseq + 1}', 'int')
            it.nonneg[n.key] = n
            it.add_ge(lin_comb(it.len_of(kw['path']), n, -1))
            meta = {'item': 'elem', 'len': n}
        elif name == 'get_unbound':
            n = Sym(f'n_unbound@{it.evseq + 1}', 'int')
            it.nonneg[n.key] = n
            meta = {'item': 'tuple', 'len': n}
        return it.opaque_call('call', name, recv, [], kw, typ, meta)

    def x_bind(self, fi, args, kwargs):
        from .externals import bind_signature
        return bind_signature(self.it, fi, args, kwargs)

    def native_method(self, it, recv, name, args, kwargs):
        ch = recv.attrs['children']
        if name == 'extend':
            it.iterate(args[0], lambda x: it.list_append(ch, x))
            return NONE
        if name == 'append':
            it.list_append(ch, args[0])
            return NONE
        if name == 'set':
            it.dict_set(recv.attrs['attrib'], args[0], args[1])
            return NONE
        if name in ('get', 'items', 'keys', 'values'):
            return it.x.call_method(it, recv.attrs['attrib'], name, args, kwargs)
        if name == 'clear':
            it.mutated(ch, 'clear')
            ch.segs = []
            it.mutated(recv.attrs['attrib'], 'clear')
            recv.attrs['attrib'].layers = []
            it.setattr(recv, 'text', NONE)
            it.setattr(recv, 'tail', NONE)
            return NONE
        if name in ('remove', 'insert', 'index'):
            return it.x.call_method(it, ch, name, args, kwargs)
        if name in ('iterchildren', 'getchildren') and all(s[0] == 'i' for s in ch.segs):
            want = args[0] if args else kwargs.get('tag')
            if want is None:
                return it.new_list(list(ch.segs))
            if isinstance(want, ExtV) or isinstance(want, Const) and want.v == '*':
                k = None if isinstance(want, Const) or want.name.split('.')[-1] == 'Element' else \
                    {'PI': 'ProcessingInstruction'}.get(want.name.split('.')[-1], want.name.split('.')[-1])
                return it.new_list([s for s in ch.segs if s[1].attrs.get('__node__', NONE).v == k])
        if name in ('addnext', 'addprevious', 'replace'):
            it.event('mutate', name, recv, args)
        it.imprecise(f'native element method {name}')

    # ------------------------------------------------------------ class statements
    def type_new(self, it, args, kwargs):
        """pydantic's metaclass: the class object plus what pydantic puts on it, then __init_subclass__."""
        args = list(args)
        meta = self.META
        if args and isinstance(args[0], ClassV) and self.META in self.p.mro(args[0].ci):
            meta = args[0].ci
            args = args[1:]
        name, bases, ns = args[:3]
        bl = [b.ci if isinstance(b, ClassV) else b for b in bases.items]
        d = {}
        for la in ns.layers:
            if la[0] == 'kv' and isinstance(la[1], Const):
                d[la[1].v] = la[2]
        cls = SynthClass(it.new_serial(), name.v, bl, d, meta=meta)
        r = it.class_lookup(cls, '__init_subclass__', after=cls)
        while r is not None and isinstance(r[0], tuple):        # pydantic's own: calls the next one
            r = it.class_lookup(cls, '__init_subclass__', after=r[1])
        if r is not None and isinstance(r[0], FuncInfo):
            it.call(BoundV(FuncV(r[0]), cls), [], {k: v for k, v in kwargs.items()})
        return cls

    def loc(self, name):
        return NONE if name is None else self.it.enum_member(self.EL, name)

    def entity_info(self, f):
        it = self.it
        if f.entity is not None:
            return f.entity
        if f.location is None:
            return None
        kw = dict(location=self.loc(f.location))
        for k in ('path', 'ns', 'nsmap', 'nillable', 'wrapped'):
            v = getattr(f, k)
            if isinstance(v, Field):
                v = self.entity_info(v)
            kw[k] = it.lift(v) if v is not None else NONE
        return it.instantiate(ClassV(self.XEI), [], kw)

    def field_info(self, f):
        it = self.it
        if f.info is not None:
            return f.info
        md = [it.lift(x) for x in f.meta]
        if f.noxml:
            md.append(ClassV(self.NOXML))
        ei = self.entity_info(f)
        if ei is not None:
            md.append(ei)
        return it.new_inst(ExtV('pydantic.fields.FieldInfo'), {
            'metadata': it.list_of(md), 'annotation': f.annotation or ExtV('annotation'), 'alias': NONE})

    def model(self, name, fields=(), config=None, root=False, bases=None, settings=None, serializer=None, complete=True,
              params=None, attrs=None, schema=None, run=True, ref=None, outer=None, inside=None):
        """Executes the class statement of an abstract model; returns the class."""
        it = self.it
        cfg = it.new_dict([('kv', Const(k), it.lift(v)) for k, v in (config or {}).items()])
        model_fields, schema_fields, computed, cdeco = {}, [], [], {}
        for f in fields:
            if f.computed:
                d = {'type': 'computed-field', 'property_name': f.name, 'return_schema': f.schema}
                if f.ser_alias is not None:
                    d['alias'] = f.ser_alias
                computed.append(it.lift(d))
                info = f.info
                if info is not None:
                    pass
                elif f.location is not None:
                    info = it.new_inst(self.CXEI, {k: it.lift(getattr(f, k)) if not isinstance(getattr(f, k), (Field,))
                                                   else self.entity_info(getattr(f, k))
                                                   for k in ('path', 'ns', 'nsmap', 'nillable', 'wrapped')})
                    info.attrs['location'] = self.loc(f.location)
                else:
                    info = it.new_inst(ExtV('pydantic.fields.ComputedFieldInfo'), {})
                cdeco[f.name] = it.new_inst(ExtV('pydantic.Decorator'), {'info': info})
                continue
            model_fields[f.name] = self.field_info(f)
            d = {'type': 'model-field', 'schema': f.schema}
            for k, a in (('serialization_alias', f.ser_alias), ('validation_alias', f.val_alias),
                         ('serialization_exclude', f.exclude)):
                if a is not None:
                    d[k] = a
            schema_fields.append(('kv', Const(f.name), it.lift(d)))
        cls_attrs = {
            'model_config': cfg,
            'model_fields': it.dict_of(model_fields),
            '__pydantic_root_model__': Const(bool(root)),
            '__pydantic_complete__': it.lift(complete),
            '__pydantic_generic_metadata__': it.lift({'origin': None, 'args': (), 'parameters': it.lift(tuple(params or ()))}),
            '__pydantic_decorators__': it.new_inst(ExtV('pydantic.DecoratorInfos'), {'computed_fields': it.dict_of(cdeco)}),
        }
        cls_attrs.update(attrs or {})
        if bases is None:
            bases = [ClassV(self.RXM if root else self.BXM)]
        meta = self.RMETA if root else self.META
        body = it.new_dict([('kv', Const(k), v) for k, v in cls_attrs.items()])
        # the schema refers to the class, which does not exist yet: a lazily filled dictionary
        if root:
            inner = it.lift(fields[0].schema if fields else {'type': 'str'})
        else:
            inner = it.new_dict([('kv', Const('type'), Const('model-fields')),
                                 ('kv', Const('fields'), it.new_dict(schema_fields)),
                                 ('kv', Const('computed_fields'), it.list_of(computed)),
                                 ('kv', Const('model_name'), Const(name))])
        inner = inside(inner) if inside else inner
        sch = it.new_dict([('kv', Const('type'), Const('model')), ('kv', Const('root_model'), Const(bool(root))),
                           ('kv', Const('schema'), inner), ('kv', Const('custom_init'), FALSE)])
        if ref:
            sch.layers.append(('kv', Const('ref'), Const(ref)))
        body.layers.append(('kv', Const('__pydantic_core_schema__'), schema if schema is not None else outer(sch) if outer else sch))
        new = it.class_lookup(meta, '__new__')
        self.pending = sch
        saved = self.type_new

        def type_new(it_, args, kwargs):
            c = saved(it_, args, kwargs)
            sch.layers.append(('kv', Const('cls'), c))
            return c
        self.type_new = type_new
        try:
            kw = {k: it.lift(v) for k, v in (settings or {}).items()}
            if serializer is not None:
                kw['__xml_abstract__'] = TRUE
            cls = it.call(FuncV(new[0]), [ClassV(meta), Const(name), TupleV.of(bases), body], kw)
        finally:
            self.type_new = saved
        if serializer is not None:
            cls.attrs['__xml_serializer__'] = serializer
        self.models[name] = cls
        cls.attrs.setdefault('__schema__', sch)
        return cls

    def opaque_model(self, name='Sub', **kw):
        """Any other model: its own serializer is unknown."""
        ser = Sym(f'{name}.serializer', 'serializer', meta={'cls': self.BMS})
        return self.model(name, serializer=ser, **kw)

    def schema_of(self, cls):
        return cls.attrs['__schema__']

    def begin(self):
        self.encoded = {}
        self.models = {}
        self.may_reject = True
        self.it.unroll = 0
        self.it.set_orders, self.it.sym_calls = False, {}
        self.verdict = self.on_rebuild = None
        self.inherited = {}      # methods of external base classes

    # ------------------------------------------------------------ values
    def instance(self, cls, values, enc, fields_set=None):
        it = self.it
        v = it.new_inst(cls, dict(values))
        v.attrs['__pydantic_fields_set__'] = fields_set if fields_set is not None else Sym('fields_set', 'set')
        v.attrs['model_fields_set'] = v.attrs['__pydantic_fields_set__']
        self.encoded[v.key] = enc if isinstance(enc, Value) else it.new_dict(
            [('kv', Const(k), e) for k, e in enc.items()])
        return v

    def explore(self, thunk):
        def wrapped(it):
            self.begin()
            return thunk(self)
        return self.it.explore(wrapped)
