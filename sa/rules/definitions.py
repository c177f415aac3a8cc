"""C23: which field definitions are accepted and which are refused."""
from ..domain import Const, ExtV, Sym
from ..engine import scenario
from ..harness import Field
from .common import *  # noqa: F401,F403
from .common import STR, default, list_of, mapping, namedtuple_of, nullable, raw, tuple_of, union_of, validated, write
from .shapes import el, parse

PRIMITIVES = ('none', 'bool', 'int', 'float', 'str', 'bytes', 'enum', 'date', 'time', 'datetime', 'timedelta', 'uuid', 'decimal', 'url',
              'multi-host-url', 'json', 'literal', 'lax-or-strict')
FOREIGN = ('any', 'callable', 'generator', 'dataclass')
LOCATIONS = (None, 'ATTRIBUTE', 'ELEMENT')
WRAPS = ('plain', 'wrapped', 'wrapped twice', 'computed')


def typed(values=None, computed=None):
    return {'type': 'typed-dict', 'fields': {'k1': {'type': 'typed-dict-field', 'schema': values or dict(STR)},
                                             'k2': {'type': 'typed-dict-field', 'schema': dict(STR)}},
            'computed_fields': [] if computed is None else [{'type': 'computed-field', 'property_name': 'c', 'return_schema': computed}]}


class Make:
    """Schemas by name; sub-models are created on demand."""

    def __init__(self, q):
        self.q, self.n = q, 0

    def sub(self, fields=None, **kw):
        self.n += 1
        return self.q.s.schema_of(self.q.s.model(f'Sub{self.n}', fields or [Field('t', dict(STR))], **kw))

    def tagged(self, *alts, discriminator='d'):
        """alts: schemas, or definitions of the discriminator field"""
        out = {}
        for i, a in enumerate(alts):
            if not isinstance(a, Field):
                out[f't{i}'] = a
                continue
            out[f't{i}'] = self.sub([a, Field('t', dict(STR))])
        return {'type': 'tagged-union', 'discriminator': discriminator, 'choices': out}

    def discr(self, i=0, location='ATTRIBUTE', **kw):
        return Field('d', {'type': 'literal', 'expected': [f't{i}']}, location=location, **kw)

    def __call__(self, name):
        q = self.q
        if name in PRIMITIVES:
            return {'type': name, **({'schema': dict(STR)} if name == 'json' else {}),
                    **({'lax_schema': dict(STR), 'strict_schema': dict(STR)} if name == 'lax-or-strict' else {})}
        if name in FOREIGN:
            return {'type': name}
        if name.startswith('list of '):
            return list_of(self(name[8:]))
        if name.startswith('set of '):
            return {'type': 'set', 'items_schema': self(name[7:])}
        if name.startswith('frozenset of '):
            return {'type': 'frozenset', 'items_schema': self(name[13:])}
        if name.startswith('variadic tuple of '):
            return {'type': 'tuple', 'items_schema': [self(name[18:])], 'variadic_item_index': 0}
        if name == 'prefixed variadic tuple':
            return {'type': 'tuple', 'items_schema': [dict(STR), dict(STR)], 'variadic_item_index': 1}
        if name.startswith('tuple of '):
            return tuple_of(*[self(x) for x in name[9:].split('+')])
        if name.startswith('named tuple of '):
            return namedtuple_of(*[self(x) for x in name[15:].split('+')])
        if name.startswith('union of '):
            return union_of(*[self(x) for x in name[9:].split('+')])
        if name.startswith('dict to '):
            return {'type': 'dict', 'keys_schema': dict(STR), 'values_schema': self(name[8:])}
        if name.startswith('dict from '):
            return {'type': 'dict', 'keys_schema': self(name[10:]), 'values_schema': dict(STR)}
        if name.startswith('typed dict to '):
            return typed(self(name[14:]))
        if name.startswith('typed dict computing '):
            return typed(None, self(name[21:]))
        if name.startswith('nullable '):
            return nullable(self(name[9:]))
        if name.startswith('default '):
            return default(self(name[8:]))
        for f in ('function-before', 'function-after', 'function-wrap'):
            if name.startswith(f + ' '):
                return {'type': f, 'schema': self(name[len(f) + 1:]), 'function': Sym('validate', 'fn')}
        if name.startswith('json-or-python '):
            return {'type': 'json-or-python', 'json_schema': dict(STR), 'python_schema': self(name[15:])}
        if name.startswith('definitions '):
            return {'type': 'definitions', 'schema': {'type': 'definition-ref', 'schema_ref': 'r1'},
                    'definitions': [{**(d if isinstance(d := self(name[12:]), dict) else self.lift(d)), 'ref': 'r1'}]}
        return {
            'model': lambda: self.sub(), 'raw': lambda: raw(q), 'other class': lambda: {'type': 'is-instance', 'cls': ExtV('builtins.object')},
            'root model': lambda: self.sub([Field('root', dict(STR))], root=True),
            'root model of mapping': lambda: self.sub([Field('root', mapping())], root=True),
            'root model of list': lambda: self.sub([Field('root', list_of(dict(STR)), location='ELEMENT', path='i')], root=True),
            'dict': mapping, 'typed dict': typed,
            'call': lambda: {'type': 'call', 'function': Sym('callee', 'fn', meta={'isclass': False, 'isa': ['types.FunctionType']}),
                             'arguments_schema': {'type': 'arguments', 'arguments_schema': []}},
            'tagged union': lambda: self.tagged(self.discr(0), self.discr(1)),
            'tagged union, renamed': lambda: self.tagged(self.discr(0, path='n'), self.discr(1, path='n')),
            'tagged union, different names': lambda: self.tagged(self.discr(0, path='n'), self.discr(1, path='m')),
            'tagged union, element': lambda: self.tagged(self.discr(0), self.discr(1, 'ELEMENT')),
            'tagged union, first element': lambda: self.tagged(self.discr(0, 'ELEMENT'), self.discr(1)),
            'tagged union, text': lambda: self.tagged(self.sub([self.discr(0, None)]), self.sub([self.discr(1, None)])),
            'tagged union, wrapped': lambda: self.tagged(*[self.discr(i, 'WRAPPED', path='w', wrapped=Field('', None, location='ATTRIBUTE', path='n'))
                                                           for i in (0, 1)]),
            'tagged union, no discriminator': lambda: self.tagged(self.discr(0), self.discr(1), discriminator='other'),
            'tagged union, callable': lambda: self.tagged(self.discr(0), self.discr(1), discriminator=Sym('discriminate', 'fn', meta={'isa': ['types.FunctionType'], 'isclass': False})),
            'tagged union, not models': lambda: self.tagged(dict(STR), dict(STR)),
            'tagged union, one not a model': lambda: self.tagged(self.discr(0), dict(STR)),
            'tagged union, root model': lambda: self.tagged(self.discr(0), self('root model')),
            'tagged union, optional discriminator': lambda: self.tagged(self.discr(0), Field('d', default({'type': 'literal', 'expected': ['t1']}),
                                                                                            location='ATTRIBUTE')),
        }[name]()

    def lift(self, d):
        return {la[1].v: la[2] for la in d.layers}


# family -> whether it is accepted as (text or whole element, attribute, element); None: left open
YES, NO, ELEM, NAMED = (True, True, True), (False, False, False), (True, False, True), (False, False, True)
OPEN = (None, False, True)
MODELS = ('model', 'root model', 'root model of mapping', 'root model of list')
TABLE = {**{t: YES for t in PRIMITIVES}, **{t: NO for t in FOREIGN}, 'other class': YES, 'call': NO, 'raw': ELEM,
         **{t: ELEM for t in MODELS},
         'dict': ELEM, 'typed dict': ELEM, 'dict to int': ELEM, 'dict to nullable str': ELEM, 'dict from int': ELEM, 'dict from enum': ELEM,
         'typed dict to int': ELEM, 'typed dict to nullable str': ELEM, 'typed dict to default bool': ELEM, 'typed dict computing int': ELEM,
         **{f'{d} {t}': NO for d in ('dict to', 'typed dict to', 'typed dict computing') for t in (
             'model', 'list of str', 'dict', 'typed dict', 'raw', 'tuple of str', 'nullable model', 'nullable list of str', 'any')},
         **{f'dict from {t}': NO for t in ('model', 'tuple of str', 'nullable tuple of str')},
         'union of str+int': YES, 'union of nullable str+int': YES, 'union of model+model': ELEM, 'union of model+root model': ELEM,
         'union of str+model': NO, 'union of model+str': NO, 'union of raw+model': NO, 'union of raw+raw': NO, 'union of str+list of str': NO,
         'union of model+list of model': NO, 'union of dict+dict': NO, 'union of typed dict+str': NO, 'union of tuple of str+tuple of int': NO,
         'union of nullable model+nullable str': NO, 'union of str+any': NO, 'union of raw+str': NO,
         'tagged union': ELEM, 'tagged union, renamed': ELEM, 'tagged union, optional discriminator': ELEM,
         **{f'tagged union, {t}': NO for t in ('different names', 'element', 'first element', 'text', 'wrapped', 'no discriminator', 'callable',
                                               'not models', 'one not a model', 'root model')}}
for c in ('list of', 'set of', 'frozenset of', 'variadic tuple of'):
    TABLE.update({f'{c} {t}': NAMED for t in ('str', 'bool', 'nullable str', 'dict', 'typed dict', 'raw', 'union of str+int', 'other class',
                                              'tuple of str+int', 'named tuple of str+int', 'function-before str')})
    TABLE.update({f'{c} {t}': ELEM for t in ('model', 'root model', 'nullable model', 'union of model+model', 'tagged union',
                                             'tuple of model+model', 'named tuple of model+model', 'definitions model')})
    TABLE.update({f'{c} {t}': NO for t in ('list of str', 'set of str', 'nullable list of str', 'default list of str', 'function-wrap list of model',
                                           'definitions list of model', 'any', 'dict to model', 'union of str+model', 'call',
                                           'tuple of list of str', 'tagged union, element')})
for c in ('tuple of', 'named tuple of'):
    TABLE.update({f'{c} {t}': NAMED for t in ('str+int', 'str', 'model+str', 'str+model', 'dict+typed dict', 'raw+model', 'str+raw', 'nullable str+int')})
    TABLE.update({f'{c} {t}': ELEM for t in ('model', 'model+model', 'union of model+model', 'nullable model+model')})
    TABLE.update({f'{c} {t}': OPEN for t in ('tagged union', 'named tuple of model')})
    TABLE.update({f'{c} {t}': NO for t in ('list of str', 'str+list of str', 'tuple of str', 'str+tuple of str+int', 'set of str', 'model+any',
                                           'nullable list of model', 'function-after list of str', 'str+dict to model', 'variadic tuple of str')})
TABLE['prefixed variadic tuple'] = NO
META = ('nullable', 'default', 'function-before', 'function-after', 'function-wrap', 'json-or-python', 'definitions', 'nullable default',
        'definitions nullable')
BASES = ('str', 'model', 'list of str', 'list of model', 'tuple of model+str', 'dict', 'typed dict', 'union of str+int', 'union of str+model', 'any',
         'raw', 'list of list of str', 'dict to model', 'named tuple of str')


def value_for(q, schema):
    """A value of this type and what pydantic makes of it."""
    it = q.it
    if not isinstance(schema, dict):
        schema = {la[1].v: la[2] for la in schema.layers}
    t = getattr(schema['type'], 'v', schema['type'])
    sub = lambda k: value_for(q, schema[k])  # noqa: E731
    if t in ('nullable', 'default', 'function-before', 'function-after', 'function-wrap'):
        return sub('schema')
    if t == 'json-or-python':
        return sub('python_schema')
    if t == 'definitions':
        d = schema['definitions']
        return value_for(q, d[0] if isinstance(d, list) else d.items[0])
    if t in ('list', 'set', 'frozenset', 'tuple', 'call'):
        items = schema['items_schema'] if t != 'call' else [a['schema'] for a in schema['arguments_schema']['arguments_schema']]
        items = items if isinstance(items, list) else [items, items]
        vs = [value_for(q, i) for i in items]
        new = it.lift if t in ('tuple', 'call') else lambda x: it.list_of(list(x))
        return new(tuple(v for v, _ in vs)), it.list_of([e for _, e in vs])
    if t == 'union':
        return value_for(q, schema['choices'][0])
    if t == 'tagged-union':
        return value_for(q, schema['choices']['t0'])
    if t == 'model':
        cls = schema['cls']
        if schema['root_model'].v:
            v, e = sub('schema')
            return q.s.instance(cls, {'root': v}, e, fields_set=it.new_set([Const('root')])), e
        names = [la[1].v for la in cls.attrs['model_fields'].layers]
        vals = {n: Const('t0') if n == 'd' else q.value(f'v_{n}') for n in names}
        enc = {n: Const('t0') if n == 'd' else q.str(f'e_{n}') for n in names}
        i = q.s.instance(cls, vals, enc, fields_set=it.new_set([Const(n) for n in names]))
        return i, q.s.encoded[i.key]
    if t in ('dict', 'typed-dict'):
        return it.new_dict([('kv', Const('k1'), q.value('v1'))]), it.new_dict([('kv', Const('k1'), q.str('e1'))])
    if t == 'is-instance' and schema['cls'].name != 'builtins.object':
        return el(q, q.str('raw_tag')), Const(None)
    return q.value('val'), q.str('enc')


def split(names, n):
    names = list(names)
    return [tuple(names[i::n]) for i in range(n)]


def defined(q, family, wrap, loc, name=True, root=False):
    schema = Make(q)(family)
    q.schema = schema
    at = dict(location=loc, **(dict(path='n') if loc and name else {}))
    if wrap.startswith('wrapped'):
        at = dict(location='WRAPPED', path='w1', wrapped=Field('', None, **at) if loc else None)
    if wrap == 'wrapped twice':
        at = dict(location='WRAPPED', path='w0', wrapped=Field('', None, **at))
    if root:
        return q.s.model('M', [Field('root', schema, **at)], root=True)
    if wrap == 'computed':
        return q.s.model('M', [Field('fld', schema, computed=True, **at)])
    return q.s.model('M', [Field('fld', default(nullable(schema)), **at)])


def judge(q, out, want, what):
    if want:
        q.no_raise('C23', out, 'a supported definition is accepted', what)
    else:
        q.check('C23', out[0] == 'raise', 'an unsupported definition is refused', f'{what}: accepted')


def usable(q, cls, what, root=False):
    """An accepted definition can be parsed: the document is bound or rejected by validation."""
    q.s.may_reject = False
    doc = el(q, Const('M'), [(Const('n'), q.str('attr')), (Const('d'), Const('t0'))], q.str('text'),
             [el(q, Const('n'), [(Const('d'), Const('t0'))], q.str('t')), el(q, Const('w1'), [(Const('n'), q.str('a'))], q.str('t'), [el(q, Const('n'), [], q.str('t'))])])
    out = parse(q, cls, doc)
    if out[0] == 'raise':
        q.check('C23', 'ValidationError' in q.show_exc(out[1]), 'an accepted definition can be parsed', f'{what}: {q.show_exc(out[1])}')
    else:
        q.check('C23', True, 'an accepted definition can be parsed', '')
    writable(q, cls, what, root)


def writable(q, cls, what, root=False):
    v, e = value_for(q, q.schema)
    n = 'root' if root else 'fld'
    i = q.s.instance(cls, {n: v}, e if root else {n: e}, fields_set=q.it.new_set([Const(n)]))
    q.no_raise('C23', write(q, i), 'an accepted definition can be serialized', what)


@scenario('C23', cases=[dict(part=i) for i in range(8)], max_paths=20000, deep='C24 C25')
def families(q, part):
    """Every family of types at every place."""
    wrap = q.it.pick('declared', WRAPS)
    names = split(TABLE, 8)[part]
    family = q.it.pick('type', names)
    loc = q.it.pick('place', LOCATIONS)
    want = TABLE[family][LOCATIONS.index(loc)]
    if want is None:
        return
    out = q.attempt(lambda: defined(q, family, wrap, loc))
    what = f'{family} as {loc or "text / whole element"} ({wrap})'
    judge(q, out, want, what)
    if want and out[0] == 'return':
        usable(q, out[1], what)


@scenario('C23', cases=[dict(meta=m) for m in META], max_paths=4000, deep='C24 C25')
def layers(q, meta):
    """Optional fields, defaults, validators and references do not change what is supported."""
    family = q.it.pick('type', BASES)
    loc = q.it.pick('place', LOCATIONS)
    where = q.it.pick('where', ['field', 'item'])
    name = f'{meta} {family}'
    if where == 'item':
        want = TABLE.get(f'list of {family}', (None,) * 3)[LOCATIONS.index(loc)]
        name = f'list of {name}'
    else:
        want = TABLE.get(family)[LOCATIONS.index(loc)]
    if want is None:
        return
    out = q.attempt(lambda: defined(q, name, 'plain', loc))
    judge(q, out, want, f'{name} as {loc or "text / whole element"}')


@scenario('C23', max_paths=4000, deep='C24 C25')
def roots(q):
    """Root models: an element, attribute, mapping or raw element needs a name of its own."""
    family = q.it.pick('type', ['str', 'dict', 'typed dict', 'model', 'raw', 'list of str', 'list of model', 'list of list of str', 'union of str+int',
                                'union of model+model', 'union of str+model', 'tagged union', 'tuple of str+int', 'any', 'dict to model'])
    loc = q.it.pick('place', LOCATIONS)
    wrap = q.it.pick('declared', ['plain', 'wrapped'])
    name = q.it.pick('named', [True, False])
    want = TABLE[family][LOCATIONS.index(loc)]
    if not name and want:
        if family == 'raw' or loc and family in ('str', 'dict', 'typed dict', 'list of str', 'union of str+int', 'tuple of str+int'):
            want = False
        elif loc is None and name is False:
            pass
    if family == 'raw' and loc is None:
        want = False        # there is no name to look for
    out = q.attempt(lambda: defined(q, family, wrap, loc, name, root=True))
    what = f'root: {family} as {loc or "text / whole element"} ({wrap}{"" if name else ", no name"})'
    judge(q, out, want, what)
    if want and out[0] == 'return':
        usable(q, out[1], what, True)


@scenario('C23 C32', cases=[dict(root=r) for r in (False, True)], max_paths=2000, deep='C24 C25')
def validated_models(q, root):
    """Model validators and references around a model schema do not matter."""
    it = q.it
    fn = Sym('validate', 'fn')

    def before(x):
        return it.new_dict([('kv', Const('type'), Const('function-before')), ('kv', Const('function'), fn), ('kv', Const('schema'), x)])

    def wrapper(t):
        return lambda x: it.new_dict([('kv', Const('type'), Const(t)), ('kv', Const('function'), fn), ('kv', Const('schema'), x)])

    def definitions(x):
        x.layers.append(('kv', Const('ref'), Const('r')))
        return it.new_dict([('kv', Const('type'), Const('definitions')), ('kv', Const('definitions'), it.list_of([x])),
                            ('kv', Const('schema'), it.lift({'type': 'definition-ref', 'schema_ref': 'r'}))])
    outer = {'none': None, 'after': wrapper('function-after'), 'wrap': wrapper('function-wrap'), 'before': before,
             'two': lambda x: wrapper('function-wrap')(wrapper('function-after')(x)), 'definitions': definitions,
             'definitions after': lambda x: wrapper('function-after')(definitions(x))}
    inner = {'none': None, 'before': before, 'two': lambda x: before(before(x))}
    o = q.it.pick('outside', list(outer))
    i = q.it.pick('inside', list(inner))
    use = q.it.pick('used as', ['top', 'field', 'item'])

    def build():
        fields = [Field('root', dict(STR))] if root else [Field('a', dict(STR), location='ATTRIBUTE'), Field('t', dict(STR))]
        m = q.s.model('M', fields, root=root, outer=outer[o], inside=inner[i])
        if use == 'top':
            return m, m
        sch = m.attrs['__pydantic_core_schema__']
        return m, q.s.model('Top', [Field('f', sch if use == 'field' else list_of(sch), location='ELEMENT', path='M')])
    out = q.attempt(build)
    if not q.no_raise('C23', out, 'models with validators are accepted', f'{o} / {i} ({use})'):
        return
    q.s.may_reject = False
    m, top = out[1]
    doc = el(q, Const('M'), [] if root else [(Const('a'), q.str('a_text'))], q.str('text'))
    if use != 'top':
        doc = el(q, Const('Top'), [], None, [doc])
    since = q.mark()
    r = parse(q, top, doc)
    if not q.no_raise('C23', r, 'models with validators can be parsed', f'{o} / {i} ({use})'):
        return
    evs = [e for e in q.events(since, 'model_validate') if e.recv is not None and e.recv.key == m.key]
    if root:
        q.check('C32', len(evs) == 1 and q.equal(evs[0].args[0], q.str('text')), 'root data', f'{evs}')
    else:
        d = [d for e, d in validated(q, m, since)]
        q.check('C32', len(d) == 1 and d[0] is not None and sorted(d[0]) == ['a', 't'] and q.equal(d[0]['a'], q.str('a_text'))
                and q.equal(d[0]['t'], q.str('text')), 'model data', f'{d}')
