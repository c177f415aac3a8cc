"""C29: the mypy plugin and the declarations type checkers read."""
import ast

from ..domain import Const, ExtV, FuncV, Inst, NONE
from ..engine import scenario

N = 'mypy.nodes.'
SUPER = 'pydantic.mypy.PydanticModelTransformer.'
PUBLIC = ('attr', 'element', 'wrapped')
FIELD = 'pydantic.fields.Field'


def public(q, name):
    """(full name type checkers know the function by, the function)"""
    r = q.s.p.resolve('pydantic_xml', name)
    if r is None or r[0] != 'func':
        return None, None
    return f'{r[1].module.name}.{r[1].qualname}', r[1]


class Nodes:
    """Expressions of a checked program."""

    def __init__(self, q):
        self.q = q

    def new(self, kind, **attrs):
        return self.q.it.new_inst(ExtV(N + kind), attrs)

    def name(self, fullname, kind='NameExpr'):
        return self.new(kind, fullname=Const(fullname), name=Const(fullname.split('.')[-1]))

    def true(self):
        return self.name('builtins.True')

    def false(self):
        return self.name('builtins.False')

    def none(self):
        return self.name('builtins.None')

    def dots(self):
        return self.new('EllipsisExpr')

    def text(self, s):
        return self.new('StrExpr', value=Const(s))

    def call(self, callee, *args):
        """args: (name or None, expression)"""
        it = self.q.it
        return self.new('CallExpr', callee=callee, args=it.list_of([a for _, a in args]),
                        arg_names=it.list_of([Const(n) for n, _ in args]), arg_kinds=it.list_of([Const(0 if n is None else 3) for n, _ in args]))

    def stmt(self, rvalue):
        return self.new('AssignmentStmt', lvalues=self.q.it.list_of([self.name('x')]), rvalue=rvalue)


def is_a(v, *kinds):
    return isinstance(v, Inst) and isinstance(v.cls, ExtV) and v.cls.name in [N + k for k in kinds]


def args_of(call):
    return list(zip([x[1] for x in call.attrs['args'].segs], [x[1].v for x in call.attrs['arg_names'].segs]))


def const(v, name):
    return is_a(v, 'NameExpr') and v.attrs['fullname'] == Const('builtins.' + name)


def is_call(e, names):
    return is_a(e, 'CallExpr') and is_a(e.attrs['callee'], 'RefExpr', 'NameExpr', 'MemberExpr') and e.attrs['callee'].attrs['fullname'].v in names


def pydantic_rules(which, e):
    """What the plugin of pydantic says about a field declared as e."""
    field = is_call(e, (FIELD,))
    if which == 'get_has_default':
        if is_a(e, 'TempNode'):
            return False
        if field:
            for a, n in args_of(e):
                if n in (None, 'default'):
                    return not is_a(a, 'EllipsisExpr')
                if n == 'default_factory':
                    return not const(a, 'None')
            return False
        return not is_a(e, 'EllipsisExpr')
    if which == 'get_alias_info':
        if field:
            for w in ('validation_alias', 'alias'):
                for a, n in args_of(e):
                    if n == w:
                        return (a.attrs['value'].v, False) if is_a(a, 'StrExpr') else (None, True)
        return None, False
    w = {'get_strict': 'strict', 'is_field_frozen': 'frozen'}[which]
    none = None if w == 'strict' else False
    if field:
        for a, n in args_of(e):
            if n == w:
                return True if const(a, 'True') else False if const(a, 'False') else none
    return none


def lift(q, v):
    from ..domain import TupleV
    return TupleV.of([Const(x) for x in v]) if isinstance(v, tuple) else Const(v)


def transformer(q):
    """The transformer of the plugin, as mypy and pydantic reach it; None if it cannot be followed."""
    it = q.it
    made = []
    q.s.inherited['transform'] = lambda recv, a, k: made.append(recv) or NONE
    for which in ('get_has_default', 'get_alias_info', 'get_strict', 'is_field_frozen'):
        it.ext[SUPER + which] = lambda it_, a, k, w=which: lift(q, pydantic_rules(w, a[-1].attrs['rvalue']))
        q.s.inherited[which] = lambda recv, a, k, w=which: lift(q, pydantic_rules(w, a[-1].attrs['rvalue']))
    it.ext[N + 'AssignmentStmt'] = lambda it_, a, k: it.new_inst(ExtV(N + 'AssignmentStmt'), {
        'lvalues': a[0] if a else k['lvalues'], 'rvalue': a[1] if len(a) > 1 else k['rvalue']})
    cls = it.call(FuncV(q.s.p.func('pydantic_xml.mypy', 'plugin')), [q.str('version')], {})
    plugin = it.call(cls, [q.value('options')], {})
    ctx = it.new_inst(ExtV('mypy.plugin.ClassDefContext'), {'cls': q.value('cls'), 'reason': q.value('reason'), 'api': q.value('api')})
    it.setattr(plugin, 'plugin_config', q.value('plugin config'))
    hook = it.getattr(plugin, '_pydantic_model_class_maker_callback')
    it.call(hook, [ctx], {})
    return made


@scenario('C29')
def hooks(q):
    """The plugin transforms the classes made by the metaclass of the library."""
    it = q.it
    made = q.attempt(lambda: transformer(q))
    if not q.no_raise('C29', made, 'models are transformed by the plugin', ''):
        return
    q.check('C29', len(made[1]) == 1, 'models are transformed by the plugin', f'{len(made[1])} transformations')
    plugin = it.call(it.call(FuncV(q.s.p.func('pydantic_xml.mypy', 'plugin')), [q.str('version')], {}), [q.value('options')], {})
    q.s.inherited['get_metaclass_hook'] = lambda recv, a, k: ExtV('hook of pydantic')
    it.ext['pydantic.mypy.PydanticPlugin.get_metaclass_hook'] = lambda it_, a, k: ExtV('hook of pydantic')
    meta = q.s.META
    f = it.getattr(plugin, '_pydantic_model_metaclass_marker_callback')
    for name, want in ((f'{meta.module.name}.{meta.qualname}', f), ('pydantic._internal._model_construction.ModelMetaclass', ExtV('hook of pydantic'))):
        r = q.attempt(lambda: it.call(it.getattr(plugin, 'get_metaclass_hook'), [Const(name)], {}))
        if q.no_raise('C29', r, 'the metaclass is recognised', name):
            q.check('C29', r[1].key == want.key or repr(r[1]) == repr(want), 'the metaclass is recognised', f'{name}: {r[1]!r}')


VALUES = {
    'get_has_default': {'default': ('text', 'dots', 'none'), 'default_factory': ('function', 'none', 'call')},
    'get_alias_info': {'alias': ('text', 'function'), 'validation_alias': ('text', 'call')},
    'get_strict': {'strict': ('true', 'false', 'function')},
    'is_field_frozen': {'frozen': ('true', 'false', 'function')},
}


def value(n, kind):
    return {'text': lambda: n.text('value'), 'dots': n.dots, 'none': n.none, 'true': n.true, 'false': n.false,
            'function': lambda: n.name('builtins.list'), 'call': lambda: n.call(n.name('pydantic.aliases.AliasPath'), (None, n.text('value')))}[kind]()


def arguments(q, n, which, name, given, vary):
    """Arguments of one call: those of the library, then / before the one that matters."""
    p = q.it.pick
    pos = {'attr': ['name'], 'element': ['tag'], 'wrapped': ['path']}.get(name, [])
    out = [(None, n.text('p')) for _ in pos]
    more = p('other arguments', ['none', 'before', 'after', 'unrelated keywords']) if vary else 'none'
    if more == 'before':
        out += [('ns', n.text('ns'))]
    if more == 'unrelated keywords':
        out += [('title', n.dots()), ('description', n.none()), ('exclude', n.true()), ('serialization_alias', n.text('other'))]
    for k, v in given:
        out.append((k, value(n, v)))
    if more == 'after':
        out += [('nsmap', n.new('DictExpr')), ('repr', n.false())]
    return out


def outcome(which, given):
    """What the arguments of one call say (None: nothing)."""
    given = dict(given)
    if which == 'get_has_default':
        if 'default' in given:
            return given['default'] != 'dots'
        if 'default_factory' in given:
            return given['default_factory'] != 'none'
        return None
    if which == 'get_alias_info':
        k = 'validation_alias' if 'validation_alias' in given else 'alias'
        return None if k not in given else ('value', False) if given[k] == 'text' else (None, True)
    k = 'strict' if which == 'get_strict' else 'frozen'
    if k not in given:
        return None
    return {'true': True, 'false': False}.get(given[k], None if k == 'strict' else False)


NOTHING = {'get_has_default': False, 'get_alias_info': (None, False), 'get_strict': None, 'is_field_frozen': False}


def given_of(q, which):
    p = q.it.pick
    vals = VALUES[which]
    k = p('argument', ['-', *vals, *(['alias and validation_alias'] if which == 'get_alias_info' else [])])
    if k == '-':
        return []
    if k == 'alias and validation_alias':
        pair = [('alias', 'function'), ('validation_alias', 'text')]
        return pair if p('order', [0, 1]) else pair[::-1]
    return [(k, p(k, list(vals[k])))]


@scenario('C29', cases=[dict(which=w, form=f) for w in VALUES for f in ('plain', 'wrapped', 'twice', 'others')], max_paths=4000)
def declarations(q, which, form):
    """What the plugin concludes from a field declaration."""
    it, p = q.it, q.it.pick
    n = Nodes(q)
    made = transformer(q)
    if len(made) != 1:
        q.check('C29', None, 'the plugin reads the declaration of a field', 'no transformer')
        return
    want = None
    if form == 'others':
        kind = p('declaration', ['annotation only', 'ellipsis', 'value', 'other function', 'private name', 'computed', 'call of a call', 'pydantic', 'pydantic positional'])
        given = given_of(q, which) if kind not in ('annotation only', 'ellipsis', 'value', 'pydantic positional') else []
        args = [(k, value(n, v)) for k, v in given]
        e = {'annotation only': lambda: n.new('TempNode'), 'ellipsis': n.dots, 'value': lambda: n.text('value'),
             'other function': lambda: n.call(n.name('user.element'), (None, n.text('p')), *args),
             'private name': lambda: n.call(n.name('user.attr', 'MemberExpr'), *args),
             'computed': lambda: n.call(n.name('pydantic_xml.fields.computed_element'), *args),
             'call of a call': lambda: n.call(n.call(n.name('user.maker')), *args),
             'pydantic': lambda: n.call(n.name(FIELD), *args),
             'pydantic positional': lambda: n.call(n.name(FIELD), (None, n.dots() if p('positional', [0, 1]) else n.text('v'))),
             }[kind]()
        want = pydantic_rules(which, e)
        what = kind
    else:
        kind = p('reference', ['NameExpr', 'MemberExpr']) if form == 'plain' else 'MemberExpr' if form == 'twice' else 'NameExpr'
        if form == 'plain':
            levels = [p('function', list(PUBLIC))]
        else:
            levels = ['wrapped'] * (1 if form == 'wrapped' else 2) + [p('function', ['attr', 'element', 'wrapped', 'pydantic'])]
        at = p('declared by', list(range(len(levels))))
        given = given_of(q, which)
        what = f'{"(".join(levels)}: {given} on {levels[at]}'
        e = None
        for i in range(len(levels) - 1, -1, -1):
            name = levels[i]
            own = given if i == at else []
            if name == 'pydantic':
                e = n.call(n.name(FIELD), *[(k, value(n, v)) for k, v in own])
                continue
            full, fn = public(q, name)
            if fn is None:
                q.check('C29', None, 'the plugin reads the declaration of a field', f'{name} is not a function')
                return
            args = arguments(q, n, which, name, own, i == at and form == 'plain')
            if e is not None:
                how = p('entity', ['positional', 'keyword, last', 'keyword, first']) if i == 0 else 'positional'
                if fn.params[:2] == ['path', 'entity'] and how == 'positional':
                    args = args[:1] + [(None, e)] + args[1:]
                else:
                    args = args + [('entity', e)] if how == 'keyword, last' else args[:1] + [('entity', e)] + args[1:]
            elif name == 'wrapped' and form == 'plain' and p('no entity', ['nothing', 'None']) == 'None':
                args = args[:1] + [(None, n.none())] + args[1:]
            e = n.call(n.name(full, kind), *args)
        want = outcome(which, given)
        if want is None:
            want = NOTHING[which]
    r = q.attempt(lambda: it.call(it.getattr(made[0], which), [n.stmt(e)], {}))
    rule = {'get_has_default': 'defaults of fields are recognised', 'get_alias_info': 'aliases of fields are recognised',
            'get_strict': 'strictness of fields is recognised', 'is_field_frozen': 'frozen fields are recognised'}[which]
    if q.no_raise('C29', r, rule, what):
        q.same('C29', r[1], lift(q, want), rule, what)


@scenario('C29')
def declared(q):
    """What type checkers without the plugin are told: field specifiers of the metaclasses and parameters of the functions."""
    pr = q.s.p
    funcs = {n: public(q, n)[1] for n in PUBLIC}
    q.check('C29', all(funcs.values()), 'the field functions are exported', repr([n for n, f in funcs.items() if f is None]))
    for name, f in funcs.items():
        if f is None:
            continue
        for w in ('default', 'default_factory'):
            q.check('C29', w in f.kwonly, 'field functions declare the parameters type checkers look for', f'{name}: {w}')
        if name != 'wrapped':
            q.check('C29', f.kwarg is not None or 'alias' in f.kwonly, 'field functions declare the parameters type checkers look for', f'{name}: alias')
    for meta, kw_only in ((q.s.META, True), (q.s.RMETA, False)):
        d = [d for d in meta.decorator_nodes if isinstance(d, ast.Call) and
             (d.func.attr if isinstance(d.func, ast.Attribute) else getattr(d.func, 'id', '')) == 'dataclass_transform']
        if len(d) != 1:
            q.check('C29', False if not d and meta is q.s.META else None, 'type checkers know the field functions', f'{meta.name}: {len(d)} dataclass_transform')
            continue
        kw = {k.arg: k.value for k in d[0].keywords}
        specs = kw.get('field_specifiers')
        if not isinstance(specs, (ast.Tuple, ast.List)):
            q.check('C29', False if specs is None else None, 'type checkers know the field functions', f'{meta.name}: field_specifiers')
            continue
        got = [pr.resolve_expr(meta.module, x) for x in specs.elts]
        for name, f in funcs.items():
            q.check('C29', any(g and g[0] == 'func' and g[1] is f for g in got), 'type checkers know the field functions', f'{meta.name}: {name}')
        q.check('C29', any(g and g[0] == 'ext' and g[1] in ('pydantic.Field', FIELD) for g in got), 'type checkers know the field functions', f'{meta.name}: Field')
        k = kw.get('kw_only_default')
        v = k.value if isinstance(k, ast.Constant) else False if k is None else None
        q.check('C29', None if v is None else v is kw_only, 'models take keywords, root models also their value', f'{meta.name}: kw_only_default={v}')
