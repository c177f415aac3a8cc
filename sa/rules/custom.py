"""C21: custom XML serializers and validators of fields."""
from ..domain import ClassV, Const, DictObj, ExtV, Inst, Sym, SynthClass
from ..engine import scenario
from ..harness import Field
from .api import call, function
from .common import *  # noqa: F401,F403
from .common import STR, default, list_of, mapping, nullable, raw, validated, write
from .reading import outcome
from .shapes import E, el, parse, same_tree

DIRS = ('serializer', 'validator')


def new_function(q, name):
    """A function that leaves a trace in the element it gets, or takes an attribute of it."""
    f = Sym(name, 'fn', meta={'isa': ['types.FunctionType', 'collections.abc.Callable', 'typing.Callable'], 'isclass': False})
    return f


def install(q, f, direction, field_names=('x',)):
    it = q.it

    def ser(e):
        el_, fname = e.args[1], e.args[3]
        it.call(it.getattr(el_, 'set_attribute'), [Const(f'{f.name}_{fname.v}'), q.str(f'out_{f.name}_{fname.v}')], {})
        return Const(None)

    def val(e):
        el_, fname = e.args[1], e.args[2]
        return it.call(it.getattr(el_, 'pop_attrib'), [Const(f'{f.name}_{fname.v}')], {})

    def guarded(e):
        try:
            return (ser if direction == 'serializer' else val)(e)
        except (IndexError, AttributeError):
            q.check('C21', False, f'custom {direction}: arguments', f'{e.args} {e.kwargs}')
            raise it_error(q)
    it.sym_calls[f.key] = guarded


def it_error(q):
    q.give_up('a custom function was called in another way')


def mark(q, direction, fields, f, form='plain'):
    """xml_field_serializer(*fields)(f)"""
    d = call(q, function(q, f'xml_field_{direction}'), *fields)
    if form == 'classmethod':
        f = q.it.new_inst(ExtV('builtins.classmethod'), {'__func__': f})
    return q.it.call(d, [f], {})


# ------------------------------------------------------------------ which function
LEVELS = ('A', 'B', 'C')


@scenario('C21 C24', cases=[dict(direction=d, where=w) for d in DIRS for w in ('hierarchy', 'two names', 'mixin', 'annotation', 'siblings')],
          max_paths=6000)
def which(q, direction, where):
    """The function that applies to a field of each class of a hierarchy."""
    q.it.set_orders = q.it.pick('iteration order of sets', [False, True])
    q.s.may_reject = False
    p = q.it.pick
    attr, meta = f'__xml_field_{direction}s__', {'serializer': 'XmlFieldSerializer', 'validator': 'XmlFieldValidator'}[direction]
    want = {}        # class -> function of x
    fns = {}

    def fn(level):
        f = fns[level] = new_function(q, f'f{level}')
        install(q, f, direction)
        return f

    def deco(level, name, form='plain', fields=('x',)):
        return {name: mark(q, direction, fields, fn(level), form)}

    def note(level):
        return q.it.call(ClassV(q.s.p.cls('pydantic_xml.fields', meta)), [fn(level)], {})

    def model(level, bases, attrs=None, metadata=()):
        fields = [Field('x', default(nullable(dict(STR))), location='ELEMENT', meta=list(metadata)),
                  Field('y', default(nullable(dict(STR))), location='ELEMENT')]
        return q.s.model(level, fields, bases=bases, attrs=attrs or {})
    out = None

    def build():
        cs = {}
        if where in ('hierarchy', 'two names'):
            names = ['first', 'second', 'third']
            cur, alive = None, {}
            for i, lv in enumerate(LEVELS):
                what = p(f'{lv}', ['nothing', 'method', 'override'] if where == 'hierarchy' else ['nothing', 'z', 'a'])
                attrs = {}
                if what == 'method':
                    attrs = deco(lv, names[i], p('form', ['plain', 'classmethod']) if direction == 'validator' and not i else 'plain')
                    alive[names[i]] = lv
                elif what in ('z', 'a'):
                    nm = what + '_method'
                    attrs = deco(lv, nm)
                    alive.pop(nm, None)
                    alive[nm] = lv
                elif what == 'override' and alive:
                    nm = list(alive)[0]
                    attrs = {nm: Sym(f'plain{lv}', 'fn', meta={'isa': ['types.FunctionType', 'collections.abc.Callable', 'typing.Callable'], 'isclass': False})}
                    alive.pop(nm)
                cs[lv] = model(lv, None if not i else [cs[LEVELS[i - 1]]], attrs)
                # the function of the most derived class wins
                want[lv] = max(alive.values()) if alive else None
        elif where == 'mixin':
            first = p('mixin', ['first', 'last'])
            m = deco('M', 'mixed')
            mix = SynthClass(q.it.new_serial(), 'Mixin', [ExtV('builtins.object')], m)
            cs['A'] = model('A', None, deco('A', 'own') if p('A', [False, True]) else {})
            cs['B'] = model('B', [mix, cs['A']] if first == 'first' else [cs['A'], mix])
            want['A'] = 'A' if 'A' in fns else None
            want['B'] = 'M' if first == 'first' or 'A' not in fns else 'A'
        elif where == 'annotation':
            base = note('A') if p('A', [False, True]) else None
            cs['A'] = model('A', None, {}, [base] if base is not None else [])
            want['A'] = want['B'] = 'A' if base is not None else None
            what = p('B', ['inherits', 'method', 'annotation'])
            attrs, md = {}, [base] if base is not None else []
            if what == 'method':
                attrs, want['B'] = deco('B', 'own'), 'B'
            elif what == 'annotation':
                md, want['B'] = [note('B')], 'B'
            cs['B'] = model('B', [cs['A']], attrs, md)
        else:
            cs['A'] = model('A', None, deco('A', 'a') if p('A', [False, True]) else {})
            want['A'] = 'A' if 'A' in fns else None
            for lv in 'BC':
                has = p(lv, ['nothing', 'a', 'b'])
                cs[lv] = model(lv, [cs['A']], deco(lv, has) if has != 'nothing' else {})
                want[lv] = lv if has != 'nothing' else want['A']
        return cs
    out = q.attempt(build)
    if not q.no_raise('C21', out, 'custom functions: the classes are defined', where):
        return
    cls = out[1]
    lv = q.it.pick('class', list(cls))
    f = want[lv]
    since = q.mark()
    if direction == 'serializer':
        w = write(q, q.s.instance(cls[lv], {'x': q.value('x'), 'y': q.value('y')}, {'x': q.str('x_enc'), 'y': q.str('y_enc')},
                                  fields_set=q.it.new_set([Const('x'), Const('y')])))
        if not q.no_raise('C21', w, 'custom serializer: serialization', ''):
            return
        same_tree(q, 'C21 C24', w[1], E(Const(lv), [(Const(f'f{f}_x'), q.str(f'out_f{f}_x'))] if f else [], None,
                                    ([] if f else [E(Const('x'), [], q.str('x_enc'))]) + [E(Const('y'), [], q.str('y_enc'))]),
                  f'{where}: the custom serializer of the class is used')
    else:
        doc = el(q, Const(lv), [(Const(f'f{k}_x'), q.str(f'in_f{k}')) for k in fns], None,
                 [el(q, Const('x'), [], q.str('text_x')), el(q, Const('y'), [], q.str('text_y'))])
        r = parse(q, cls[lv], doc)
        # the element x is left over when a custom function does not take it; strict search then does not reach y
        want_data = {'x': q.str(f'in_f{f}')} if f else {'x': q.str('text_x'), 'y': q.str('text_y')}
        outcome(q, 'C21 C24', cls[lv], r, want_data, f'{where}: the custom validator of the class is used', since)
    calls = [e for e in q.events(since) if isinstance(e.recv, Sym) and e.recv.name in [g.name for g in fns.values()]]
    q.check('C21', [e.recv.name for e in calls] == ([f'f{f}'] if f else []), f'{where}: exactly the function of the class is called',
            f'{calls} instead of {f}')


# ------------------------------------------------------------------ how it is called
PLACES = ('text', 'attr', 'attrs', 'prim', 'mapping', 'model', 'raw', 'list', 'wrapped', 'wrapped list', 'computed')


def field_of(q, place, name, **kw):
    sub = lambda: q.s.schema_of(q.s.model('Sub', [Field('t', dict(STR))]))  # noqa: E731
    schema = {'attrs': mapping, 'mapping': mapping, 'model': sub, 'raw': lambda: raw(q), 'list': lambda: list_of(dict(STR)),
              'wrapped list': lambda: list_of(dict(STR))}.get(place, lambda: dict(STR))()
    loc = {'text': None, 'attrs': None, 'attr': 'ATTRIBUTE'}.get(place, 'ELEMENT')
    if place.startswith('wrapped'):
        return Field(name, default(nullable(schema)), location='WRAPPED', path='w', wrapped=Field('', None, location='ELEMENT'), **kw)
    if place == 'computed':
        return Field(name, nullable(schema), location='ELEMENT', computed=True)
    return Field(name, default(nullable(schema)), location=loc, **kw)


@scenario('C21', cases=[dict(direction=d, place=pl) for d in DIRS for pl in PLACES if (d, pl) != ('validator', 'computed')], max_paths=4000, deep='C24 C25')
def used(q, direction, place):
    """The custom function replaces the default one for every kind of field, at the root and in a sub-model."""
    q.s.may_reject = False
    p = q.it.pick
    two = p('fields', ['x', 'x and y'])
    fields = ('x', 'y') if two == 'x and y' else ('x',)
    if two == 'x and y' and place not in ('prim', 'list'):
        fields = ('x', 'a')
    kind = p('declared', ['method', 'annotation']) if place != 'computed' else 'method'
    alias = p('alias', [False, True]) if direction == 'validator' else False
    depth = p('depth', ['root', 'sub-model', 'list of sub-models'])
    f = new_function(q, 'fn')
    q.it.sym_calls[f.key] = lambda e: act(q, e)
    results = []

    def act(q, e):
        if direction == 'serializer' and len(e.args) == 4 and isinstance(e.args[3], Const):
            q.it.call(q.it.getattr(e.args[1], 'set_attribute'), [Const(f'by_{e.args[3].v}'), q.str('out')], {})
            return q.value('ignored')
        if direction == 'validator' and len(e.args) == 3 and isinstance(e.args[2], Const):
            q.it.call(q.it.getattr(e.args[1], 'pop_attrib'), [Const('taken')], {})
            r = Const(None) if outcome_ == 'None' else q.value(f'result_{e.args[2].v}')
            results.append(r)
            return r
        q.check('C21', False, f'custom {direction}: arguments', f'{e.args} {e.kwargs}')
        it_error(q)
    meta = {'serializer': 'XmlFieldSerializer', 'validator': 'XmlFieldValidator'}[direction]
    outcome_ = p('result', ['value', 'None']) if direction == 'validator' else 'value'
    val = p('value', ['value', 'None']) if direction == 'serializer' else 'value'
    flags = p('flags', ['none', 'skip_empty', 'exclude_none', 'exclude_unset']) if direction == 'serializer' else 'none'
    unset = flags == 'exclude_unset' and p('set', [True, False]) is False
    names = {'x': 'x', 'a': 'a', 'y': 'y'}
    kw = {n: {} for n in names}
    if alias:
        kw['x'] = dict(val_alias='x_alias')

    def build():
        attrs = {}
        if kind == 'method':
            attrs['custom'] = mark(q, direction, fields, f)
        else:
            for n in fields:
                kw[n]['meta'] = [q.it.call(ClassV(q.s.p.cls('pydantic_xml.fields', meta)), [f], {})]
        fl = [Field('a', default(nullable(dict(STR))), location='ATTRIBUTE', **kw['a']), field_of(q, place, 'x', **kw['x']),
              Field('y', default(nullable(dict(STR))), location='ELEMENT', **kw['y'])]
        m = q.s.model('M', fl, attrs=attrs, settings=dict(search_mode=q.it.enum_member(q.s.SM, 'UNORDERED')))
        if depth == 'root':
            return m, m
        return m, q.s.model('Top', [Field('m', q.s.schema_of(m) if depth == 'sub-model' else list_of(q.s.schema_of(m)), location='ELEMENT', path='M')])
    out = q.attempt(build)
    if not q.no_raise('C21', out, 'custom functions: the class is defined', place):
        return
    m, top = out[1]
    since = q.mark()
    if direction == 'serializer':
        xv = Const(None) if val == 'None' else q.value('x')
        inst = q.s.instance(m, {'a': q.value('a'), 'x': xv, 'y': q.value('y')}, {'a': q.str('a_enc'), 'x': Const(None) if val == 'None' else q.value('x_enc'), 'y': q.str('y_enc')},
                            fields_set=q.it.new_set([Const(n) for n in 'axy' if n != 'x' or not unset]))
        t = inst
        if depth != 'root':
            v = inst if depth == 'sub-model' else q.it.list_of([inst])
            enc = q.s.encoded[inst.key]
            t = q.s.instance(top, {'m': v}, {'m': enc if depth == 'sub-model' else q.it.list_of([enc])}, fields_set=q.it.new_set([Const('m')]))
        w = write(q, t, **({flags: True} if flags != 'none' else {}))
        if not q.no_raise('C21', w, 'custom serializer: serialization', ''):
            return
        use = [n for n in fields if not (n == 'x' and unset)]
        e = E(Const('M'), [(Const(f'by_{n}'), q.str('out')) for n in use]
              + ([(Const('a'), q.str('a_enc'))] if 'a' not in fields else []), None,
              [E(Const('y'), [], q.str('y_enc'))] if 'y' not in fields else [])
        if place == 'computed' and flags == 'exclude_unset':
            return
        calls = [c for c in q.events(since) if c.recv is not None and c.recv.key == f.key]
        q.check('C21', [c.args[3].v for c in calls] == sorted(use, key='axy'.index), f'{place}: the serializer is called once per field', f'{calls}')
        for c in calls:
            q.same('C21', c.args[0], inst, f'{place}: the serializer gets the model')
            want = {'a': q.value('a'), 'x': xv, 'y': q.value('y')}[c.args[3].v]
            q.same('C21', c.args[2], want, f'{place}: the serializer gets the value of the field')
        got = q.children(w[1])[0] if depth != 'root' and q.children(w[1]) else w[1]
        if depth != 'root':
            e.tag = got.attrs['tag']
        same_tree(q, 'C21', got, e, f'{place}: only the custom serializer writes the field')
        return
    # documents in which the default way would find something too
    content = {'x': [el(q, Const('x'), [], q.str('default'))], 'w': [el(q, Const('w'), [], None, [el(q, Const('x'), [], q.str('default'))])]}
    ch = content['w' if place.startswith('wrapped') else 'x']
    inner = el(q, Const('M'), [(Const('a'), q.str('a_text')), (Const('x'), q.str('default')), (Const('taken'), q.str('t'))], q.str('some text'),
               ch + [el(q, Const('y'), [], q.str('y_text'))])
    doc = inner
    if depth != 'root':
        doc = el(q, Const('Top'), [], None, [inner])
    r = parse(q, top, doc)
    if not q.no_raise('C21', r, 'custom validator: parsing', place):
        return
    calls = [c for c in q.events(since) if c.recv is not None and c.recv.key == f.key]
    q.check('C21', [c.args[2].v for c in calls] == sorted(fields, key='axy'.index), f'{place}: the validator is called once per field', f'{calls}')
    for c in calls:
        q.check('C21', c.args[0].key == m.key, f'{place}: the validator gets the model class', f'{c.args[0]!r}')
    want = {'a': q.str('a_text'), 'y': q.str('y_text')}
    for n in fields:
        want.pop(n, None)
        if outcome_ != 'None':
            want['x_alias' if n == 'x' and alias else n] = q.value(f'result_{n}')
    data = [d for e, d in validated(q, m, since)]
    from .reading import dict_differs
    diff = dict_differs(q, data[0], want, since) if len(data) == 1 and data[0] is not None else f'{data}'
    q.check('C21', None if diff and diff[0] == '?' else not diff, f'{place}: the result of the validator is validated', f'{diff}')
