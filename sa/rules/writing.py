"""C15-C18, C33, C34, C20: what is written for every field kind, value and combination of flags."""
from ..domain import Const, Inst
from ..engine import scenario
from ..harness import Field
from .common import *  # noqa: F401,F403
from .common import XSI_NIL, STR, namedtuple_of, union_of, default, list_of, mapping, nullable, raw, tuple_of, write, SERIALIZATION_ERROR
from .shapes import E, el, same_tree

NONE = 'None'


def element_kinds():
    return ('prim', 'mapping', 'model', 'raw')


# values of a mapping: key, value, encoded value, what is written
MIXED = [('m1', None, None, ''), ('m2', 5, 17, '17'), ('m3', '', '', ''), ('m4', False, False, 'false'), ('m5', 0, 0, '0'), ('m6', 1.5, 2.5, '2.5')]


class Case:
    """One field value and what has to be written for it."""
    union = False

    def __init__(self, q, kind, wrapped, collection=None):
        self.q, self.kind, self.wrapped, self.collection = q, kind, wrapped, collection
        it = q.it
        self.nillable = it.pick('nillable', [None, True]) if kind in ('prim', 'model') else None
        self.name = Const('fld')

    def schema(self):
        q = self.q
        if self.kind in ('mapping', 'attrs'):
            return mapping()
        if self.kind == 'raw':
            return raw(q)
        if self.union:
            return union_of(dict(STR), {'type': 'int'}, {'type': 'function-after', 'schema': {'type': 'float'}})
        if self.kind == 'model':
            self.Sub = q.s.model('Sub', [Field('x', default(nullable(dict(STR))), location='ATTRIBUTE')], ref='Sub')
            self.Sub.attrs['__xml_tag__'] = Const(None)
            return q.s.schema_of(self.Sub)
        return dict(STR)

    def values(self):
        return {'prim': [NONE, '', 'str', 'true', 'false', 'int', 'zero'], 'text': [NONE, 'str', 'true', 'false', 'int', 'zero'],
                'attr': [NONE, '', 'str', 'true', 'false', 'int', 'zero'],
                'mapping': [NONE, 'empty', 'one', 'two', 'mixed'], 'attrs': [NONE, 'empty', 'one', 'two', 'mixed'],
                'model': [NONE, 'empty', 'full'], 'raw': [NONE, 'empty', 'full']}[self.kind]

    def make(self, case, n=''):
        """(value, encoded)"""
        q, it = self.q, self.q.it
        if case == NONE:
            return Const(None), Const(None)
        k = self.kind
        if k in ('prim', 'attr', 'text'):
            if case == '':
                return Const(''), Const('')
            if case == 'str':
                return q.str('val' + n), q.str('enc' + n)
            if case in ('true', 'false'):
                return Const(case == 'true'), Const(case == 'true')
            return (Const(0), Const(0)) if case == 'zero' else (Const(5), Const(17))
        if k in ('mapping', 'attrs'):
            keys = dict(empty=[], one=['k1'], two=['k1', 'k2'], mixed=[])[case]
            if case == 'mixed':
                return (it.new_dict([('kv', Const(x), Const(v)) for x, v, _, _ in MIXED]),
                        it.new_dict([('kv', Const(x), Const(v)) for x, _, v, _ in MIXED]))
            return (it.new_dict([('kv', Const(x), q.value(f'v{n}_{x}')) for x in keys]),
                    it.new_dict([('kv', Const(x), q.str(f'e{n}_{x}') if x == 'k1' else Const(True)) for x in keys]))
        if k == 'model':
            x, e = (Const(None), Const(None)) if case == 'empty' else (q.value('sub' + n), q.str('sub_enc' + n))
            return (q.s.instance(self.Sub, {'x': x}, {'x': e}, fields_set=it.new_set([Const('x')])),
                    it.new_dict([('kv', Const('x'), e)]))
        tag = q.str('raw_tag' + n)
        if case == 'empty':
            return el(q, tag), Const(None)
        return el(q, tag, [(q.str('raw_attr'), q.str('raw_value'))], q.str('raw_text'), [el(q, q.str('raw_sub'), tail=q.str('raw_tail'))]), Const(None)

    def lexical(self, case, n=''):
        return {NONE: Const(''), '': Const(''), 'str': self.q.str('enc' + n), 'true': Const('true'), 'false': Const('false'),
                'int': Const('17'), 'zero': Const('0')}[case]

    def written(self, case, se, en, sub_se=None, n='', value=None):
        """[(place, ...)]: what this value adds to the element: ('text', v) | ('attr', n, v) | ('child', E); None: not specified"""
        k = self.kind
        none = case == NONE
        if none and (se or en):
            if k == 'model' and self.nillable and se and not en:
                return None
            return []
        if k == 'text':
            return [('text', self.lexical(case, n))]
        if k == 'attr':
            return [('attr', self.name, self.lexical(case, n))]
        if k == 'prim':
            if none:
                return [('child', E(self.name, [(Const(XSI_NIL), Const('true'))] if self.nillable else [], Const('')))]
            if case == '' and se:
                return []
            return [('child', E(self.name, [], self.lexical(case, n)))]
        if k in ('mapping', 'attrs'):
            if case == 'mixed' and (se or en):
                return None     # whether None values of a mapping are left out is not specified
            keys = dict(empty=[], one=['k1'], two=['k1', 'k2'], mixed=[], **{NONE: []})[case]
            at = [(Const(x), Const(v)) for x, _, _, v in MIXED] if case == 'mixed' else [(Const(x), self.q.str(f'e{n}_{x}') if x == 'k1' else Const('true')) for x in keys]
            if k == 'attrs':
                return [('attr', a, v) for a, v in at]
            if se and not at:
                return []
            return [('child', E(self.name, at))]
        if k == 'model':
            if none:
                return [('child', E(self.name, [(Const(XSI_NIL), Const('true'))]))] if self.nillable else []
            # the sub-model decides with its own flag
            eff = se if sub_se is None else sub_se
            at = [(Const('x'), self.q.str('sub_enc' + n))] if case == 'full' else [] if eff or en else [(Const('x'), Const(''))]
            if se and not at:
                return []
            return [('child', E(self.name, at))]
        if none:
            return []
        if case == 'empty' and se:
            return []
        return [('child', value)]


def field_of(case, schema):
    loc = dict(attr='ATTRIBUTE', text=None, attrs=None).get(case.kind, 'ELEMENT')
    kw = dict(location=loc, nillable=case.nillable)
    if case.wrapped:
        kw = dict(location='WRAPPED', path='w1/w2', wrapped=Field('', None, **kw) if loc is not None else None)
    return Field('fld', schema, **kw)


def flags(q, own):
    p = q.it.pick
    se = p('skip_empty', [False, True])
    en = p('exclude_none', [False, True])
    eff = se if own is None else own
    return own, se, en, eff


def siblings(q):
    return ([Field('pre', dict(STR), location='ATTRIBUTE')],
            [Field('post', dict(STR), location='ATTRIBUTE'), Field('last', dict(STR), location='ELEMENT')])


def assemble(q, adds, wrapped, present=('pre', 'post', 'last')):
    """Expected root element from the additions of the field."""
    root = E(Const('M'))
    target = root
    if 'pre' in present:
        root.attrs.append((Const('pre'), q.str('pre_enc')))
    if wrapped and wrapped != 'absent':
        w2 = E(Const('w2'))
        root.children.append(E(Const('w1'), children=[w2]))
        target = w2
    for a in adds:
        if a[0] == 'text':
            target.text = a[1]
        elif a[0] == 'attr':
            target.attrs.append((a[1], a[2]))
        else:
            target.children.append(a[1])
    if 'post' in present:
        root.attrs.append((Const('post'), q.str('post_enc')))
    if 'last' in present:
        root.children.append(E(Const('last'), [], q.str('last_enc')))
    return root


def instance(q, cls, v, e, fields_set=None, drop=()):
    vals = {'pre': q.value('pre'), 'fld': v, 'post': q.value('post'), 'last': q.value('last')}
    encs = {'pre': q.str('pre_enc'), 'fld': e, 'post': q.str('post_enc'), 'last': q.str('last_enc')}
    names = ['pre', 'fld', 'post', 'last'] if fields_set is None else fields_set
    return q.s.instance(cls, vals, encs, fields_set=q.it.new_set([Const(n) for n in names]))


KINDS = ('text', 'attr', 'attrs', 'prim', 'mapping', 'model', 'raw')
WRITE = 'C01 C15 C16 C17 C18 C33 C34 C24 C25'


@scenario(WRITE, cases=[dict(kind=k, wrapped=w) for k in KINDS for w in (False, True)] + [
    dict(kind=k, wrapped=w, union=True) for k in ('text', 'attr', 'prim') for w in (False, True)], max_paths=20000, deep='C24 C25')
def values(q, kind, wrapped, union=False):
    """Every value of every kind under every combination of flags, with other fields around it."""
    c = Case(q, kind, wrapped)
    c.union = union
    own = q.it.pick('skip_empty of the model', [None, True, False])
    before, after = siblings(q)
    cls = q.s.model('M', before + [field_of(c, default(nullable(c.schema())))] + after,
                    settings={} if own is None else dict(skip_empty=own))
    own, se, en, eff = flags(q, own)
    case = q.it.pick('value', c.values())
    v, e = c.make(case)
    out = write(q, instance(q, cls, v, e), skip_empty=se, exclude_none=en)
    if not q.no_raise('C16', out, f'{kind}: serialization succeeds', f'value {case}, skip_empty={se}/{own}, exclude_none={en}'):
        return
    adds = c.written(case, eff, en, value=v)
    w = wrapped
    if wrapped and (case == NONE or eff and (case == '' or case == 'empty' and kind in ('mapping', 'attrs'))):
        adds, w = [], 'absent'        # an absent wrapped value leaves no trace
    elif wrapped and adds == []:
        adds = None                   # whether the wrapping elements stay is not specified
    if adds is None:
        return
    pids = 'C16'
    if case == NONE and c.nillable:
        pids += ' C17'
    elif c.nillable:
        pids += ' C17'
    if kind not in ('raw', 'model') and case != NONE:
        pids += ' C18'
    if own is not None:
        pids += ' C15'
    if wrapped:
        pids += ' C34'
    pids += ' C33 C01'
    same_tree(q, pids, out[1], assemble(q, adds, w), f'{kind}: what is written')


@scenario('C16 C15 C33 C24 C25', cases=[dict(kind=k) for k in KINDS], max_paths=4000, deep='C24 C25')
def unset(q, kind):
    """exclude_unset leaves out exactly the fields which were not set."""
    c = Case(q, kind, False)
    eu = q.it.pick('exclude_unset', [True, False])
    case = q.it.pick('value', [x for x in c.values() if x not in (NONE, 'empty', '')][:1])
    is_set = q.it.pick('field set', [True, False])
    last_set = q.it.pick('other field set', [True, False])
    before, after = siblings(q)
    cls = q.s.model('M', before + [field_of(c, default(nullable(c.schema())))] + after)
    v, e = c.make(case)
    names = ['pre', 'post'] + (['fld'] if is_set else []) + (['last'] if last_set else [])
    out = write(q, instance(q, cls, v, e, names), exclude_unset=eu)
    if not q.no_raise('C16', out, f'{kind}: serialization succeeds', f'exclude_unset={eu}'):
        return
    adds = c.written(case, False, False, value=v) if is_set or not eu else []
    present = ['pre', 'post'] + (['last'] if last_set or not eu else [])
    same_tree(q, 'C16 C33', out[1], assemble(q, adds, False, present), f'{kind}: exclude_unset')


# ------------------------------------------------------------------ collections
ITEMS = ('prim', 'mapping', 'model', 'raw')


def item_cases(c):
    return {'prim': [NONE, 'str', '', 'false', 'zero'], 'mapping': ['one', 'empty'], 'model': [NONE, 'full', 'empty'], 'raw': ['full']}[c.kind]


@scenario('C16 C15 C30 C18 C17 C24 C25', cases=[dict(kind=k, coll=x, wrapped=w) for k in ITEMS for x in ('list', 'tuple', 'named')
                                        for w in ((False, True) if x == 'list' else (False,))], max_paths=20000)
def collections(q, kind, coll, wrapped):
    """Every collection of up to two items (fixed-size ones: two items), every item value and flag."""
    c = Case(q, kind, wrapped)
    p = q.it.pick
    own = p('skip_empty of the model', [None, True, False])
    before, after = siblings(q)
    s = c.schema()
    s = nullable(s) if kind in ('prim', 'model') else s
    s = {'list': lambda: list_of(s), 'tuple': lambda: tuple_of(s, s), 'named': lambda: namedtuple_of(s, s)}[coll]()
    f = field_of(c, default(nullable(s)))
    cls = q.s.model('M', before + [f] + after, settings={} if own is None else dict(skip_empty=own))
    own, se, en, eff = flags(q, own)
    n = p('items', [2, 0, 1, NONE] if coll == 'list' else [2, NONE, 1, 3])
    cs = [p(f'item {i}', item_cases(c)) for i in range(n)] if n in (1, 2) and (coll == 'list' or n == 2) else \
        [item_cases(c)[-1]] * (0 if n == NONE else n)
    made = [c.make(x, str(i)) for i, x in enumerate(cs)]
    if n == NONE:
        v, e = Const(None), Const(None)
    else:
        v = q.it.list_of([m[0] for m in made]) if coll == 'list' else q.it.lift(tuple(m[0] for m in made))
        e = q.it.list_of([m[1] for m in made])
    out = write(q, instance(q, cls, v, e), skip_empty=se, exclude_none=en)
    if coll != 'list' and n in (1, 3):
        q.raises('C30', out, (SERIALIZATION_ERROR,), f'{coll}: a value of another length is refused', f'{n} values for 2 items')
        return
    if not q.no_raise('C16', out, f'{coll} of {kind}: serialization succeeds', f'{cs}, skip_empty={se}/{own}, exclude_none={en}'):
        return
    adds = []
    for i, x in enumerate(cs):
        a = [] if x == NONE and eff and coll == 'list' else c.written(x, eff, en, n=str(i), value=made[i][0])
        if a is None:
            return
        adds += a
    w = wrapped
    if wrapped and (n == NONE or n == 0 and eff):
        w = 'absent'
    elif wrapped and not adds and n != 0:
        return
    same_tree(q, 'C30 C16' + (' C15' if own is not None else ''), out[1], assemble(q, adds, w), f'{coll} of {kind}: what is written')


# ------------------------------------------------------------------ flags on their way down
def sub_model(q, name='Sub', own=None, tagged=None, tag=None):
    fs = [Field('x', default(nullable(dict(STR))), location='ATTRIBUTE'), Field('y', default(nullable(dict(STR))), location='ELEMENT')]
    if tagged:
        fs = [Field('t', {'type': 'literal', 'expected': [tagged]}, location='ATTRIBUTE')] + fs
    st = {} if own is None else dict(skip_empty=own)
    if tag:
        st['tag'] = tag
    return q.s.model(name, fs, settings=st)


PLACES = ('direct', 'list', 'tuple', 'named', 'union', 'union2', 'tagged', 'wrapped', 'wrapped_list', 'nullable', 'root', 'root_list',
          'list_tuple', 'list_union', 'list_tagged', 'tuple_union', 'computed', 'definitions', 'json_or_python')


def placed(q, place, Sub, Other):
    """(schema, field keywords, wrap(value, encoded) -> (value, encoded), expected path)"""
    s, o = q.s.schema_of(Sub), q.s.schema_of(Other)
    it = q.it
    one = lambda v, e: (v, e)  # noqa: E731
    lst = lambda v, e: (it.list_of([v]), it.list_of([e]))  # noqa: E731
    tpl = lambda v, e: (it.lift((v,)), it.list_of([e]))  # noqa: E731
    tagged = {'type': 'tagged-union', 'discriminator': 't', 'choices': {'two': o, 'one': s}}
    if place == 'direct' or place == 'computed' or place == 'wrapped':
        return s, one
    if place in ('list', 'wrapped_list'):
        return list_of(s), lst
    if place == 'tuple':
        return tuple_of(s), tpl
    if place == 'named':
        return namedtuple_of(s), tpl
    if place == 'union':
        return union_of(s, o), one
    if place == 'union2':
        return union_of(o, s), one
    if place == 'tagged':
        return tagged, one
    if place == 'nullable':
        return default(nullable(s)), one
    if place == 'list_tuple':
        return list_of(tuple_of(s)), lambda v, e: lst(*tpl(v, e))
    if place == 'list_union':
        return list_of(union_of(o, s)), lst
    if place == 'list_tagged':
        return list_of(tagged), lst
    if place == 'tuple_union':
        return tuple_of(union_of(o, s)), tpl
    if place == 'definitions':
        return {'type': 'definitions', 'schema': {'type': 'definition-ref', 'schema_ref': 'r'},
                'definitions': [dict_with_ref(q, s, 'r')]}, one
    if place == 'json_or_python':
        return {'type': 'json-or-python', 'python_schema': {'type': 'function-after', 'schema': s}, 'json_schema': dict(STR)}, one
    raise KeyError(place)


def dict_with_ref(q, s, ref):
    from ..domain import DictObj
    d = q.it.new_dict(list(s.layers) + [('kv', Const('ref'), Const(ref))])
    return d


@scenario('C15 C16 C10 C30 C01', cases=[dict(place=p) for p in PLACES if not p.startswith('root')], max_paths=20000, deep='C24 C25')
def nested(q, place):
    """A sub-model at every kind of place, with every combination of flags."""
    p = q.it.pick
    m_own = p('skip_empty of the model', [None, True])
    s_own = p('skip_empty of the sub-model', [None, True, False])
    tagged = 'tagged' in place
    Sub = sub_model(q, 'Sub', s_own, 'one' if tagged else None)
    Other = sub_model(q, 'Other', False, 'two' if tagged else None)
    s, wrap = placed(q, place, Sub, Other)
    if place.startswith('wrapped'):
        f = Field('fld', s, location='WRAPPED', path='w1/w2', wrapped=Field('', None, location='ELEMENT', path='n'))
    else:
        f = Field('fld', s, location='ELEMENT', path='n', computed=place == 'computed')
    cls = q.s.model('M', [f], settings={} if m_own is None else dict(skip_empty=m_own))
    it = q.it
    se, en, eu = p('skip_empty', [False, True]), p('exclude_none', [False, True]), p('exclude_unset', [False, True])
    x, y = p('attribute x / element y', [('unset None', 'unset None'), ('value', 'None'), ('None', 'unset None'), ('unset None', 'value')])
    vals, encs, fset = {}, {}, []
    if tagged:
        vals['t'], encs['t'] = Const('one'), Const('one')
        fset.append('t')
    for n, case in (('x', x), ('y', y)):
        vals[n], encs[n] = (q.str(n + '_val'), q.str(n + '_enc')) if case == 'value' else (Const(None), Const(None))
        if not case.startswith('unset'):
            fset.append(n)
    sub = q.s.instance(Sub, vals, encs, fields_set=it.new_set([Const(n) for n in fset]))
    v, e = wrap(sub, it.new_dict([('kv', Const(k), w) for k, w in encs.items()]))
    m = q.s.instance(cls, {'fld': v}, {'fld': e}, fields_set=it.new_set([Const('fld')]))
    out = write(q, m, skip_empty=se, exclude_none=en, exclude_unset=eu)
    if place == 'computed' and eu:
        return      # a computed property is never in the set of given fields
    if not q.no_raise('C16', out, f'{place}: serialization succeeds', f'flags {se} {en} {eu}'):
        return
    m_eff = se if m_own is None else m_own
    s_eff = m_eff if s_own is None else s_own
    exp = E(Const('n'))
    if tagged:
        exp.attrs.append((Const('t'), Const('one')))
    for n, case in (('x', x), ('y', y)):
        if case.startswith('unset') and eu:
            continue
        if case != 'value' and (s_eff or en):
            continue
        t = q.str(n + '_enc') if case == 'value' else Const('')
        if n == 'x':
            exp.attrs.append((Const('x'), t))
        else:
            exp.children.append(E(Const('y'), [], t))
    empty = not exp.attrs and not exp.children
    root = E(Const('M'))
    if empty and m_eff:
        if place.startswith('wrapped'):
            return
    elif place.startswith('wrapped'):
        root.children.append(E(Const('w1'), children=[E(Const('w2'), children=[exp])]))
    else:
        root.children.append(exp)
    same_tree(q, 'C15 C16 C30 C01' + (' C10' if 'union' in place or tagged else ''), out[1], root, f'{place}: what is written')


# ------------------------------------------------------------------ root models
@scenario('C01 C15 C16 C17 C18 C34 C24 C25', cases=[dict(kind=k, at=a) for k in KINDS for a in ('top', 'field', 'list', 'wrapped')], max_paths=20000,
          deep='C24 C25')
def roots(q, kind, at):
    """Root models of every kind, alone and as a field of another model."""
    c = Case(q, kind, at == 'wrapped')
    p = q.it.pick
    own = p('skip_empty of the root model', [None, True, False])
    outer_own = p('skip_empty of the model', [None, True, False]) if at == 'field' else None
    f = field_of(c, nullable(c.schema()))
    f.name = 'root'
    if kind == 'attr':
        if c.wrapped:
            f.wrapped.path = 'fld'
        else:
            f.path = 'fld'
    elif kind in ('prim', 'mapping', 'model', 'raw'):
        if c.wrapped:
            f.wrapped.path = 'fld'
        else:
            f.path = 'fld'
    R = q.s.model('R', [f], root=True, settings={} if own is None else dict(skip_empty=own))
    se, en, eu = p('flags', [(False, False, False), (True, False, False), (False, True, False), (True, True, True), (False, False, True)])
    case = p('value', c.values())
    v, e = c.make(case)
    r = q.s.instance(R, {'root': v}, e, fields_set=q.it.new_set([Const('root')]))
    m = r
    if at in ('field', 'list'):
        s = q.s.schema_of(R)
        top = q.s.model('M', [Field('fld', list_of(s) if at == 'list' else s, location='ELEMENT', path='n')],
                        settings={} if outer_own is None else dict(skip_empty=outer_own))
        m = q.s.instance(top, {'fld': q.it.list_of([r]) if at == 'list' else r}, {'fld': q.it.list_of([e]) if at == 'list' else e},
                         fields_set=q.it.new_set([Const('fld')]))
    out = write(q, m, skip_empty=se, exclude_none=en, exclude_unset=eu)
    if not q.no_raise('C16', out, f'root of {kind}: serialization succeeds', f'value {case}, skip_empty={se}/{own}, exclude_none={en}'):
        return
    outer = se if outer_own is None else outer_own
    eff = outer if own is None else own
    adds = c.written(case, eff, en, value=v)
    w = False
    if c.wrapped:
        w = True
        if case == NONE or eff and (case == '' or case == 'empty' and kind in ('mapping', 'attrs')):
            adds, w = [], 'absent'
        elif adds == []:
            return
    if adds is None:
        return
    exp = assemble(q, adds, w, ())
    exp.tag = Const('R')
    if at in ('field', 'list'):
        exp.tag = Const('n')
        empty = not exp.attrs and not exp.children and (exp.text is None or exp.text == Const(''))
        exp = E(Const('M'), children=[] if empty and outer else [exp])
    pids = 'C16 C01' + (' C17' if c.nillable else '') + (' C15' if own is not None or at != 'top' else '') \
        + (' C18' if kind not in ('raw', 'model') and case != NONE else '') + (' C34' if c.wrapped else '')
    same_tree(q, pids, out[1], exp, f'root of {kind}: what is written')
