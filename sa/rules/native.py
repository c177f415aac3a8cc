"""C26 (and C25): documents with comments and processing instructions, converted in both directions with both backends."""
from ..domain import Const, Inst
from ..engine import scenario
from ..externals import mk_str
from ..harness import Field
from .common import STR, default, nullable, list_of, raw
from .shapes import E, blank, differs, el, parse, text_differs

KINDS = {'e': None, 'c': 'Comment', 'p': 'ProcessingInstruction'}


def joined(parts):
    """Text of consecutive parts (None: nothing)."""
    parts = [p for p in parts if p is not None]
    return None if not parts else parts[0] if len(parts) == 1 else mk_str(parts)


class Node:
    """A document node under construction: kind, tag, text, tail, attrs, children."""

    def __init__(self, kind, tag=None, text=None, tail=None, attrs=(), children=()):
        self.kind, self.tag, self.text, self.tail, self.attrs, self.children = kind, tag, text, tail, list(attrs), list(children)
        self.line = None

    def native(self, q):
        if self.kind != 'e':
            return q.s.node(KINDS[self.kind], self.text, self.tail)
        n = el(q, self.tag, self.attrs, self.text, [c.native(q) for c in self.children], self.tail)
        if self.line is not None:
            n.attrs['sourceline'] = self.line
        self.line = n.attrs['sourceline']
        return n

    def clean(self):
        """The same content without comments and processing instructions: the text that follows one follows what precedes it."""
        text, kids = [self.text], []
        for c in self.children:
            if c.kind == 'e':
                x = c.clean()
                x.tail = [x.tail]
                kids.append(x)
            else:
                (kids[-1].tail if kids else text).append(c.tail)
        for x in kids:
            x.tail = joined(x.tail)
        n = Node('e', self.tag, joined(text), self.tail, self.attrs, kids)
        n.line = self.line
        return n

    def expected(self):
        return E(self.tag, self.attrs, self.text, [c.expected() for c in self.children], self.tail)


def layouts(q, n, deep=True):
    """A picked arrangement of up to n children."""
    p = q.it.pick
    k = p('children', list(range(n + 1)))
    kids = []
    for i in range(k):
        kind = p(f'node {i}', ['e', 'c', 'p'] if i < 2 else ['e', 'c'])
        tail = q.str(f'tail{i}') if p(f'tail {i}', [True, False]) else None
        kids.append(Node(kind, q.str(f'tag{i}'), q.str(f'text{i}'), tail))
    return kids


def same(q, pids, node, want, rule):
    d = differs(q, node, want)
    q.check(pids, None if d and d[0] == '?' else not d, rule, d or '')


@scenario('C26 C25 C24', backends=('lxml', 'std'), cases=[dict(level=x) for x in ('root', 'inner')], max_paths=20000)
def convert(q, level):
    """Document -> internal element -> document, for every arrangement of nodes."""
    q.it.unroll = 12
    kids = layouts(q, 4 if q.thorough else 3)
    text = q.str('text') if q.it.pick('text', [True, False]) else None
    attrs = [(q.str('a1'), q.str('v1')), (q.str('a2'), q.str('v2'))]
    top = Node('e', q.str('tag'), text, None, attrs, kids)
    if level == 'inner':
        top = Node('e', q.str('outer'), None, None, [], [Node('c', None, q.str('comment')), top, Node('e', q.str('sibling'))])
        top.children[1].tail = q.str('tail of the inner one')
    src = top.native(q)
    it = q.it
    from ..domain import ClassV
    cls = ClassV(q.s.LX)
    out = q.framed(lambda: it.call(it.getattr(it.call(it.getattr(cls, 'from_native'), [src], {}), 'to_native'), [], {}), [src])
    if q.no_raise('C26', out, 'conversion in both directions', ''):
        same(q, 'C26', out[1], top.clean().expected(), 'conversion keeps tag, text, tail, attributes and children in order')


FIELDS = {
    'text': lambda q: [Field('t', default(nullable(dict(STR)))), Field('e', default(nullable(dict(STR))), location='ELEMENT', path=q.str('tag'))],
    'strict': lambda q: [Field('e', default(nullable(dict(STR))), location='ELEMENT', path=q.str('tag')),
                         Field('f', default(nullable(dict(STR))), location='ELEMENT', path=q.str('tag_f'))],
    'list': lambda q: [Field('e', default(nullable(list_of(dict(STR)))), location='ELEMENT', path=q.str('tag'))],
    'raw': lambda q: [Field('e', default(nullable(raw(q))), location='ELEMENT', path=q.str('tag'))],
    'forbid': lambda q: [Field('t', default(nullable(dict(STR)))),
                         Field('e', default(nullable(dict(STR))), location='ELEMENT', path=q.str('tag'))],
}


@scenario('C26 C25 C24', backends=('lxml', 'std'), cases=[dict(fields=f) for f in FIELDS], max_paths=20000)
def bound(q, fields):
    """A document with comments gives the same model as the one without."""
    q.s.may_reject = False
    p = q.it.pick
    kids = []
    k = p('children', [1, 2, 3])
    for i in range(k):
        kind = p(f'node {i}', ['e', 'c', 'p'] if i == 0 else ['e', 'c'])
        tail = q.str(f'tail{i}') if p(f'tail {i}', [True, False]) else None
        tag = q.str('tag_f') if fields == 'strict' and any(c.kind == 'e' for c in kids) else q.str('tag')
        inner = [Node('c', None, q.str('note'), q.str(f'rest{i}'))] if i == 1 or fields == 'raw' else []
        kids.append(Node(kind, tag, q.str(f'text{i}'), tail, children=inner if kind == 'e' else []))
    top = Node('e', Const('M'), q.str('text') if p('text', [True, False]) else None, None, [], kids)
    cls = q.s.model('M', FIELDS[fields](q), **(dict(config={'extra': 'forbid'}) if fields == 'forbid' else {}))
    outs = []
    for doc in (top, None):
        src = (doc or top.clean()).native(q)
        since = q.mark()
        out = parse(q, cls, src)
        ev = q.events(since, 'model_validate')
        outs.append((out, ev))
    (o1, e1), (o2, e2) = outs
    rule = 'comments and processing instructions take no part in binding'
    if o1[0] != o2[0]:
        q.check('C26', False, rule, f'with comments: {o1!r}, without: {o2!r}')
        return
    if o1[0] == 'raise':
        a, b = (q.s.errors_of(o[1], {}) if isinstance(o[1], Inst) else o[1] for o in (o1, o2))
        q.check('C26', repr(a) == repr(b), rule, f'other errors: {a!r} instead of {b!r}')
        return
    if len(e1) != 1 or len(e2) != 1:
        q.check('C26', None, rule, 'validations')
        return
    d1, d2 = (e[0].args[0] for e in (e1, e2))
    for la in {x[1].key: x for x in list(d1.layers) + list(d2.layers)}.values():
        a, b = (next((x[2] for x in d.layers if x[1].key == la[1].key), None) for d in (d1, d2))
        if a is None or b is None:
            q.check('C26', False, rule, f'{la[1]!r}: {a!r} instead of {b!r}')
        elif isinstance(b, Inst):
            d = differs(q, a, E(b.attrs['tag'], [(x[1], x[2]) for x in b.attrs['attrib'].layers], b.attrs['text'],
                                b.attrs['children'].segs and [s[1] for s in b.attrs['children'].segs], b.attrs['tail']))
            q.check('C26', None if d and d[0] == '?' else not d, rule, f'{la[1]!r}: {d}')
        else:
            q.same('C26', a, b, rule, f'{la[1]!r}')


@scenario('C25 C24 C35', backends=('lxml', 'std'), cases=[dict(kind=k, at=a) for k in ('attr', 'attrs', 'prim', 'mapping', 'model', 'raw', 'text')
                                                         for a in ('field', 'wrapped', 'root')], max_paths=4000)
def kept(q, kind, at):
    """Parsing with either backend, successful or not, leaves the source tree as it was; so does a second parse of the same tree."""
    from .reading import Doc, dict_differs, outcome
    q.s.may_reject = False
    p = q.it.pick
    d = Doc(q, kind)
    extra = p('extra', ['forbid', None])
    mode = p('search mode', ['UNORDERED', 'STRICT'])
    f = d.field(default(nullable(d.schema())), at == 'wrapped')
    sm = dict(search_mode=q.it.enum_member(q.s.SM, mode))
    if at == 'root':
        f = d.field(nullable(d.schema()))
        f.name = 'root'
        if kind not in ('text', 'attrs'):
            f.path = 'fld'
        cls = q.s.model('M', [f], root=True, settings=sm)
    else:
        cls = q.s.model('M', [f], settings=sm, **(dict(config={'extra': extra}) if extra else {}))
    full = {'attr': 'str', 'attrs': 'two', 'prim': 'str', 'mapping': 'two', 'model': 'full', 'raw': 'full', 'text': 'str'}[kind]
    attrs, kids = [], []
    text, e = d.place(full, attrs, kids)
    if at == 'wrapped':
        kids = [el(q, Const('w1'), children=[el(q, Const('w2'), attrs, text, kids)])]
        attrs, text = [], None
    if p('something left over', [True, False]):
        kids.append(el(q, Const('other'), [(Const('oa'), q.str('ov'))], q.str('ot'), tail=q.str('otail')))
        attrs = attrs + [(Const('left'), q.str('over'))] if kind != 'attrs' or at == 'wrapped' else attrs
    src = el(q, Const('M'), attrs, text, kids)
    first = parse(q, cls, src)
    since = q.mark()
    second = parse(q, cls, src)
    q.check('C24 C25', first[0] == second[0], 'a second parse of the same tree ends like the first', f'{first!r} and {second!r}')
    if second[0] != 'return':
        return
    ev = q.events(since, 'model_validate')
    v = d.expected(full, False, element=e)
    if at == 'root':
        return
    outcome(q, 'C24 C25' + (' C35' if kind == 'raw' else ''), cls, second, {'fld': v}, f'{kind}: second parse', since)
