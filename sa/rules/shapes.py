"""Abstract documents: element skeletons whose names, texts and values are unknowns, and comparison of written trees."""
from ..domain import Const, DictObj, Inst, ListObj, Sym, Term, TupleV


class E:
    """Expected element. attrs: [(name value, value)]; text: value or None; children: [E | native Inst (a copy of it)]"""

    def __init__(self, tag, attrs=(), text=None, children=(), tail=None):
        self.tag, self.attrs, self.text, self.children, self.tail = tag, list(attrs), text, list(children), tail

    def __repr__(self):
        at = ''.join(f' {n!r}={v!r}' for n, v in self.attrs)
        return f"<{self.tag!r}{at}>{'' if self.text is None else repr(self.text)}{''.join(map(repr, self.children))}</>"


def blank(q, v):
    """Is this text absent or empty?"""
    v = q.it.known_const(q.it.lift(v)) or v
    return isinstance(v, Const) and (v.v is None or v.v == '')


def text_differs(q, got, want):
    want = Const(None) if want is None else q.it.lift(want)
    got = Const(None) if got is None else got
    if blank(q, got) and blank(q, want):
        return False
    return not q.equal(got, want)


def differs(q, node, exp, where='root'):
    """None if the written native element is the expected one, else a description; '?...' if it cannot be told."""
    if isinstance(exp, Inst):
        return copy_differs(q, node, exp, where)
    if not isinstance(node, Inst) or 'children' not in node.attrs:
        return f'?{where}: {node!r}'
    a = node.attrs
    if not q.equal(a['tag'], q.it.lift(exp.tag)):
        return f'{where}: element {a["tag"]!r} instead of {exp.tag!r}'
    at = q.attrs_of(node)
    if at is None:
        return f'?{where}: attributes'
    want = {q.it.lift(n).key: q.it.lift(v) for n, v in exp.attrs}
    for n, v in exp.attrs:
        k = q.it.lift(n).key
        if k not in at:
            return f'{where}: attribute {n!r} is not written: {q.tree(node)}'
        if not q.equal(at[k], q.it.lift(v)):
            return f'{where}: attribute {n!r} is {at[k]!r} instead of {v!r}'
    extra = [k for k in at if k not in want]
    if extra:
        return f'{where}: unexpected attributes {extra} in {q.tree(node)}'
    if text_differs(q, a['text'], exp.text):
        return f'{where}: text is {a["text"]!r} instead of {exp.text!r}'
    if text_differs(q, a['tail'], exp.tail):
        return f'{where}: tail is {a["tail"]!r} instead of {exp.tail!r}'
    ch = q.children(node)
    if ch is None:
        return f'?{where}: children'
    if len(ch) != len(exp.children):
        return f'{where}: {len(ch)} sub-elements instead of {len(exp.children)}: {q.tree(node)}, expected {exp!r}'
    for i, (c, e) in enumerate(zip(ch, exp.children)):
        d = differs(q, c, e, f'{where}/{i}')
        if d:
            return d
    return None


def copy_differs(q, node, src, where):
    """node must be a deep copy of the native element src (not src itself)."""
    if isinstance(node, Inst) and node.key == src.key:
        return f'{where}: the element itself instead of a copy'
    e = expected_of(q, src)
    return differs(q, node, e, where) if e is not None else f'?{where}: source element'


def expected_of(q, src):
    at, ch = q.attrs_of(src), q.children(src)
    if at is None or ch is None:
        return None
    d = src.attrs['attrib']
    return E(src.attrs['tag'], [(la[1], la[2]) for la in d.layers], src.attrs['text'],
             [expected_of(q, c) for c in ch], src.attrs['tail'])


def same_tree(q, pids, node, exp, rule):
    d = differs(q, node, exp)
    return q.check(pids, None if d and d[0] == '?' else not d, rule, d or '')


def el(q, tag, attrs=(), text=None, children=(), tail=None):
    """An abstract native element."""
    it = q.it
    n = q.s.native(it.lift(tag))
    for k, v in attrs:
        it.dict_set(n.attrs['attrib'], it.lift(k), it.lift(v))
    n.attrs['text'] = Const(None) if text is None else it.lift(text)
    n.attrs['tail'] = Const(None) if tail is None else it.lift(tail)
    for c in children:
        it.list_append(n.attrs['children'], c)
    return n


def parse(q, cls, root, **kw):
    q.it.unroll = 12        # the document has a known number of elements: loops over them end
    kw = {k: q.it.lift(v) for k, v in kw.items()}
    return q.framed(lambda: q.it.call(q.it.getattr(cls, 'from_xml_tree'), [root], kw), [root, *kw.values()])
