"""C06, C07, C34: the search of a sub-element among an arbitrary sequence of sub-elements at an arbitrary position."""
from ..domain import ClassV, Const, Inst, ListObj, Sym, Term, lin_comb
from ..engine import scenario

MODES = ('STRICT', 'ORDERED', 'UNORDERED')


class Siblings:
    """An element whose sub-elements are an arbitrary sequence E of length n, c of them being bound."""

    def __init__(self, q):
        it = q.it
        self.q, self.it = q, it
        self.n, self.c = q.length('n'), q.length('c')
        it.add_ge(lin_comb(self.n, self.c, -1))
        self.E = Sym('E', 'list', meta={'item': 'elem', 'len': self.n})
        self.el = it.instantiate(ClassV(q.s.LX), [], {'tag': q.str('parent_tag'), 'elements': self.E,
                                                      'attributes': Const(None)})
        holders = []
        lists = []
        todo, seen = [self.el], set()
        while todo:
            o = todo.pop()
            if o.key in seen:
                continue
            seen.add(o.key)
            for a, v in o.attrs.items():
                if isinstance(v, Const) and v.v == 0 and not isinstance(v.v, bool):
                    holders.append((o, a))
                elif isinstance(v, ListObj) and v.segs and v.segs[0][0] == 'slice' and v.segs[0][1].key == self.E.key:
                    lists.append((o, a))
                elif isinstance(v, Inst):
                    todo.append(v)
        if len(holders) != 1 or len(lists) != 1:
            q.give_up('state of the element not recognised')
        self.pos_at, self.list_at = holders[0], lists[0]
        self.pos_at[0].attrs[self.pos_at[1]] = self.c
        self.tag = q.str('tag')

    @property
    def pos(self):
        return self.pos_at[0].attrs[self.pos_at[1]]

    @property
    def elements(self):
        return self.list_at[0].attrs[self.list_at[1]]

    def index_of(self, v):
        """i if v is E[i]"""
        if isinstance(v, Term) and v.op == 'item' and v.args[0].key == self.E.key:
            return v.args[1]
        return None

    def at(self, i):
        return self.it.elem_at(self.E, i)

    def tag_fact(self, i):
        """Known outcome of E[i].tag == tag on this path."""
        return tag_facts(self, self.it.eqs).get(i.key, (None, None))[1]

    def zero(self, d):
        if isinstance(d, Const):
            return d.v == 0
        return self.it.implied_ge(d) is True and self.it.implied_ge(lin_comb(Const(0), d, -1)) is True

    def same_pos(self, a, b):
        return self.zero(lin_comb(a, b, -1))

    def inspected(self, want):
        """[(lo, hi)]: index intervals whose tags are known to be different (want False)"""
        facts = tag_facts(self, self.it.eqs)
        ivs = intervals(self, facts, want)
        if want is False:
            ivs += [(a, b) for a, b in intervals(self, {k: v for k, v in facts.items()
                                                        if loop_base(self, v[0])[0] is not None}, True)]
        return ivs

    def covered(self, lo, hi, ivs):
        """Do the intervals cover [lo, hi) ?"""
        pos, ivs = lo, list(ivs)
        while ivs:
            if self.it.implied_ge(lin_comb(pos, hi, -1)):
                return True
            for a, b in ivs:
                if self.it.implied_ge(lin_comb(pos, a, -1)) and self.it.implied_ge(lin_comb(b, pos, -1)):
                    ivs.remove((a, b))
                    pos = b
                    break
            else:
                return False
        return self.it.implied_ge(lin_comb(pos, hi, -1)) is True

    def permutation(self, lo_fixed):
        """(elements are exactly E[0:n] in some order, the first lo_fixed of them being E[0:lo_fixed])"""
        segs = []
        for s in self.elements.segs:
            if s[0] == 'slice' and s[1].key == self.E.key:
                segs.append((s[2], s[3]))
            elif s[0] == 'i' and self.index_of(s[1]) is not None:
                i = self.index_of(s[1])
                segs.append((i, lin_comb(i, Const(1))))
            else:
                return None, None
        # prefix
        pos, prefix_ok = Const(0), None
        for a, b in segs:
            if self.it.implied_ge(lin_comb(pos, lo_fixed, -1)):
                prefix_ok = True
                break
            if self.same_pos(a, b):
                continue
            if not self.same_pos(a, pos):
                prefix_ok = False
                break
            pos = b
        if prefix_ok is None:
            prefix_ok = self.it.implied_ge(lin_comb(pos, lo_fixed, -1)) is True
        todo = [s for s in segs if not self.same_pos(s[0], s[1])]
        pos = Const(0)
        while todo:
            for s in todo:
                if self.same_pos(s[0], pos):
                    todo.remove(s)
                    pos = s[1]
                    break
            else:
                return False, prefix_ok
        return self.same_pos(pos, self.n), prefix_ok


def tag_facts(sib, eqs):
    """index key -> (index, outcome) of comparisons of an element tag with the tag searched for"""
    out = {}
    for (a, b), r in eqs.items():
        for x, y in ((a, b), (b, a)):
            if y == sib.tag.key and isinstance(x, tuple) and x[:2] == ('t', 'attr'):
                out[x] = r
    res = {}
    for t in all_terms(sib):
        if t.key in out:
            i = sib.index_of(t.args[0])
            if i is not None:
                res[i.key] = (i, out[t.key])
    return res


def all_terms(sib):
    """Tag terms of the elements mentioned on the path."""
    return sib.it.path.data.setdefault('tags', [])


def intervals(sib, facts, want):
    ivs = []
    for i, r in facts.values():
        if r is not want:
            continue
        nxt = lin_comb(i, Const(1))
        loops = [v for v in getattr(i, 'vars', {}).values() if repr(v[1]).startswith('<k@')]
        if isinstance(i, Sym) and i.name.startswith('k@'):
            loops = [(1, i)]
        if loops and loops[0][0] == 1:
            # every earlier iteration found a different tag (obligation on the iterations themselves)
            ivs.append((lin_comb(i, loops[0][1], -1), nxt if want is False else i))
        else:
            ivs.append((i, nxt))
    return ivs


def watch(q):
    """Remembers the tag terms compared on the path."""
    it = q.it
    tags = it.path.data.setdefault('tags', [])
    orig = type(it).eq

    def eq(a, b):
        for x in (a, b):
            if isinstance(x, Term) and x.op == 'attr' and x.args[1] == 'tag' and x not in tags:
                tags.append(x)
        return orig(it, a, b)
    it.eq = eq


def loop_base(sib, i):
    """base if i = base + k for a loop counter k"""
    if isinstance(i, Sym) and i.name.startswith('k@'):
        return Const(0), i
    for c, v in getattr(i, 'vars', {}).values():
        if isinstance(v, Sym) and v.name.startswith('k@') and c == 1:
            return lin_comb(i, v, -1), v
    return None, None


def search(q, mode, method, look_behind=False, step=True):
    it = q.it
    watch(q)
    sib = Siblings(q)
    P = 'C06' if mode != 'UNORDERED' else 'C07'
    m = it.enum_member(q.s.SM, mode)
    if method == 'pop_element':
        call = lambda: it.call(it.getattr(sib.el, 'pop_element'), [sib.tag, m], {})  # noqa: E731
    else:
        call = lambda: it.call(it.getattr(sib.el, 'find_element'), [sib.tag, m], {  # noqa: E731
            'look_behind': Const(look_behind), 'step_forward': Const(step)})
    name = f'{method}({mode.lower()})'

    def post(p):
        if p.outcome != 'loopback':
            return
        # an element may be skipped only if its tag differs
        facts = tag_facts(sib, p.facts['eq'])
        ivs = [(i, r) for i, r in facts.values() if loop_base(sib, i)[0] is not None]
        q.check(P, any(r is False for i, r in ivs), f'{name}: only elements with a different tag are skipped',
                'an element is skipped although its tag was not found to be different')
    q.post = post
    out = q.attempt(call)
    if not q.no_raise(P, out, f'{name}: never fails', 'search of a sub-element'):
        return
    r = out[1]
    if it.isnone(r):
        q.check(P + ' C30', sib.same_pos(sib.pos, sib.c), f'{name}: position kept if nothing is found',
                f'nothing is found but the position moves from {sib.c!r} to {sib.pos!r}')
        perm, pre = sib.permutation(sib.n)
        q.check(P, perm and pre, f'{name}: elements kept if nothing is found', f'the sub-elements are changed: {sib.elements.segs!r}')
        if mode == 'STRICT':
            ok = it.implied_ge(lin_comb(sib.c, sib.n, -1)) is True or sib.tag_fact(sib.c) is False
            q.check(P, ok, f'{name}: nothing is found only if the next element does not match',
                    'nothing is bound although the element right after the last bound one may match')
        else:
            q.check(P, sib.covered(sib.c, sib.n, sib.inspected(False)),
                    f'{name}: nothing is found only if no following element matches',
                    'nothing is bound although an element not bound yet may match')
        if look_behind:
            ok = it.implied_ge(lin_comb(Const(0), sib.c, -1)) is True or sib.tag_fact(lin_comb(sib.c, Const(1), -1)) is False
            q.check('C34', ok, f'{name}: the last bound element is looked at', 'the last bound element may match but is not found')
        return
    i = sib.index_of(r)
    if i is None:
        q.check(P, None, f'{name}: result', f'unrecognised result {r!r}')
        return
    behind = lin_comb(sib.c, Const(1), -1)
    if look_behind and sib.same_pos(i, behind):
        q.check('C34', sib.tag_fact(i) is True, f'{name}: the last bound element is shared only if it matches', 'tag not compared')
        q.check('C34', sib.same_pos(sib.pos, sib.c), f'{name}: sharing the last bound element keeps the position',
                f'position moves from {sib.c!r} to {sib.pos!r}')
        return
    q.check(P, sib.tag_fact(i) is True, f'{name}: a bound element has the tag searched for',
            f'{r!r} is bound without its tag being the one searched for')
    q.check(P, it.implied_ge(lin_comb(i, sib.c, -1)) is True, f'{name}: an element already bound is not bound again',
            f'{r!r} is bound although it is before position {sib.c!r}')
    if look_behind:
        ok = it.implied_ge(lin_comb(Const(0), sib.c, -1)) is True or sib.tag_fact(behind) is False
        q.check('C34', ok, f'{name}: the last bound element comes first', 'another element is taken although the last bound one may match')
    new = lin_comb(sib.c, Const(1))
    if mode == 'STRICT':
        q.check(P, sib.same_pos(i, sib.c), f'{name}: only the next element is bound', f'{r!r} is bound at position {sib.c!r}')
        after = lin_comb(i, Const(1))
    elif mode == 'ORDERED':
        q.check(P, sib.covered(sib.c, i, sib.inspected(False)), f'{name}: the first following match is bound',
                f'{r!r} is bound although an element between {sib.c!r} and it may match')
        after = lin_comb(i, Const(1))
    else:
        after = new
    want = after if step else sib.c
    q.check(P, sib.same_pos(sib.pos, want), f'{name}: position after a match',
            f'expected position {want!r}, found {sib.pos!r}')
    perm, pre = sib.permutation(sib.c)
    if mode == 'UNORDERED':
        q.check(P + ' C30', perm, f'{name}: no element is lost or duplicated', f'sub-elements become {sib.elements.segs!r}')
        q.check(P, pre, f'{name}: bound elements stay in front', f'sub-elements become {sib.elements.segs!r}')
        if step:
            segs = sib.elements.segs
            # the element right before the new position is the bound one
            pos, found = Const(0), None
            for s in segs:
                ln = it.seg_len(s)
                nxt = lin_comb(pos, ln)
                if s[0] == 'i' and sib.same_pos(nxt, new):
                    found = sib.index_of(s[1])
                elif s[0] == 'slice' and it.implied_ge(lin_comb(nxt, new, -1)) is True and \
                        it.implied_ge(lin_comb(sib.c, pos, -1)) is True:
                    found = lin_comb(s[2], lin_comb(sib.c, pos, -1))
                pos = nxt
                if found is not None:
                    break
            q.check(P, found is not None and sib.same_pos(found, i), f'{name}: the bound element joins the bound ones',
                    f'sub-elements become {segs!r}')
    else:
        p2, full = sib.permutation(sib.n)
        q.check(P, p2 and full, f'{name}: the order of sub-elements is kept', f'sub-elements become {sib.elements.segs!r}')


@scenario('C06 C30', backends=('lxml', 'std'), cases=[dict(mode=m) for m in ('STRICT', 'ORDERED')])
def pop(q, mode):
    """pop_element over symbolic sibling lists: which sub-element is bound, which are passed over."""
    search(q, mode, 'pop_element')


@scenario('C07 C30', backends=('lxml', 'std'))
def pop_unordered(q):
    """pop_element of the unordered mode: the first of the name, anywhere."""
    search(q, 'UNORDERED', 'pop_element')


@scenario('C06 C34', cases=[dict(mode=m, look_behind=b, step=s) for m in ('STRICT', 'ORDERED')
                            for b in (False, True) for s in (False, True)])
def find(q, mode, look_behind, step):
    """find_element along a path, with and without look-behind and stepping."""
    search(q, mode, 'find_element', look_behind, step)


@scenario('C07 C34', cases=[dict(look_behind=b, step=s) for b in (False, True) for s in (False, True)])
def find_unordered(q, look_behind, step):
    """find_element along a path in the unordered mode."""
    search(q, 'UNORDERED', 'find_element', look_behind, step)
