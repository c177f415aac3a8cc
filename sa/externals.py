"""Abstract semantics of builtins and of the few library functions the package relies on."""
import string

from .domain import (
    FALSE, NONE, TRUE, BoundV, ClassV, Const, DictObj, EnumM, ExtV, FuncV, Inst, IterV, Lin, ListObj, MethV, ModuleV,
    PartialV, PyFn, SetObj, Sym, SynthClass, Term, TupleV, Value, const_bool, lin_comb, lin_of, lin_scale,
)
from .loader import ClassInfo, FuncInfo

FUNCS = {}


def ext(*names):
    def deco(fn):
        for n in names:
            FUNCS[n] = fn
        return fn
    return deco


def arg(i, args, kwargs, name=None, default=None):
    if i is not None and i < len(args):
        return args[i]
    if name is not None and name in kwargs:
        return kwargs[name]
    return default


# ---------------------------------------------------------------- strings
def to_str(it, v):
    if isinstance(v, Const):
        return Const(v.v) if isinstance(v.v, str) else Const(str(v.v))
    if isinstance(v, (Sym, Term)) and v.typ == 'str':
        return v
    if isinstance(v, Inst) and isinstance(v.cls, ClassInfo):
        f = it.class_lookup(v.cls, '__str__')
        if f is not None and isinstance(f[0], FuncInfo):
            return it.call(it.bind_method(f[0], v, v.cls), [], {})
    return Term('tostr', (v,), 'str')


def mk_str(parts):
    out = []
    for p in parts:
        for q in (p.args if isinstance(p, Term) and p.op == 'str' else (p,)):
            if isinstance(q, Const) and out and isinstance(out[-1], Const):
                out[-1] = Const(out[-1].v + q.v)
            elif isinstance(q, Const) and q.v == '':
                continue
            else:
                out.append(q)
    if not out:
        return Const('')
    if len(out) == 1:
        return out[0]
    return Term('str', out, 'str')


def is_strlike(v):
    return isinstance(v, Const) and isinstance(v.v, str) or getattr(v, 'typ', '') == 'str'


def str_format(it, fmt, args, kwargs):
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append(Const(lit))
        if field is None:
            continue
        if spec or (field and not field.isidentifier() and not field.isdigit()):
            return Term('format', [Const(fmt)] + list(args) + list(kwargs.values()), 'str')
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        else:
            if field not in kwargs:
                it.raise_("builtins.KeyError", field)
            v = kwargs[field]
        if conv == 'r':
            v = Term('repr', (v,), 'str')
        parts.append(to_str(it, v))
    return mk_str(parts)


def percent(it, fmt, v):
    if isinstance(v, TupleV) and v.concrete:
        vals = v.items
    else:
        vals = [v]
    parts, i, pos = [], 0, 0
    s = fmt
    while True:
        j = s.find('%', pos)
        if j < 0:
            parts.append(Const(s[pos:]))
            break
        parts.append(Const(s[pos:j]))
        c = s[j + 1:j + 2]
        if c == '%':
            parts.append(Const('%'))
        elif c == 's' and i < len(vals):
            parts.append(to_str(it, vals[i]))
            i += 1
        elif c == 'r' and i < len(vals):
            parts.append(Term('repr', (vals[i],), 'str'))
            i += 1
        elif c == 'd' and i < len(vals):
            parts.append(to_str(it, vals[i]))
            i += 1
        else:
            return Term('format', [Const(fmt)] + vals, 'str')
        pos = j + 2
    return mk_str(parts)


# ---- composed strings, e.g. '{' + uri + '}' + name
def str_parts(v):
    """Parts of a composed string whose unknown parts are names or URIs: without braces."""
    if isinstance(v, Term) and v.op == 'str' and all(isinstance(x, (Const, Sym)) for x in v.args):
        return list(v.args)
    return None


def witness(parts, words):
    s = ''
    for x in parts:
        if isinstance(x, Const):
            s += str(x.v)
        else:
            w = f'Zq{len(words)}-.\u00e9_9qZ' if s.rfind('{') <= s.rfind('}') else f'Zq{len(words)}:/-.?#&=%+~\u00e9_@9qZ'
            words[w] = x
            s += w
    return s


def unwitness(s, words):
    """The composed string a piece of the witness stands for; None if it cuts an unknown part."""
    import re
    ps = re.split('(Zq\\d+[^qZ{}]*qZ)', s)
    if any(('Zq' in x or 'qZ' in x) and x not in words for x in ps):
        return None
    return mk_str([words.get(x, Const(x)) for x in ps if x])


def boundaries(parts):
    """(index into the witness, symbolic index) of every position that does not cut an unknown part."""
    words, s, sym = {}, '', Const(0)
    yield 0, sym
    for x in parts:
        if isinstance(x, Const):
            for i in range(1, len(x.v) + 1):
                yield len(s) + i, lin_comb(sym, Const(i))
            sym = lin_comb(sym, Const(len(x.v)))
            s += x.v
        else:
            w = f'Zq{len(words)}-.\u00e9_9qZ' if s.rfind('{') <= s.rfind('}') else f'Zq{len(words)}:/-.?#&=%+~\u00e9_@9qZ'
            words[w] = x
            s += w
            sym = lin_comb(sym, Term('len', (x,), 'int'))
            yield len(s), sym


def str_slice(it, v, lo, hi):
    parts = str_parts(v)
    if parts is None:
        return None
    words = {}
    s = witness(parts, words)
    ends = list(boundaries(parts))
    total = ends[-1][1]

    def at(k, default):
        if k is None:
            return default
        if isinstance(k, Const) and isinstance(k.v, int) and k.v < 0:
            k = lin_comb(total, k)
        return next((n for n, sym in ends if sym.key == k.key), None)
    a, b = at(lo, 0), at(hi, len(s))
    if a is None or b is None:
        return None
    return unwitness(s[a:b], words)


def composed_method(it, recv, name, args, kwargs):
    """String methods looking for braces in composed names are decided: the other parts have none."""
    parts = str_parts(recv)
    if parts is None or kwargs and set(kwargs) != {'maxsplit'}:
        return None
    if name in ('startswith', 'removeprefix', 'endswith', 'removesuffix') and len(args) == 1:
        pre = str_parts(args[0]) or ([args[0]] if isinstance(args[0], Sym) else None)
        if pre is not None:
            end = name in ('endswith', 'removesuffix')
            a, b = (parts[::-1], pre[::-1]) if end else (parts, pre)
            rest = None
            for i, x in enumerate(b):
                if i < len(a) and a[i].key == x.key:
                    rest = a[i + 1:]
                    continue
                if i == len(b) - 1 and i < len(a) and isinstance(x, Const) and isinstance(a[i], Const) and \
                        (a[i].v.endswith(x.v) if end else a[i].v.startswith(x.v)):
                    rest = [Const(a[i].v[:-len(x.v)] if end else a[i].v[len(x.v):])] + a[i + 1:]
                    continue
                return None
            if name in ('startswith', 'endswith'):
                return TRUE
            return mk_str(rest[::-1] if end else rest)
    consts = [a for a in args + list(kwargs.values())]
    if not all(isinstance(a, Const) for a in consts) or not args or not isinstance(args[0].v, str):
        return None
    if not set(args[0].v) & set('{}') or name in ('strip', 'lstrip', 'rstrip') and set(args[0].v) - set('{}'):
        return None
    words = {}
    s = witness(parts, words)
    try:
        r = getattr(s, name)(*[a.v for a in args], **{k: v.v for k, v in kwargs.items()})
    except (TypeError, AttributeError):
        return None
    except ValueError:
        it.raise_('builtins.ValueError')
    if isinstance(r, bool):
        return const_bool(r)
    if name in ('find', 'rfind', 'index', 'rindex') and len(args) == 1:
        if r < 0:
            return Const(-1)
        return next((sym for n, sym in boundaries(parts) if n == r), None)
    if name == 'count':
        return Const(r)
    if isinstance(r, str):
        return unwitness(r, words)
    if isinstance(r, (tuple, list)):
        xs = [unwitness(x, words) for x in r]
        if any(x is None for x in xs):
            return None
        return TupleV.of(xs) if isinstance(r, tuple) else it.list_of(xs)
    return None


STR_BOOL = {'startswith', 'endswith', 'isdigit', 'isnumeric', 'isspace', 'isidentifier', 'isalpha', 'isalnum', 'islower',
            'isupper', 'isdecimal'}
STR_LIST = {'split', 'rsplit', 'splitlines'}


def str_method(it, recv, name, args, kwargs):
    if name == 'join':
        segs = it.to_segs(args[0]) if not isinstance(args[0], (Sym, Term)) else None
        if segs is not None and all(s[0] == 'i' for s in segs):
            parts = []
            for i, s in enumerate(segs):
                if i:
                    parts.append(recv)
                parts.append(s[1])
            return mk_str(parts)
        return Term('join', (recv, args[0] if segs is None else TupleV(segs)), 'str')
    if name == 'format':
        if isinstance(recv, Const):
            return str_format(it, recv.v, args, kwargs)
        return Term('format', [recv] + args + list(kwargs.values()), 'str')
    if isinstance(recv, Const) and all(isinstance(a, Const) for a in args) and not kwargs:
        try:
            return it.lift(getattr(recv.v, name)(*[a.v for a in args]))
        except (TypeError, ValueError, AttributeError) as e:
            it.raise_('builtins.' + type(e).__name__)
    r = composed_method(it, recv, name, args, kwargs)
    if r is not None:
        return r
    if name in ('partition', 'rpartition'):
        return TupleV.of([Term(f'str.{name}{i}', [recv] + args, 'str') for i in range(3)])
    typ = 'bool' if name in STR_BOOL else 'list' if name in STR_LIST else 'int' if name in ('find', 'count', 'index') \
        else 'str'
    return Term('str.' + name, [recv] + args + [v for k, v in sorted(kwargs.items())], typ)


# ---------------------------------------------------------------- containers
def set_add(it, s, v):
    if not any(x.key == v.key for x in s.items):
        s.items = s.items + [v]


def set_update(it, s, other):
    if isinstance(other, (Sym, Term)) and other.key not in it.shadow:
        s.bases = s.bases + [other]
        return
    if isinstance(other, SetObj):
        for x in other.items:
            set_add(it, s, x)
        s.unk = s.unk or other.unk
        s.bases = s.bases + other.bases
        return
    for seg in it.to_segs(other):
        if seg[0] == 'i':
            set_add(it, s, seg[1])
        else:
            s.unk = True


def list_pop(it, lst, idx, ret=True):
    if idx is None:
        idx = Const(-1)
    v = it.seq_index(lst, idx)
    it.mutated(lst, 'pop', (idx,))
    if isinstance(idx, Const) and idx.v < 0:
        idx = lin_comb(it.seq_len(lst), idx)
    left, right = it.split(lst.segs, idx)
    mid, right = split_one(it, right)
    lst.segs = it.tidy(left + right)
    return v


def split_one(it, segs):
    """first element / rest, the first element being known to exist"""
    segs = list(segs)
    if segs[0][0] == 'i':
        return segs[:1], segs[1:]
    if segs[0][0] == 'slice':
        s = segs[0]
        mid = lin_comb(s[2], Const(1))
        return [('slice', s[1], s[2], mid)], it.tidy([('slice', s[1], mid, s[3])] + segs[1:])
    it.imprecise('element of unknown sequence removed')


def list_method(it, o, name, args, kwargs):
    if name == 'append':
        it.list_append(o, args[0])
        return NONE
    if name == 'extend':
        v = args[0]
        if isinstance(v, IterV) and it.indexable(v) is None or isinstance(v, SetObj):
            it.iterate(v, lambda x: it.list_append(o, x))
            return NONE
        segs = it.to_segs(v)
        it.mutated(o, 'extend', (v,))
        o.segs = it.tidy(o.segs + segs)
        return NONE
    if name == 'insert':
        idx, v = args
        it.mutated(o, 'insert', (idx, v))
        if isinstance(idx, Const) and idx.v < 0:
            idx = lin_comb(it.seq_len(o), idx)
        left, right = it.split(o.segs, idx)
        o.segs = it.tidy(left + [('i', v)] + right)
        return NONE
    if name == 'pop':
        return list_pop(it, o, args[0] if args else None)
    if name == 'clear':
        it.mutated(o, 'clear')
        o.segs = []
        return NONE
    if name == 'copy':
        return it.new_list(o.segs)
    if name == 'reverse':
        it.mutated(o, 'reverse')
        if o.concrete:
            o.segs = list(reversed(o.segs))
        else:
            o.segs = [('unk', f'reversed{it.new_serial()}')]
        return NONE
    if name == 'sort':
        it.mutated(o, 'sort')
        o.segs = sort_segs(it, o.segs, kwargs.get('key'), kwargs.get('reverse'))
        return NONE
    if name == 'remove':
        it.mutated(o, 'remove', args)
        if all(s[0] == 'i' for s in o.segs):
            for i, s in enumerate(o.segs):
                if it.eq(s[1], args[0]):
                    o.segs = o.segs[:i] + o.segs[i + 1:]
                    return NONE
            it.raise_('builtins.ValueError')
        v = args[0]
        if isinstance(v, Term) and v.op == 'item':
            # the very element of a slice (elements of the sequence are taken to be pairwise distinct objects)
            for i, s in enumerate(o.segs):
                if s[0] == 'slice' and s[1].key == v.args[0].key and it.implied_ge(
                        lin_comb(v.args[1], s[2], -1)) and it.implied_ge(
                            lin_comb(lin_comb(s[3], v.args[1], -1), Const(1), -1)):
                    o.segs = it.tidy(o.segs[:i] + [('slice', s[1], s[2], v.args[1]),
                                                  ('slice', s[1], lin_comb(v.args[1], Const(1)), s[3])] + o.segs[i + 1:])
                    return NONE
        it.imprecise('remove of an element at unknown position')
    if name == 'index':
        return seq_find(it, o, args[0])
    if name == 'count':
        return Term('count', (o, args[0]), 'int')
    if name in ('__len__', '__iter__', '__contains__', '__getitem__'):
        return dunder(it, o, name, args)
    it.imprecise(f'list.{name}')


def seq_find(it, o, v):
    if isinstance(o, (ListObj, TupleV)):
        if o.concrete:
            for i, x in enumerate(o.items):
                if it.eq(x, v):
                    return Const(i)
            it.raise_('builtins.ValueError')
        if isinstance(v, Term) and v.op == 'item':
            pos = Const(0)
            for s in o.segs:
                n = it.seg_len(s)
                if s[0] == 'slice' and s[1].key == v.args[0].key and it.implied_ge(
                        lin_comb(v.args[1], s[2], -1)) and it.implied_ge(
                            lin_comb(lin_comb(s[3], v.args[1], -1), Const(1), -1)):
                    return lin_comb(pos, lin_comb(v.args[1], s[2], -1))
                if n is None:
                    break
                pos = lin_comb(pos, n)
    return Sym(f'index of {v!r}', 'int', havoc=True)


def dunder(it, o, name, args):
    if name == '__len__':
        return it.len_of(o)
    if name == '__iter__':
        return IterV('iter', o)
    if name == '__contains__':
        return const_bool(it.contains(args[0], o))
    return it.subscript(o, args[0])


def dict_method(it, recv, name, args, kwargs):
    o = recv
    if isinstance(recv, (Sym, Term)):
        if name in ('get', 'items', 'keys', 'values', '__contains__', '__getitem__', 'copy', '__len__', '__iter__'):
            o = it.shadow.get(recv.key) or it.new_dict([('base', recv)])
            if name in ('items', 'keys', 'values') and recv.key not in it.shadow:
                return IterV(name, recv)
        else:
            o = it.shadow_dict(recv)
    if name == 'get':
        v = it.dict_lookup(o, args[0])
        return v if v is not None else arg(1, args, kwargs, 'default', NONE)
    if name in ('items', 'keys', 'values'):
        return IterV(name, o)
    if name == 'setdefault':
        v = it.dict_lookup(o, args[0])
        if v is not None:
            return v
        d = arg(1, args, kwargs, 'default', NONE)
        it.dict_set(o, args[0], d)
        return d
    if name == 'pop':
        v = it.dict_lookup(o, args[0])
        if v is None:
            if len(args) < 2:
                it.raise_('builtins.KeyError')
            return args[1]
        it.mutated(o, 'pop', (args[0],))
        k = args[0]
        if any(la[0] == 'kv' and la[1].key == k.key for la in o.layers) and all(
                la[0] == 'kv' for la in o.layers):
            o.layers = [la for la in o.layers if la[1].key != k.key]
        else:
            o.layers = o.layers + [('del', k)]
        return v
    if name == 'update':
        for a in args:
            it.dict_update(o, a)
        for k, v in kwargs.items():
            if k == '**':
                for b in v:
                    it.dict_update(o, b)
            else:
                it.dict_set(o, Const(k), v)
        return NONE
    if name == 'copy':
        return it.new_dict(list(o.layers), mapkind=o.mapkind)
    if name == 'clear':
        it.mutated(o, 'clear')
        o.layers = []
        return NONE
    if name == 'new_child' and o.mapkind == 'chain':
        return it.new_dict(list(o.layers) + (it.as_layers(args[0]) if args else []), mapkind='chain')
    if name in ('__len__', '__iter__', '__contains__', '__getitem__'):
        return dunder(it, o, name, args)
    if name == '__setitem__':
        it.dict_set(o, args[0], args[1])
        return NONE
    if name == '__or__':
        return binop(it, 'BitOr', o, args[0])
    if name == 'fromkeys':
        return fromkeys(it, args)
    it.imprecise(f'dict.{name}')


def set_method(it, o, name, args, kwargs):
    if name in ('add', 'update', 'discard', 'remove'):
        it.mutated(o, name, args)
    if name == 'add':
        set_add(it, o, args[0])
        return NONE
    if name == 'update':
        for a in args:
            set_update(it, o, a)
        return NONE
    if name in ('discard', 'remove'):
        o.items = [x for x in o.items if x.key != args[0].key]
        return NONE
    if name in ('union', '__or__'):
        s = it.new_set(list(o.items))
        s.unk, s.bases = o.unk, list(o.bases)
        for a in args:
            set_update(it, s, a)
        return s
    if name == 'copy':
        s = it.new_set(list(o.items))
        s.unk, s.bases = o.unk, list(o.bases)
        return s
    if name in ('difference', '__sub__'):
        return set_minus(it, o, args[0])
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        return Term('set.' + name, [o] + args, 'bool')
    if name in ('__len__', '__iter__', '__contains__'):
        return dunder(it, o, name, args)
    if name == 'pop' and not o.unk and not o.bases and o.items:
        i = it.choose(f'{o!r}.pop()', list(range(len(o.items))))       # any of them
        it.mutated(o, name, args)
        return o.items.pop(i)
    if name == 'clear':
        it.mutated(o, name, args)
        o.items, o.unk, o.bases = [], False, []
        return NONE
    it.imprecise(f'set.{name}')


def set_minus(it, a, b):
    s = it.new_set()
    if isinstance(b, SetObj) and not b.unk and not b.bases and all(isinstance(x, Const) for x in b.items + a.items):
        ks = {x.key for x in b.items}
        s.items = [x for x in a.items if x.key not in ks]
        s.unk, s.bases = a.unk, list(a.bases)
        return s
    if isinstance(b, SetObj) and all(isinstance(x, Const) for x in b.items + a.items) and not a.unk:
        ks = {x.key for x in b.items}
        cand = [x for x in a.items if x.key not in ks]
        s.items = [x for x in cand if not it.contains(x, b)]
        return s
    s.unk = True
    return s


def sort_segs(it, segs, key=None, reverse=None):
    if all(s[0] == 'i' for s in segs) and len(segs) < 2:
        return list(segs)
    if all(s[0] == 'i' and isinstance(s[1], Const) for s in segs) and key is None:
        try:
            out = sorted(segs, key=lambda s: s[1].v)
            if reverse is not None and it.truth(reverse):
                out.reverse()
            return out
        except TypeError:
            it.raise_('builtins.TypeError')
    return [('unk', 'sorted')]


# ---------------------------------------------------------------- operators
def binop(it, op, a, b):
    if isinstance(a, (Sym, Term)) and a.key in it.shadow:
        a = it.shadow[a.key]
    if isinstance(b, (Sym, Term)) and b.key in it.shadow:
        b = it.shadow[b.key]
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return it.lift({
                'Add': lambda: a.v + b.v, 'Sub': lambda: a.v - b.v, 'Mult': lambda: a.v * b.v,
                'Mod': lambda: a.v % b.v, 'FloorDiv': lambda: a.v // b.v, 'Div': lambda: a.v / b.v,
                'BitOr': lambda: a.v | b.v, 'BitAnd': lambda: a.v & b.v, 'Pow': lambda: a.v ** b.v,
            }[op]())
        except (TypeError, ZeroDivisionError) as e:
            it.raise_('builtins.' + type(e).__name__)
        except KeyError:
            return Term(op, (a, b))
    if op == 'Mod' and isinstance(a, Const) and isinstance(a.v, str):
        return percent(it, a.v, b)
    if op == 'Add':
        if is_strlike(a) or is_strlike(b):
            for x in (a, b):
                if isinstance(x, Const) and not isinstance(x.v, str):
                    it.raise_('builtins.TypeError')
            return mk_str([a, b])
        if isinstance(a, (ListObj, TupleV)) or isinstance(b, (ListObj, TupleV)):
            segs = it.tidy(it.to_segs(a) + it.to_segs(b))
            if isinstance(a, ListObj) or isinstance(b, ListObj):
                return it.new_list(segs)
            return TupleV(segs)
        if getattr(a, 'typ', '') in ('tuple', 'list') or getattr(b, 'typ', '') in ('tuple', 'list'):
            segs = it.tidy(it.to_segs(a) + it.to_segs(b))
            return TupleV(segs) if 'tuple' in (getattr(a, 'typ', ''), getattr(b, 'typ', '')) else it.new_list(segs)
    if op in ('Add', 'Sub'):
        if isinstance(a, SetObj) and op == 'Sub':
            return set_minus(it, a, b)
        r = lin_comb(a, b, 1 if op == 'Add' else -1)
        if r is not None:
            return r
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and isinstance(x.v, int):
                if isinstance(y, (ListObj, TupleV)) and y.concrete:
                    segs = list(y.segs) * x.v
                    return TupleV(segs) if isinstance(y, TupleV) else it.new_list(segs)
                r = lin_scale(y, x.v)
                if r is not None:
                    return r
    if op == 'BitOr':
        if isinstance(a, (ClassV, ExtV, SynthClass)) and isinstance(b, (ClassV, ExtV, SynthClass, Const)):
            return Term('typeunion', (a, b), 'cls')
        if isinstance(a, SetObj):
            return set_method(it, a, 'union', [b], {})
        if isinstance(a, DictObj) or isinstance(b, DictObj) or getattr(a, 'typ', '') == 'dict':
            return it.new_dict(it.as_layers(a) + it.as_layers(b))
    if op == 'BitAnd' and isinstance(a, SetObj):
        return set_method(it, a, 'intersection', [b], {})
    if isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None:
        it.raise_('builtins.TypeError')
    return Term(op, (a, b))


# ---------------------------------------------------------------- methods
def bind_signature(it, fi, args, kwargs, skip=1):
    """Arguments of a call by parameter name, defaults included."""
    out = {}
    names = fi.params[skip:]
    for n, a in zip(names, args):
        out[n] = a
    for k, v in kwargs.items():
        out[k] = v
    for n in names + fi.kwonly:
        if n not in out and n in fi.defaults:
            out[n] = it.default_value(FuncV(fi), n)
    return out


def call_method(it, recv, name, args, kwargs):
    if it.sym_methods is not None:
        r = it.sym_methods(it, recv, name, args, kwargs)
        if r is not NotImplemented:
            return r
    o = recv
    if isinstance(recv, (Sym, Term)) and recv.key in it.shadow:
        o = it.shadow[recv.key]
    if isinstance(o, Const):
        if o.v is None:
            it.raise_('builtins.AttributeError')
        if isinstance(o.v, str):
            return str_method(it, o, name, args, kwargs)
        if name == '__class__':
            return it.type_of(o)
        it.imprecise(f'method {name} of {o!r}')
    if isinstance(o, DictObj):
        return dict_method(it, o, name, args, kwargs)
    if isinstance(o, ListObj):
        return list_method(it, o, name, args, kwargs)
    if isinstance(o, TupleV):
        if name == 'index':
            return seq_find(it, o, args[0])
        if name == 'count':
            return Term('count', (o, args[0]), 'int')
        if name in ('__len__', '__iter__', '__contains__', '__getitem__'):
            return dunder(it, o, name, args)
        it.imprecise(f'tuple.{name}')
    if isinstance(o, SetObj):
        return set_method(it, o, name, args, kwargs)
    if isinstance(o, IterV):
        if name == '__next__':
            return FUNCS['builtins.next'](it, [o], {})
        if name in ('__iter__',):
            return o
        it.imprecise(f'{o.kind}.{name}')
    if isinstance(o, EnumM):
        return call_method(it, it.lift(o.value), name, args, kwargs)
    if isinstance(o, (Sym, Term)):
        if o.typ.startswith('?') and it.isnone(o):
            it.raise_('builtins.AttributeError', name)
        t = o.typ.lstrip('?')
        if t == 'str':
            return str_method(it, o, name, args, kwargs)
        if t == 'dict':
            return dict_method(it, o, name, args, kwargs)
        if t in ('list', 'tuple'):
            if name in ('append', 'extend', 'insert', 'pop', 'clear', 'remove', 'sort', 'reverse'):
                it.event('mutate', name, o, args)
                return it.fresh(f'{name} result', havoc=True)
            if name == 'index':
                return seq_find(it, o, args[0])
            if name == 'copy':
                return it.new_list([('slice', o, Const(0), it.len_of(o))])
            if name in ('__len__', '__iter__', '__contains__', '__getitem__'):
                return dunder(it, o, name, args)
        if isinstance(o, Term) and o.op == 're.compile' and name in ('match', 'fullmatch', 'search'):
            return _re_call(it, name, [o.args[0]] + args)
        if isinstance(o, Term) and o.op in ('re.match', 're.fullmatch', 're.search') and name == 'group' and len(args) <= 1:
            return Term('item', (o, args[0] if args else Const(0)))
        cls = it.typ_class(o)
        if cls is not None:
            r = it.class_lookup(cls, name)
            if r is not None and isinstance(r[0], FuncInfo):
                kw = bind_signature(it, r[0], args, kwargs)
                return it.opaque_call('call', name, o, [], kw,
                                      it.attr_typs.get((t, name), it.annotation_typ(r[0].returns)))
        if t == 'any' and name in MAYBE_DICT and ('any', name) not in it.attr_typs:
            return dict_method(it, Sym(o.name, 'dict', o.havoc, o.meta) if isinstance(o, Sym)
                               else Term(o.op, o.args, 'dict'), name, args, kwargs)
        if t == 'any' and name in ('append', 'extend', 'insert', 'clear', 'update', 'setdefault', 'add'):
            it.event('mutate', name, o, args)
        return it.opaque_call('call', name, o, args, kwargs, it.attr_typs.get((t, name), 'any'))
    if isinstance(o, Inst) and isinstance(o.cls, ExtV) and o.cls.name == 're.Match' and name in ('group', 'groups'):
        gs = o.attrs['__tuple__']
        if name == 'groups' and not args:
            return TupleV(gs.segs[1:])
        if name == 'group' and len(args) <= 1:
            return it.seq_index(gs, args[0] if args else Const(0))
    if isinstance(o, Inst) and isinstance(o.cls, ClassInfo) and it.p.is_exception(o.cls) and name == '__init__':
        o.attrs['args'] = TupleV.of(args)
        return NONE
    if name in ('__init__', '__init_subclass__', '__set_name__') and isinstance(o, (Inst, ClassV, SynthClass)):
        it.opaque_call('call', name, o, args, kwargs, 'none')
        return NONE
    return it.opaque_call('call', name, o, args, kwargs)


MAYBE_DICT = {'items', 'keys', 'values', 'get'}


# ---------------------------------------------------------------- functions
def call_external(it, dotted, args, kwargs):
    fn = it.ext.get(dotted)
    if fn is not None:
        r = fn(it, args, kwargs)
        if r is not NotImplemented:
            return r
    fn = FUNCS.get(dotted)
    if fn is not None:
        return fn(it, args, kwargs)
    last = dotted.split('.')[-1]
    if last.endswith('Error') or last.endswith('Exception') or last in ('StopIteration', 'Warning'):
        attrs = {'args': TupleV.of([a for a in args])} if not any(type(a).__name__ == 'Star' for a in args) else {}
        attrs.update({k: v for k, v in kwargs.items() if k != '**'})
        from .interp import EXC_ALIASES
        return it.new_inst(ExtV(EXC_ALIASES.get(dotted, dotted)), attrs)
    if dotted.startswith('builtins.dict.fromkeys'):
        return fromkeys(it, args)
    if dotted.startswith(('builtins.str.', 'builtins.dict.', 'builtins.list.', 'builtins.set.')) and args:
        return call_method(it, args[0], last, args[1:], kwargs)
    return it.opaque_call('ext', dotted, None, args, kwargs)


def fromkeys(it, args):
    d = it.new_dict()
    v = args[1] if len(args) > 1 else NONE
    it.iterate(args[0], lambda k: it.dict_set(d, k, v))
    return d


@ext('builtins.len')
def _len(it, args, kw):
    return it.len_of(args[0])


@ext('builtins.isinstance')
def _isinstance(it, args, kw):
    return const_bool(it.is_instance(args[0], args[1]))


@ext('builtins.issubclass')
def _issubclass(it, args, kw):
    c = args[0]
    if isinstance(c, (Inst, Const, ListObj, DictObj, TupleV)):
        it.raise_('builtins.TypeError')
    return const_bool(it.subclass(c, args[1]))


@ext('builtins.getattr')
def _getattr(it, args, kw):
    if isinstance(args[1], Const):
        return it.getattr(args[0], args[1].v, args[2] if len(args) > 2 else None)
    return Term('attr', (args[0], args[1]))


@ext('builtins.hasattr')
def _hasattr(it, args, kw):
    o, n = args
    if isinstance(n, Const):
        if isinstance(o, (Sym, Term)) and it.typ_class(o) is None and not (getattr(o, 'meta', None) or {}).get('attrs'):
            k = (o.key, n.key, 'hasattr')
            if k not in it.insts:
                it.insts[k] = it.choose(f'hasattr({o!r}, {n!r})', [True, False])
            return const_bool(it.insts[k])
        return const_bool(it.getattr_opt(o, n.v) is not None)
    return Term('hasattr', (o, n), 'bool')


@ext('builtins.setattr')
def _setattr(it, args, kw):
    if isinstance(args[1], Const):
        it.setattr(args[0], args[1].v, args[2])
    else:
        it.event('mutate', 'setattr', args[0], [args[1], args[2]])
    return NONE


@ext('builtins.delattr')
def _delattr(it, args, kw):
    it.event('mutate', 'delattr', args[0], [args[1]])
    return NONE


@ext('builtins.zip', 'zip')
def _zip(it, args, kw):
    if not args:
        return TupleV(())
    return IterV('zip', *args)


@ext('builtins.enumerate')
def _enumerate(it, args, kw):
    return IterV('enumerate', args[0], arg(1, args, kw, 'start', Const(0)))


@ext('builtins.range')
def _range(it, args, kw):
    if len(args) == 1:
        return IterV('range', Const(0), args[0], Const(1))
    return IterV('range', args[0], args[1], args[2] if len(args) > 2 else Const(1))


@ext('builtins.list')
def _list(it, args, kw):
    if not args:
        return it.new_list()
    v = args[0]
    if isinstance(v, IterV) and it.indexable(v) is None or isinstance(v, SetObj):
        out = it.new_list()
        it.iterate(v, lambda x: it.list_append(out, x))
        return out
    if isinstance(v, Const) and v.v is None:
        it.raise_('builtins.TypeError')
    return it.new_list(it.materialise(v))


@ext('builtins.tuple')
def _tuple(it, args, kw):
    if not args:
        return TupleV(())
    if isinstance(args[0], Const) and args[0].v is None:
        it.raise_('builtins.TypeError')
    return TupleV(it.materialise(args[0]))


@ext('builtins.dict', 'collections.OrderedDict')
def _dict(it, args, kw):
    d = it.new_dict()
    if args:
        d.layers = it.as_layers(args[0])
    for k, v in kw.items():
        if k == '**':
            for b in v:
                d.layers = d.layers + it.as_layers(b)
        else:
            d.layers = d.layers + [('kv', Const(k), v)]
    return d


@ext('collections.ChainMap')
def _chainmap(it, args, kw):
    d = it.new_dict(mapkind='chain')
    las = []
    for a in reversed(args):
        las += it.as_layers(a)
    d.layers = las
    return d


@ext('types.MappingProxyType')
def _proxy(it, args, kw):
    return args[0]


@ext('builtins.set', 'builtins.frozenset')
def _set(it, args, kw):
    s = it.new_set()
    if args:
        set_update(it, s, args[0]) if not isinstance(args[0], IterV) or it.indexable(args[0]) is not None else \
            it.iterate(args[0], lambda x: (it.mutated(s, 'add', (x,)), set_add(it, s, x)))
    return s


@ext('builtins.str')
def _str(it, args, kw):
    return to_str(it, args[0]) if args else Const('')


@ext('builtins.repr')
def _repr(it, args, kw):
    return Const(repr(args[0].v)) if isinstance(args[0], Const) else Term('repr', args, 'str')


@ext('builtins.bool')
def _bool(it, args, kw):
    return const_bool(it.truth(args[0])) if args else FALSE


@ext('builtins.int')
def _int(it, args, kw):
    if args and isinstance(args[0], Const):
        try:
            return Const(int(args[0].v))
        except (TypeError, ValueError) as e:
            it.raise_('builtins.' + type(e).__name__)
    if args and getattr(args[0], 'typ', '') == 'int':
        return args[0]
    return Term('int', args, 'int')


@ext('builtins.type')
def _type(it, args, kw):
    return it.type_of(args[0])


@ext('builtins.id', 'builtins.hash')
def _id(it, args, kw):
    return Term('id', args, 'int')


@ext('builtins.callable')
def _callable(it, args, kw):
    v = args[0]
    if isinstance(v, (FuncV, BoundV, ClassV, SynthClass, PyFn, PartialV, MethV, ExtV)):
        return TRUE
    if getattr(v, 'typ', '') in ('fn', 'cls'):
        return TRUE
    if getattr(v, 'typ', '').lstrip('?') in ('str', 'int', 'bool', 'dict', 'list', 'tuple', 'set', 'none', 'elem', 'native'):
        return FALSE
    if isinstance(v, Inst):
        r = it.class_lookup(v.cls, '__call__')
        if r is not None or not isinstance(v.cls, ExtV):
            return const_bool(r is not None)
    if isinstance(v, (Const, ListObj, DictObj, TupleV, SetObj)):
        return FALSE
    return Term('callable', args, 'bool')


@ext('builtins.vars')
def _vars(it, args, kw):
    return it.getattr(args[0], '__dict__')


@ext('builtins.print', 'warnings.warn')
def _none(it, args, kw):
    return NONE


def _search(it, src, test):
    from .interp import StopPush
    tok = object()

    def f(x):
        if test(x):
            raise StopPush(tok, x)
    try:
        it.iterate(src, f)
    except StopPush as s:
        if s.token is not tok:
            raise
        return (s.value,)
    return None


@ext('builtins.any')
def _any(it, args, kw):
    return const_bool(_search(it, args[0], it.truth) is not None)


@ext('builtins.all')
def _all(it, args, kw):
    return const_bool(_search(it, args[0], lambda x: not it.truth(x)) is None)


@ext('builtins.next')
def _next(it, args, kw):
    src = args[0]
    if isinstance(src, IterV) and src.kind not in ('genexp',):
        used = it.path.data.setdefault('nexted', {})
        used[id(src)] = used.get(id(src), 0) + 1
        if used[id(src)] > 1 or it.loops:
            it.imprecise('iterator advanced by hand')
        it.path.data.setdefault('keep', []).append(src)
    r = _search(it, src, lambda x: True)
    if r is not None:
        return r[0]
    if len(args) > 1:
        return args[1]
    it.raise_('builtins.StopIteration')


@ext('builtins.iter')
def _iter(it, args, kw):
    return IterV('iter', args[0])


@ext('builtins.sorted')
def _sorted(it, args, kw):
    v = args[0]
    if isinstance(v, SetObj):
        segs = [('i', x) for x in v.items] + ([('unk', 'sorted')] if v.unk or v.bases else [])
        if any(s[0] == 'unk' for s in segs):
            return it.new_list([('unk', 'sorted')])
    else:
        segs = it.to_segs(v)
    return it.new_list(sort_segs(it, segs, kw.get('key'), kw.get('reverse')))


@ext('builtins.reversed')
def _reversed(it, args, kw):
    v = args[0]
    if isinstance(v, (ListObj, TupleV)) and v.concrete:
        return TupleV(list(reversed(v.segs)))
    if isinstance(v, DictObj) and v.concrete:
        return TupleV.of([la[1] for la in reversed(v.layers)])
    return IterV('reversed', v)


def _minmax(op):
    def f(it, args, kw):
        if len(args) == 2 and lin_of(args[0]) is not None and lin_of(args[1]) is not None:
            a, b = args
            ge = it.decide_ge(lin_comb(a, b, -1), f'{a!r} >= {b!r}')
            return (a if ge else b) if op == 'max' else (b if ge else a)
        if len(args) == 1 and isinstance(args[0], (ListObj, TupleV)) and args[0].concrete and args[0].items \
                and all(isinstance(x, Const) for x in args[0].items) and not kw:
            return Const((max if op == 'max' else min)(x.v for x in args[0].items))
        return Term(op, args)
    return f


FUNCS['builtins.max'] = _minmax('max')
FUNCS['builtins.min'] = _minmax('min')


@ext('builtins.sum')
def _sum(it, args, kw):
    return Term('sum', args, 'int')


@ext('builtins.abs')
def _abs(it, args, kw):
    return Term('abs', args, 'int')


@ext('builtins.map')
def _map(it, args, kw):
    return IterV('map', args[0], tuple(args[1:]))


@ext('builtins.filter')
def _filter(it, args, kw):
    return IterV('filter', args[0], args[1])


@ext('itertools.count')
def _count(it, args, kw):
    return IterV('count', arg(0, args, kw, 'start', Const(0)), arg(1, args, kw, 'step', Const(1)))


@ext('itertools.chain')
def _chain(it, args, kw):
    return IterV('chain', *args)


@ext('itertools.chain.from_iterable')
def _chainiter(it, args, kw):
    return IterV('chainiter', args[0])


@ext('itertools.islice')
def _islice(it, args, kw):
    if len(args) == 2:
        return IterV('islice', args[0], Const(0), args[1])
    if len(args) == 4 and not (isinstance(args[3], Const) and args[3].v in (None, 1)):
        it.imprecise('islice step')
    start = args[1]
    if isinstance(start, Const) and start.v is None:
        start = Const(0)
    return IterV('islice', args[0], start, args[2])


@ext('itertools.takewhile')
def _takewhile(it, args, kw):
    return IterV('takewhile', args[0], args[1])


@ext('itertools.starmap')
def _starmap(it, args, kw):
    f = args[0]
    return IterV('map', PyFn('star', lambda i, a, k: i.call(f, i.to_segs_items(a[0]), {})), (args[1],))


@ext('functools.partial')
def _partial(it, args, kw):
    return PartialV(args[0], args[1:], kw)


@ext('functools.reduce')
def _reduce(it, args, kw):
    segs = it.to_segs(args[1])
    if any(s[0] != 'i' for s in segs):
        it.imprecise('reduce over an unknown sequence')
    vals = [s[1] for s in segs]
    if len(args) > 2:
        vals = [args[2]] + vals
    if not vals:
        it.raise_('builtins.TypeError')
    acc = vals[0]
    for v in vals[1:]:
        acc = it.call(args[0], [acc, v], {})
    return acc


@ext('operator.or_')
def _or(it, args, kw):
    return binop(it, 'BitOr', args[0], args[1])


@ext('functools.wraps', 'functools.lru_cache', 'functools.cache')
def _wraps(it, args, kw):
    if args and isinstance(args[0], (FuncV, BoundV)) and False:
        return args[0]
    return PyFn('identity', lambda i, a, k: a[0])


@ext('typing.cast', 'typing_extensions.cast')
def _cast(it, args, kw):
    return args[1]


@ext('typing.get_origin', 'typing.get_args', 'typing.get_type_hints', 'typing_extensions.get_origin', 'typing_extensions.get_args')
def _typing(it, args, kw):
    return Term('typing', args)


@ext('typing.get_args', 'typing_extensions.get_args')
def _get_args(it, args, kw):
    if isinstance(args[0], Inst):
        return args[0].attrs.get('__args__') or TupleV([])
    if isinstance(args[0], (ExtV, ClassV, SynthClass, Const, ListObj)):
        return TupleV([])
    return Term('typing', args)


@ext('typing.get_origin', 'typing_extensions.get_origin')
def _get_origin(it, args, kw):
    if isinstance(args[0], Inst):
        return args[0].attrs.get('__origin__') or NONE
    if isinstance(args[0], (ExtV, ClassV, SynthClass, Const, ListObj)):
        return NONE
    return Term('typing', args)


@ext('typing.TypeVar', 'typing_extensions.TypeVar')
def _typevar(it, args, kw):
    return Term('TypeVar', args[:1], 'obj')


@ext('dataclasses.replace')
def _replace(it, args, kw):
    o = args[0]
    if isinstance(o, Inst):
        n = it.new_inst(o.cls, {k: v for k, v in o.attrs.items() if not it.is_cached_property(o.cls, k)})
        for k, v in kw.items():
            if k == '**':
                it.imprecise('replace with unknown keys')
            n.attrs[k] = v
        post = it.class_lookup(n.cls, '__post_init__')
        if post is not None and isinstance(post[0], FuncInfo):
            it.call(BoundV(FuncV(post[0]), n), [], {})
        return n
    return Term('replace', [o] + [v for k, v in sorted(kw.items())], 'obj')


@ext('dataclasses.asdict')
def _asdict(it, args, kw):
    o = args[0]
    if isinstance(o, Inst):
        fields = it.dataclass_fields(o.cls) if isinstance(o.cls, ClassInfo) else o.attrs
        return it.dict_of({k: o.attrs[k] for k in fields if k in o.attrs})
    return Term('asdict', (o,), 'dict')


@ext('dataclasses.fields')
def _fields(it, args, kw):
    o = args[0]
    c = o.cls if isinstance(o, Inst) else o.ci if isinstance(o, ClassV) else None
    if isinstance(c, ClassInfo):
        return TupleV.of([it.new_inst(ExtV('dataclasses.Field'), {'name': Const(n)}) for n in it.dataclass_fields(c)])
    return Term('fields', (o,), 'tuple')


def shallow(it, v):
    if isinstance(v, Inst):
        return it.new_inst(v.cls, dict(v.attrs))
    if isinstance(v, ListObj):
        return it.new_list(list(v.segs))
    if isinstance(v, DictObj):
        return it.new_dict(list(v.layers), mapkind=v.mapkind)
    if isinstance(v, SetObj):
        s = it.new_set(list(v.items))
        s.unk, s.bases = v.unk, list(v.bases)
        return s
    if isinstance(v, (Const, TupleV, EnumM)):
        return v
    return Term('copy', (v,), getattr(v, 'typ', 'any'))


@ext('copy.copy')
def _copy(it, args, kw):
    return shallow(it, args[0])


@ext('copy.deepcopy')
def _deepcopy(it, args, kw):
    memo = {}

    def cp(v):
        if v.key in memo:
            return memo[v.key]
        if isinstance(v, Inst):
            n = memo[v.key] = it.new_inst(v.cls)
            n.attrs = {k: cp(x) for k, x in v.attrs.items()}
            return n
        if isinstance(v, (ListObj,)):
            n = memo[v.key] = it.new_list()
            n.segs = [('i', cp(s[1])) if s[0] == 'i' else s for s in v.segs]
            return n
        if isinstance(v, TupleV):
            return TupleV([('i', cp(s[1])) if s[0] == 'i' else s for s in v.segs])
        if isinstance(v, DictObj):
            n = memo[v.key] = it.new_dict(mapkind=v.mapkind)
            n.layers = [('kv', la[1], cp(la[2])) if la[0] == 'kv' else la for la in v.layers]
            return n
        if isinstance(v, (Sym, Term)) and getattr(v, 'typ', '') not in ('str', 'int', 'bool', 'fn', 'cls'):
            if isinstance(v, Term) and v.op == 'deepcopy':
                return v
            return Term('deepcopy', (v,), v.typ)
        return v
    return cp(args[0])


@ext('contextlib.suppress')
def _suppress(it, args, kw):
    return IterV('suppress', tuple(args))


@ext('inspect.isclass')
def _isclass(it, args, kw):
    v = args[0]
    if isinstance(v, (ClassV, SynthClass)):
        return TRUE
    if isinstance(v, ExtV):
        return const_bool(it.is_instance(v, ExtV('builtins.type')))
    if isinstance(v, (Sym, Term)):
        if v.typ == 'cls':
            return TRUE
        if 'isclass' in (getattr(v, 'meta', None) or {}):
            return const_bool(v.meta['isclass'])
        k = (v.key, 'isclass')
        if k not in it.insts:
            it.insts[k] = it.choose(f'isclass({v!r})', [True, False])
        return const_bool(it.insts[k])
    return FALSE


@ext('re.compile')
def _recompile(it, args, kw):
    return Term('re.compile', args, 'obj')


def _re_call(it, name, args):
    import re
    pat, text = args[0], args[1]
    if isinstance(pat, Term) and pat.op == 're.compile':
        pat = pat.args[0]
    if isinstance(pat, Const) and isinstance(pat.v, str) and len(args) == 2:
        parts = [text] if not (isinstance(text, Term) and text.op == 'str') else list(text.args)
        known = all(isinstance(x, Const) and isinstance(x.v, str) for x in parts)
        if known or isinstance(text, Term) and text.op == 'str' and all(
                isinstance(x, (Const, Sym)) for x in parts):
            # unknown parts of a composed name are XML names or, between braces, URIs: with every kind of character these may have
            words = {}
            s = witness(parts, words)
            m = getattr(re, name)(pat.v, s)
            if m is None:
                return NONE
            groups = []
            for g in (m.group(0),) + m.groups():
                if g is None:
                    groups.append(NONE)
                    continue
                x = unwitness(g, words)
                if x is None:
                    return Term('re.' + name, args, '?obj')
                groups.append(x)
            return it.new_inst(ExtV('re.Match'), {'__tuple__': TupleV.of(groups)})
        try:
            import sre_parse
        except ImportError:
            from re import _parser as sre_parse
        try:
            tree = sre_parse.parse(pat.v)
            plain = {'LITERAL', 'MAX_REPEAT', 'MIN_REPEAT', 'SUBPATTERN', 'ANY', 'IN', 'BRANCH', 'NOT_LITERAL', 'CATEGORY'}
            if name != 'fullmatch' and tree.getwidth()[0] == 0 and all(str(op) in plain for op, _ in tree):
                return Term('re.' + name, args, 'obj')
        except Exception:
            pass
    return Term('re.' + name, args, '?obj')


for _n in ('match', 'fullmatch', 'search'):
    FUNCS['re.' + _n] = (lambda n: lambda it, args, kw: _re_call(it, n, args))(_n)


@ext('os.environ.get', 'os.getenv')
def _environ(it, args, kw):
    return Term('environ', args, 'str')


@ext('pydantic_core.InitErrorDetails')
def _ied(it, args, kw):
    return it.dict_of({k: v for k, v in kw.items() if k != '**'})


@ext('pydantic_core.PydanticCustomError')
def _pce(it, args, kw):
    names = ['type', 'message_template', 'context']
    attrs = dict(zip(names, args))
    attrs.update({{'error_type': 'type'}.get(k, k): v for k, v in kw.items() if k != '**'})
    return it.new_inst(ExtV('pydantic_core.PydanticCustomError'), attrs)


@ext('pydantic.ValidationError.from_exception_data', 'pydantic_core.ValidationError.from_exception_data')
def _fed(it, args, kw):
    names = ['title', 'line_errors', 'input_type', 'hide_input']
    attrs = dict(zip(names, args))
    attrs.update({k: v for k, v in kw.items() if k != '**'})
    e = it.event('ext', 'from_exception_data', None, [], attrs)
    e.result = it.new_inst(ExtV('pydantic.ValidationError'), attrs)
    return e.result
