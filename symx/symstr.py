"""Strings of symbolic characters, for the parsers: SymStr has the methods of str which parsers use, and `re`, `int`,
`float` and `str` of the modules under test are replaced (while exploring) with versions which understand it.  Each
test of a character against a set of characters is one branch, so what a parser does not look at stays arbitrary."""
import builtins
import re as _re
import re._parser as _sp
import re._constants as _k

import z3

from . import engine as E
from .engine import Ctx, Sym, SymBool

NOTE = ('strings: fixed-length strings of symbolic characters with the methods of str, the regular expressions of `re`, '
        'int(), float() and str() of the Python documentation (concrete replays use real strings and the real `re`)')
DIGITS = '0123456789'
SPACES = ' \t\n\r\f\v'


def _in(c, chars):
    """is the character one of chars -> bool (a branch when symbolic)"""
    if not isinstance(c, Sym):
        return chr(c) in chars
    e = c.e if hasattr(c, 'e') else E.lift(c)
    codes = set(ord(x) for x in chars)
    can = _alphabets.get(e.decl().name()) if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
    if can is not None:
        if can <= codes:
            return True
        codes &= can
    codes = sorted(codes)
    if not codes:
        return False
    terms, i = [], 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        terms.append(e == codes[i] if i == j else z3.And(e >= codes[i], e <= codes[j]))
        i = j + 1
    return bool(E.mkbool(z3.Or(*terms) if len(terms) > 1 else terms[0]))


def _same(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a == b
    return a == b


_alphabets = {}        # of the characters of text()


def text(S, name, n, alphabet):
    """an arbitrary string of n characters of the alphabet"""
    codes = sorted(set(ord(c) for c in alphabet))
    if not S.symbolic:
        return ''.join(chr(S.int('%s%d' % (name, i), codes[0], codes[-1])) for i in range(n))
    out = []
    for i in range(n):
        v = S.int('%s%d' % (name, i), codes[0], codes[-1])
        if len(codes) != codes[-1] - codes[0] + 1:
            S.ctx.assume(z3.Or(*[E.lift(v) == c for c in codes]))
        e = E.lift(v)
        if e.num_args() == 0:
            _alphabets[e.decl().name()] = frozenset(codes)
        out.append(v)
    return SymStr(out)


def _which(c):
    """exact case split of a symbolic character"""
    ctx, e = Ctx.current, E.lift(c)
    lo, hi = 0, 127
    while lo < hi:
        mid = (lo + hi) // 2
        if ctx.branch(e <= mid):
            hi = mid
        else:
            lo = mid + 1
    return lo


def codes(s):
    return list(s._c) if type(s) is SymStr else [ord(c) for c in s]


def digits_value(s):
    """the number which a string of digits stands for"""
    v = 0
    for c in codes(s):
        v = v * 10 + (c - 48)
    return v


class SymStr(object):
    __class__ = property(lambda self: str)          # isinstance(x, str)

    def __init__(self, chars):
        self._c = list(chars)

    # -- what it is
    def __len__(self):
        return len(self._c)

    def __bool__(self):
        return bool(self._c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self._c[i])
        return mk([self._c[i]])

    def __iter__(self):
        return iter([mk([c]) for c in self._c])

    def _eq(self, o):
        if type(o) is not SymStr and not isinstance(o, str):
            return NotImplemented
        a, b = self._c, codes(o)
        if len(a) != len(b):
            return False
        terms = []
        for x, y in zip(a, b):
            t = _same(x, y)
            if t is False:
                return False
            if t is not True:
                terms.append(E.bexpr(t))
        return E.mkbool(z3.And(*terms)) if terms else True

    def __eq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        r = self._eq(o)
        return r if r is NotImplemented else (not r if isinstance(r, bool) else ~r)

    def _concrete(self):
        for i, c in enumerate(self._c):
            if isinstance(c, Sym):
                self._c[i] = _which(c)
        return ''.join(chr(c) for c in self._c)

    def __hash__(self):
        return hash(self._concrete())

    def __repr__(self):
        return "'<symbolic>'"

    def __str__(self):
        return '<symbolic>'

    def __format__(self, spec):
        return '<symbolic>'

    def __add__(self, o):
        return mk(self._c + codes(o))

    def __radd__(self, o):
        return mk(codes(o) + self._c)

    def __mul__(self, n):
        return mk(self._c * n)

    def __contains__(self, o):
        return self.find(o) >= 0

    # -- methods of str
    def find(self, sub, start=0, end=None):
        s = codes(sub)
        end = len(self._c) if end is None else min(end, len(self._c))
        for i in range(start, end - len(s) + 1):
            if mk(self._c[i:i + len(s)]) == sub:
                return i
        return -1

    def rfind(self, sub):
        s = codes(sub)
        for i in range(len(self._c) - len(s), -1, -1):
            if mk(self._c[i:i + len(s)]) == sub:
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        return len(self.split(sub)) - 1

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        return bool(mk(self._c[:len(p)]) == p) if len(p) <= len(self._c) else False

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        return len(p) == 0 or (bool(mk(self._c[-len(p):]) == p) if len(p) <= len(self._c) else False)

    def split(self, sep=None, maxsplit=-1):
        out, i, cur = [], 0, []
        if sep is None:
            for c in self._c:
                if _in(c, SPACES):
                    if cur:
                        out.append(cur)
                    cur = []
                else:
                    cur.append(c)
            if cur:
                out.append(cur)
            return [mk(x) for x in out]
        n = len(sep)
        while i < len(self._c):
            if (maxsplit < 0 or len(out) < maxsplit) and i + n <= len(self._c) and mk(self._c[i:i + n]) == sep:
                out.append(cur)
                cur = []
                i += n
            else:
                cur.append(self._c[i])
                i += 1
        out.append(cur)
        return [mk(x) for x in out]

    def partition(self, sep):
        i = self.find(sep)
        return (self, '', '') if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ('', '', self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def replace(self, a, b, count=-1):
        p = self.split(a, count)
        r = p[0]
        for x in p[1:]:
            r = r + b + x
        return r

    def lstrip(self, chars=SPACES):
        i = 0
        while i < len(self._c) and _in(self._c[i], chars):
            i += 1
        return mk(self._c[i:])

    def rstrip(self, chars=SPACES):
        i = len(self._c)
        while i > 0 and _in(self._c[i - 1], chars):
            i -= 1
        return mk(self._c[:i])

    def strip(self, chars=SPACES):
        return codes_str(self.lstrip(chars)).rstrip(chars)

    def _map(self, lo, hi, d):
        out = []
        for c in self._c:
            if isinstance(c, Sym):
                e = E.lift(c)
                out.append(Sym(z3.If(z3.And(e >= lo, e <= hi), e + d, e)))
            else:
                out.append(c + d if lo <= c <= hi else c)
        return mk(out)

    def upper(self):
        return self._map(97, 122, -32)

    def lower(self):
        return self._map(65, 90, 32)

    def isdigit(self):
        return len(self._c) > 0 and all(_in(c, DIGITS) for c in self._c)
    isdecimal = isnumeric = isdigit

    def isspace(self):
        return len(self._c) > 0 and all(_in(c, SPACES) for c in self._c)

    def isalpha(self):
        return len(self._c) > 0 and all(_in(c, LETTERS) for c in self._c)

    def isalnum(self):
        return len(self._c) > 0 and all(_in(c, LETTERS + DIGITS) for c in self._c)

    def encode(self, *a):
        return self


LETTERS = ''.join(chr(c) for c in list(range(65, 91)) + list(range(97, 123)))


def mk(chars):
    """real strings where nothing is symbolic"""
    if not any(isinstance(c, Sym) for c in chars):
        return ''.join(chr(c) for c in chars)
    return SymStr(chars)


def codes_str(s):
    return s


# ---------------------------------------------------------------------- numbers
def _digits(cs, i):
    """(value, end, number of digits) of digits with single underscores between them"""
    v, n = 0, 0
    while i < len(cs):
        c = cs[i]
        if _in(c, DIGITS):
            v, n, i = v * 10 + (c - 48), n + 1, i + 1
        elif n and i + 1 < len(cs) and _in(c, '_') and _in(cs[i + 1], DIGITS):
            i += 1
        else:
            break
    return v, i, n


def sym_int(x=0, *a):
    if type(x) is not SymStr:
        return builtins.int(x, *a)
    cs = codes(x.strip())
    i, s = 0, 1
    if cs and _in(cs[0], '+-'):
        s = -1 if _in(cs[0], '-') else 1
        i = 1
    v, i, n = _digits(cs, i)
    if not n or i != len(cs):
        raise ValueError('invalid literal for int()')
    return v if s > 0 else -v


def sym_float(x=0.0):
    if type(x) is not SymStr:
        return builtins.float(x)
    cs = codes(x.strip())
    bad = ValueError('could not convert string to float')
    i, s = 0, 1
    if cs and _in(cs[0], '+-'):
        s = -1 if _in(cs[0], '-') else 1
        i = 1
    rest = mk(cs[i:])
    for word, val in (('inf', 'inf'), ('infinity', 'inf'), ('nan', 'nan')):
        if len(rest) == len(word) and bool(rest.lower() == word):
            return s * builtins.float(val)
    whole, i, n = _digits(cs, i)
    m = 0
    if i < len(cs) and _in(cs[i], '.'):
        i += 1
        frac, j, m = _digits(cs, i)
        i = j
        whole = whole * 10 ** m + frac
    if not n + m:
        raise bad
    ex = 0
    if i < len(cs) and _in(cs[i], 'eE'):
        i, es = i + 1, 1
        if i < len(cs) and _in(cs[i], '+-'):
            es = -1 if _in(cs[i], '-') else 1
            i += 1
        ex, i, k = _digits(cs, i)
        if not k:
            raise bad
        if isinstance(ex, Sym):
            ex = E.enumerate_int(ex)
        ex *= es
    if i != len(cs):
        raise bad
    v = whole if isinstance(whole, Sym) else E.sym(z3.RealVal(whole)) if False else whole
    v = v * s
    p = ex - m
    if isinstance(v, Sym):
        v = Sym(z3.ToReal(E.lift(v)))
        return v * Sym(z3.RealVal(10 ** p)) if p >= 0 else v / Sym(z3.RealVal(10 ** -p))
    return builtins.float(v * 10.0 ** p)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.str)

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.str)


class sym_str(builtins.str, metaclass=_StrMeta):
    def __new__(cls, x='', *a):
        return x if type(x) is SymStr else builtins.str(x, *a)


class _IntMeta(type):
    base = builtins.int

    def __instancecheck__(cls, x):
        return isinstance(x, cls.base)

    def __call__(cls, *a):
        return cls.conv(*a)

    def __eq__(cls, o):
        return o is cls.base or o is cls

    def __hash__(cls):
        return hash(cls.base)


class int_(metaclass=_IntMeta):
    base = builtins.int
    conv = staticmethod(sym_int)


class float_(metaclass=_IntMeta):
    base = builtins.float
    conv = staticmethod(sym_float)


# ---------------------------------------------------------------------- regular expressions
def _category(c, cat):
    if cat in (_k.CATEGORY_DIGIT, _k.CATEGORY_NOT_DIGIT):
        return _in(c, DIGITS) == (cat == _k.CATEGORY_DIGIT)
    if cat in (_k.CATEGORY_SPACE, _k.CATEGORY_NOT_SPACE):
        return _in(c, SPACES) == (cat == _k.CATEGORY_SPACE)
    if cat in (_k.CATEGORY_WORD, _k.CATEGORY_NOT_WORD):
        return _in(c, LETTERS + DIGITS + '_') == (cat == _k.CATEGORY_WORD)
    raise NotImplementedError(str(cat))


def _cls(c, items, fold=lambda s: s):
    neg = items and items[0][0] is _k.NEGATE
    chars, found = '', False
    for op, av in items[1:] if neg else items:
        if op is _k.LITERAL:
            chars += chr(av)
        elif op is _k.RANGE:
            chars += ''.join(chr(x) for x in range(av[0], min(av[1], 255) + 1))
        elif op is _k.CATEGORY:
            if _category(c, av):
                return not neg
        else:
            raise NotImplementedError(str(op))
    return _in(c, fold(chars)) != bool(neg)


def _either_case(s):
    return s + s.upper() + s.lower()


class _M(object):
    """one attempt to match: positions where `seq` can end, in order of preference"""

    def __init__(self, cs, flags):
        self.cs, self.flags = cs, flags

    def seq(self, ops, k, i, g):
        if k == len(ops):
            yield i, g
            return
        for j, h in self.one(ops[k], i, g):
            yield from self.seq(ops, k + 1, j, h)

    def one(self, node, i, g):
        op, av = node
        cs = self.cs
        if op in (_k.LITERAL, _k.NOT_LITERAL, _k.ANY, _k.IN):
            if i >= len(cs):
                return
            c = cs[i]
            fold = _either_case if self.flags & _re.IGNORECASE else lambda s: s
            ok = (_in(c, fold(chr(av))) if op is _k.LITERAL else not _in(c, fold(chr(av))) if op is _k.NOT_LITERAL else
                  not _in(c, '\n') if op is _k.ANY else _cls(c, av, fold))
            if ok:
                yield i + 1, g
        elif op is _k.SUBPATTERN:
            gid, add, rem, p = av
            for j, h in self.seq(list(p), 0, i, g):
                if gid is not None:
                    h = dict(h)
                    h[gid] = (i, j)
                yield j, h
        elif op is _k.BRANCH:
            for p in av[1]:
                yield from self.seq(list(p), 0, i, g)
        elif op in (_k.MAX_REPEAT, _k.MIN_REPEAT):
            lo, hi, p = av
            yield from self.rep(list(p), lo, hi, i, g, op is _k.MAX_REPEAT, 0)
        elif op is _k.AT:
            if av in (_k.AT_BEGINNING, _k.AT_BEGINNING_STRING):
                ok = i == 0
            elif av is _k.AT_END_STRING:
                ok = i == len(cs)
            elif av is _k.AT_END:
                ok = i == len(cs) or (i == len(cs) - 1 and _in(cs[i], '\n'))
            elif av in (_k.AT_BOUNDARY, _k.AT_NON_BOUNDARY):
                w = LETTERS + DIGITS + '_'
                a = i > 0 and _in(cs[i - 1], w)
                b = i < len(cs) and _in(cs[i], w)
                ok = (a != b) == (av is _k.AT_BOUNDARY)
            else:
                raise NotImplementedError(str(av))
            if ok:
                yield i, g
        elif op in (_k.ASSERT, _k.ASSERT_NOT):
            d, p = av
            start = i
            if d < 0:
                w = p.getwidth()[0]
                start = i - w
            hit = None
            if start >= 0:
                for j, h in self.seq(list(p), 0, start, g):
                    if d > 0 or j == i:
                        hit = h
                        break
            if (hit is not None) == (op is _k.ASSERT):
                yield i, hit if op is _k.ASSERT else g
        elif op is _k.GROUPREF:
            a, b = g[av]
            n = b - a
            if i + n <= len(cs) and bool(mk(cs[a:b]) == mk(cs[i:i + n])):
                yield i + n, g
        else:
            raise NotImplementedError(str(op))

    def rep(self, p, lo, hi, i, g, greedy, n):
        more = hi is _k.MAXREPEAT or n < hi
        if not greedy and n >= lo:
            yield i, g
        if more:
            for j, h in self.seq(p, 0, i, g):
                if j == i and n >= lo:
                    continue
                yield from self.rep(p, lo, hi, j, h, greedy, n + 1)
        if greedy and n >= lo:
            yield i, g


class Match(object):
    def __init__(self, s, names, ngroups, i, j, g):
        self.string, self._names, self._n, self._i, self._j, self._g = s, names, ngroups, i, j, g

    def span(self, k=0):
        if k == 0:
            return self._i, self._j
        k = self._names.get(k, k)
        if not isinstance(k, builtins.int) or k > self._n:
            raise IndexError('no such group')
        return self._g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def group(self, *ks):
        r = []
        for k in ks or (0,):
            a, b = self.span(k)
            r.append(None if a < 0 else self.string[a:b])
        return r[0] if len(r) == 1 else tuple(r)
    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self.span(k)[0] < 0 else self.group(k) for k in range(1, self._n + 1))

    def groupdict(self, default=None):
        return {n: (default if self.span(k)[0] < 0 else self.group(k)) for n, k in self._names.items()}


class Pattern(object):
    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags
        self._real = _re.compile(pattern, flags)
        t = _sp.parse(pattern, flags)
        self._ops, self._names, self._n = list(t), dict(t.state.groupdict), t.state.groups - 1

    def _at(self, s, i, full=False):
        cs = codes(s)
        for j, g in _M(cs, self.flags).seq(self._ops, 0, i, {}):
            if not full or j == len(cs):
                return Match(s, self._names, self._n, i, j, g)
        return None

    def match(self, s):
        return self._real.match(s) if type(s) is not SymStr else self._at(s, 0)

    def fullmatch(self, s):
        return self._real.fullmatch(s) if type(s) is not SymStr else self._at(s, 0, True)

    def search(self, s):
        if type(s) is not SymStr:
            return self._real.search(s)
        for m in self.finditer(s):
            return m
        return None

    def finditer(self, s):
        if type(s) is not SymStr:
            yield from self._real.finditer(s)
            return
        i, last = 0, -1
        while i <= len(s):
            m = self._at(s, i)
            if m is None:
                i += 1
                continue
            if m._j == m._i and m._j == last:
                i += 1
                continue
            yield m
            last = m._j
            i = m._j if m._j > m._i else m._j
            if m._j == m._i:
                i += 1

    def findall(self, s):
        if type(s) is not SymStr:
            return self._real.findall(s)
        return [m.group(0) if self._n == 0 else m.groups('')[0] if self._n == 1 else m.groups('') for m in self.finditer(s)]

    def split(self, s, maxsplit=0):
        if type(s) is not SymStr:
            return self._real.split(s, maxsplit)
        out, p = [], 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(s[p:m._i])
            out.extend(m.groups())
            p = m._j
        return out + [s[p:]]

    def sub(self, repl, s, count=0):
        if type(s) is not SymStr:
            return self._real.sub(repl, s, count)
        out, p, n = '', 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            if callable(repl):
                r = repl(m)
            else:
                if '\\' in repl:
                    raise NotImplementedError('templates')
                r = repl
            out = out + s[p:m._i] + r
            p = m._j
            n += 1
        return out + s[p:]


class _Re(object):
    """stand-in for the module re"""
    error = _re.error
    IGNORECASE = I = _re.IGNORECASE
    VERBOSE = X = _re.VERBOSE
    escape = staticmethod(_re.escape)

    def __getattr__(self, k):
        return getattr(_re, k)

    @staticmethod
    def compile(p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(p, flags)

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def sub(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).sub(repl, s, count)


re = _Re()


class KeyDict(dict):
    """a dict of strings which compares a symbolic key with each of its keys"""

    def _key(self, k):
        if type(k) is SymStr:
            for x in self:
                if k == x:
                    return x
            return None
        return k

    def __contains__(self, k):
        k = self._key(k)
        return k is not None and dict.__contains__(self, k)

    def __getitem__(self, k):
        x = self._key(k)
        if x is None:
            raise KeyError(k)
        return dict.__getitem__(self, x)

    def get(self, k, default=None):
        return self[k] if k in self else default


def install(*modules):
    """replace what the modules use to take strings apart (only once the modules are imported)"""
    import types
    for m in modules:
        d = m.__dict__
        if d.get('re') is _re:
            d['re'] = re
        d['int'], d['float'], d['str'] = int_, float_, sym_str
        for f in list(d.values()):
            if isinstance(f, types.FunctionType) and f.__module__ == m.__name__ and f.__defaults__:
                f.__defaults__ = tuple(KeyDict(v) if type(v) is dict and v and all(isinstance(k, builtins.str) for k in v)
                                       else v for v in f.__defaults__)
        for k, v in list(d.items()):
            if isinstance(v, _re.Pattern):
                d[k] = Pattern(v.pattern, v.flags & ~_re.UNICODE)
            elif type(v) is dict and k[:2] != '__' and v and all(isinstance(x, builtins.str) for x in v):
                d[k] = KeyDict(v)


# ---------------------------------------------------------------------- what str itself does with other strings
def sym_in(a, b):
    if type(a) is SymStr and isinstance(b, (builtins.str, SymStr)):
        return SymStr(codes(b)).find(a) >= 0
    if type(a) is SymStr and isinstance(b, (dict, set, frozenset)):
        return any(a == k for k in b if isinstance(k, builtins.str))
    return a in b


def sym_join(sep, *a):
    if len(a) == 1 and isinstance(sep, (builtins.str, SymStr)):
        items = list(a[0])
        if any(type(x) is SymStr for x in items + [sep]):
            r = ''
            for i, x in enumerate(items):
                r = r + (sep if i else '') + x
            return r
        return sep.join(items)
    return sep.join(*a)


_done = set()


def instrument(S, *modules):
    """Run the current source of the modules again with `in` and str.join routed through the functions above, which do
    what Python does (str's own versions insist on real strings).  Only while exploring."""
    if not S.symbolic:
        return
    import ast

    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                c = ast.Call(ast.Name('__sym_in__', ast.Load()), [n.left, n.comparators[0]], [])
                return ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.NotIn) else c
            return n

        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and not n.keywords:
                return ast.Call(ast.Name('__sym_join__', ast.Load()), [n.func.value] + n.args, [])
            return n
    for m in modules:
        if m.__name__ in _done:
            continue
        _done.add(m.__name__)
        with open(m.__file__) as fh:
            tree = ast.fix_missing_locations(T().visit(ast.parse(fh.read())))
        m.__dict__['__sym_in__'], m.__dict__['__sym_join__'] = sym_in, sym_join
        for k in ('re', 'int', 'float', 'str'):
            m.__dict__.pop(k, None)
        exec(compile(tree, m.__file__, 'exec'), m.__dict__)
        install(m)
