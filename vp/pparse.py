"""Model of the pyparsing combinators on a constant string: infix notation by operator tables."""
from .terms import mk, seq, string
from .interp import Unsupported

MAKE = {'oneOf': 'oneOf', 'one_of': 'oneOf', 'Literal': 'lit', 'CaselessLiteral': 'caseless', 'Word': 'word',
        'Combine': 'combine', 'Optional': 'opt', 'Opt': 'opt', 'infixNotation': 'infix', 'infix_notation': 'infix',
        'operatorPrecedence': 'infix', 'Suppress': 'suppress', 'OneOrMore': 'many', 'ZeroOrMore': 'any', 'Regex': 'regex',
        'Keyword': 'keyword'}
CONSTS = {'pyparsing.nums': '0123456789', 'pyparsing.alphas': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'}


class NoParse(Exception):
    pass


def text(t):
    if t.op != 'str':
        raise Unsupported('pyparsing argument')
    return t.args[0]


def fix(v):
    """grammar value as nested tuples"""
    if v.op == 'str':
        return ('lit', v.args[0])
    if v.op != 'pp':
        raise Unsupported('grammar ' + v.op + str(v.args)[:300])
    k, a = v.args[0], v.args[1:]
    if k == 'oneOf':
        x = a[0]
        l = x.args[0].split() if x.op == 'str' else [text(y) for y in x.args] if x.op == 'seq' else None
        if l is None:
            raise Unsupported('oneOf')
        return ('oneOf', tuple(sorted(dict.fromkeys(l), key=lambda s: -len(s))))
    if k in ('lit', 'caseless', 'regex', 'keyword'):
        return (k, text(a[0]))
    if k == 'word':
        return ('word', text(a[0]), text(a[-1] if len(a) < 3 else a[1]))
    if k in ('combine', 'opt', 'suppress', 'many', 'any'):
        return (k, fix(a[0]))
    if k in ('and', 'or'):
        return (k, fix(a[0]), fix(a[1]))
    if k == 'infix':
        if a[1].op != 'seq':
            raise Unsupported('operator table')
        table = []
        for row in a[1].args:
            if row.op != 'seq' or len(row.args) != 3 or row.args[1].op != 'num':
                raise Unsupported('operator table')
            side = row.args[2]
            side = side.args[0].split('.')[-1] if side.op == 'lib' else None
            if side not in ('LEFT', 'RIGHT'):
                raise Unsupported('associativity')
            table.append((fix(row.args[0]), int(row.args[1].args[0]), side))
        return ('infix', fix(a[0]), tuple(table))
    raise Unsupported('pyparsing.' + k)


class P(object):
    def __init__(self, s):
        self.s = s
        self.memo = {}
        self.deep = 0

    def ws(self, i):
        while i < len(self.s) and self.s[i] in ' \t\n\r':
            i += 1
        return i

    def run(self, g, i, skip=True):
        """(tokens, end)"""
        key = (id(g), i, skip)
        if key in self.memo:
            r = self.memo[key]
            if r is None:
                raise NoParse()
            return r
        try:
            r = self.go(g, i, skip)
        except NoParse:
            self.memo[key] = None
            raise
        self.memo[key] = r
        return r

    def go(self, g, i, skip):
        k = g[0]
        s = self.s
        if k in ('lit', 'caseless', 'oneOf', 'word', 'regex', 'keyword') and skip:
            i = self.ws(i)
        if k == 'lit':
            if s.startswith(g[1], i):
                return [g[1]], i + len(g[1])
            raise NoParse()
        if k == 'keyword':
            j = i + len(g[1])
            if s.startswith(g[1], i) and not (j < len(s) and (s[j].isalnum() or s[j] in '_$')):
                return [g[1]], j
            raise NoParse()
        if k == 'caseless':
            if s[i:i + len(g[1])].upper() == g[1].upper():
                return [g[1]], i + len(g[1])
            raise NoParse()
        if k == 'oneOf':
            for x in g[1]:
                if s.startswith(x, i):
                    return [x], i + len(x)
            raise NoParse()
        if k == 'word':
            if i >= len(s) or s[i] not in g[1]:
                raise NoParse()
            j = i + 1
            while j < len(s) and s[j] in g[2]:
                j += 1
            return [s[i:j]], j
        if k == 'regex':
            import re
            m = re.compile(g[1]).match(s, i)
            if m is None:
                raise NoParse()
            return [m.group()], m.end()
        if k == 'combine':
            i = self.ws(i) if skip else i
            r, j = self.run(g[1], i, False)
            return [''.join(r)], j
        if k == 'opt':
            try:
                return self.run(g[1], i, skip)
            except NoParse:
                return [], i
        if k == 'suppress':
            return [], self.run(g[1], i, skip)[1]
        if k in ('many', 'any'):
            out = []
            n = 0
            while True:
                try:
                    r, j = self.run(g[1], i, skip)
                except NoParse:
                    break
                if j == i:
                    break
                out, i, n = out + r, j, n + 1
            if not n and k == 'many':
                raise NoParse()
            return out, i
        if k == 'and':
            a, j = self.run(g[1], i, skip)
            b, j = self.run(g[2], j, skip)
            return a + b, j
        if k == 'or':
            try:
                return self.run(g[1], i, skip)
            except NoParse:
                return self.run(g[2], i, skip)
        if k == 'infix':
            return self.level(g, len(g[2]), i)
        raise Unsupported(k)

    def level(self, g, n, i):
        key = (id(g), 'level', n, i)
        if key in self.memo:
            r = self.memo[key]
            if r is None:
                raise NoParse()
            return r
        self.deep += 1
        if self.deep > 150:
            raise Unsupported('deep expression')
        try:
            r = self.level0(g, n, i)
        except NoParse:
            self.memo[key] = None
            raise
        finally:
            self.deep -= 1
        self.memo[key] = r
        return r

    def level0(self, g, n, i):
        if n == 0:
            try:
                return self.run(g[1], i)
            except NoParse:
                j = self.ws(i)
                if not self.s.startswith('(', j):
                    raise
                r, j = self.level(g, len(g[2]), j + 1)
                j = self.ws(j)
                if not self.s.startswith(')', j):
                    raise NoParse()
                return r, j + 1
        op, arity, side = g[2][n - 1]
        try:
            if arity == 1 and side == 'RIGHT':
                o, j = self.run(op, i)
                r, j = self.level(g, n, j)
                return [o + r], j
            if arity == 1:
                r, j = self.level(g, n - 1, i)
                o, j = self.run(op, j)
                out = r + o
                while True:
                    try:
                        o, j = self.run(op, j)
                    except NoParse:
                        return [out], j
                    out = out + o
            if arity == 2:
                r, j = self.level(g, n - 1, i)
                nxt = n if side == 'RIGHT' else n - 1
                o, k = self.run(op, j)
                x, j = self.level(g, nxt, k)
                out = r + o + x
                while True:
                    try:
                        o, k = self.run(op, j)
                        x, k = self.level(g, nxt, k)
                    except NoParse:
                        return [out], j
                    out, j = out + o + x, k
            raise Unsupported('arity')
        except NoParse:
            return self.level(g, n - 1, i)


def parse(v, s, parseall):
    p = P(s)
    g = fix(v)
    r, j = p.run(g, 0)
    if parseall and p.ws(j) != len(s):
        raise NoParse()
    return r


def boxed(I, r):
    if isinstance(r, str):
        return string(r)
    return I.alloc(seq(*[boxed(I, x) for x in r]), 'list')
