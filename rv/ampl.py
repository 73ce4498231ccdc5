# coding: utf-8
"""A small interpreter of AMPL models (integer parameters, sums, inequalities): decides whether given values of the variables are admissible"""
import re
from fractions import Fraction as F
from itertools import product


class Unreadable(Exception):
    pass


TOK = re.compile(r'\s*(\*\*|<=|>=|==|\d+\.?\d*(?:[eE][+-]?\d+)?|[A-Za-z_]\w*|[-+*/^(){}\[\],:<>=])')


def tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Unreadable(s[i:i + 20])
        out.append(m.group(1))
        i = m.end()
    return out


class Parser(object):
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def eat(self, x=None):
        v = self.peek()
        if v is None or (x is not None and v != x):
            raise Unreadable('%s expected at %s' % (x, self.t[self.i:self.i + 5]))
        self.i += 1
        return v

    def expr(self):
        e = self.term()
        while self.peek() in ('+', '-'):
            e = (self.eat(), e, self.term())
        return e

    def term(self):
        if self.peek() == 'sum':
            self.eat()
            ix = self.indexing()
            return ('sum', ix, self.term())
        e = self.unary()
        while self.peek() in ('*', '/'):
            e = (self.eat(), e, self.unary())
        return e

    def unary(self):
        if self.peek() in ('-', '+'):
            s = self.eat()
            return ('neg', self.unary()) if s == '-' else self.unary()
        return self.power()

    def power(self):
        a = self.atom()
        if self.peek() in ('**', '^'):
            self.eat()
            return ('**', a, self.unary())
        return a

    def atom(self):
        v = self.eat()
        if v == '(':
            e = self.expr()
            self.eat(')')
            return e
        if v[0].isdigit():
            return ('num', F(v))
        if not (v[0].isalpha() or v[0] == '_'):
            raise Unreadable(v)
        if self.peek() != '[':
            return ('name', v, ())
        self.eat('[')
        a = [self.expr()]
        while self.peek() == ',':
            self.eat()
            a.append(self.expr())
        self.eat(']')
        return ('name', v, tuple(a))

    def indexing(self):
        """{J}, {j in J}, {i in I, j in J} -> list of (dummy or None, set)"""
        self.eat('{')
        out = []
        while True:
            a = self.eat()
            if self.peek() == 'in':
                self.eat()
                out.append((a, self.eat()))
            else:
                out.append((None, a))
            if self.peek() != ',':
                break
            self.eat()
        self.eat('}')
        return out


class Model(object):
    def __init__(self, text):
        text = '\n'.join(l.split('#')[0] for l in text.split('\n'))
        self.sets, self.defaults, self.bounds, self.constraints, self.objective, self.params = {}, {}, {}, [], None, set()
        for st in text.split(';'):
            if st.strip():
                self.statement(st.replace('..', ' : '))

    def statement(self, st):
        p = Parser(tokens(st))
        k = p.eat()
        if k == 'set':
            n = p.eat()
            p.eat(':')
            p.eat('=')
            a = p.expr()
            p.eat(':')
            self.sets[n] = (a, p.expr())
        elif k == 'param':
            n = p.eat()
            self.params.add(n)
            ix = p.indexing() if p.peek() == '{' else []
            while p.peek() is not None:
                v = p.eat()
                if v == 'default':
                    self.defaults[n] = (ix, p.expr())
                elif v in ('>', '<', '>=', '<='):
                    p.expr()
                elif v not in ('integer', ','):
                    raise Unreadable(v)
        elif k == 'var':
            n = p.eat()
            ix = p.indexing() if p.peek() == '{' else []
            bs = []
            while p.peek() is not None:
                v = p.eat()
                if v == 'binary':
                    bs += [('>=', ('num', F(0))), ('<=', ('num', F(1)))]
                elif v in ('>=', '<='):
                    bs.append((v, p.expr()))
                elif v not in ('integer', ','):
                    raise Unreadable(v)
            self.bounds[n] = (ix, bs)
        elif k == 'minimize':
            p.eat()
            p.eat(':')
            self.objective = p.expr()
        elif k == 'subject':
            p.eat('to')
            n = p.eat()
            ix = p.indexing() if p.peek() == '{' else []
            p.eat(':')
            a = p.expr()
            c = p.eat()
            if c not in ('<=', '>=', '=', '=='):
                raise Unreadable(c)
            self.constraints.append((n, ix, a, c, p.expr()))
        elif k != 'check':
            raise Unreadable(k)
        if k != 'check' and p.peek() is not None:
            raise Unreadable(str(p.t[p.i:]))

    # values: {name: F} and {(name, i...): F}
    def ev(self, e, val, env):
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'neg':
            return -self.ev(e[1], val, env)
        if k == 'sum':
            return sum((self.ev(e[2], val, x) for x in self.index(e[1], val, env)), F(0))
        if k == 'name':
            if not e[2] and e[1] in env:
                return env[e[1]]
            key = (e[1],) + tuple(self.ev(a, val, env) for a in e[2])
            if key in val:
                return val[key]
            if e[1] in self.defaults:
                ix, d = self.defaults[e[1]]
                return self.ev(d, val, dict((a, b) for (a, _), b in zip(ix, key[1:]) if a))
            raise Unreadable('no value for %s%s' % (e[1], key[1:]))
        a, b = self.ev(e[1], val, env), self.ev(e[2], val, env)
        return a + b if k == '+' else a - b if k == '-' else a * b if k == '*' else a / b if k == '/' else a ** int(b)

    def index(self, ix, val, env):
        rs = []
        for a, s in ix:
            if s not in self.sets:
                raise Unreadable(s)
            lo, hi = [int(self.ev(x, val, env)) for x in self.sets[s]]
            rs.append([F(x) for x in range(lo, hi + 1)])
        for c in product(*rs):
            e = dict(env)
            e.update((a, x) for (a, _), x in zip(ix, c) if a)
            yield e

    def holds(self, val):
        """are the values of the variables admissible?"""
        def cmp(a, c, b):
            return a <= b if c == '<=' else a >= b if c == '>=' else a == b
        for n, (ix, bs) in self.bounds.items():
            ix = [(a or '_%d' % k, s) for k, (a, s) in enumerate(ix)]
            for env in self.index(ix, val, {}):
                x = val[(n,) + tuple(env[a] for a, _ in ix)]
                if not all(cmp(x, c, self.ev(e, val, env)) for c, e in bs):
                    return False
        return all(cmp(self.ev(a, val, env), c, self.ev(b, val, env)) for n, ix, a, c, b in self.constraints for env in self.index(ix, val, {}))
