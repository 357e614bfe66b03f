"""Real scalar expressions in normal form.

An expression is a sum of monomials; a monomial is a rational coefficient
and a product of bases raised to exponents (rationals, or expressions).
Bases: variables, the exponential base E, positive constants, elementary
functions of expressions, absolute values, maxima and sums that are raised
to a power that cannot be expanded.  Two expressions are equal when their
difference normalises to zero after clearing denominators; they differ when
in addition they have different values at a point (both conditions are
needed before anything is reported)."""
from fractions import Fraction
import math

_ATOMS = []          # (kind, payload)
_INDEX = {}


class NotReal(Exception):
    """The expression is outside of what the algebra covers."""


def atom(kind, *payload):
    k = (kind, ) + payload
    i = _INDEX.get(k)
    if i is None:
        i = len(_ATOMS)
        _ATOMS.append(k)
        _INDEX[k] = i
    return i


E = atom('E')
LIMIT = 4000


class N(object):
    __slots__ = ('t', '_h', '_a')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._a = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, N) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    def const(self):
        """The rational value, or None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        """Every atom the expression depends on, nested ones included."""
        if self._a is None:
            s = set()
            for m in self.t:
                for a, e in m:
                    s.add(a)
                    s |= atom_atoms(a)
                    if isinstance(e, N):
                        s |= e.atoms()
            self._a = frozenset(s)
        return self._a

    def __add__(self, o):
        return add(self, o)

    def __sub__(self, o):
        return add(self, scale(o, Fraction(-1)))

    def __mul__(self, o):
        return mul(self, o)

    def __neg__(self):
        return scale(self, Fraction(-1))


_AA = {}


def atom_atoms(a):
    r = _AA.get(a)
    if r is None:
        s = set()
        for p in _ATOMS[a][1:]:
            if isinstance(p, N):
                s |= p.atoms()
            elif isinstance(p, frozenset):
                for q in p:
                    if isinstance(q, N):
                        s |= q.atoms()
        r = _AA[a] = frozenset(s)
    return r


def rat(v):
    """Exact rational of a Python number."""
    if isinstance(v, Fraction):
        return v
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise NotReal('not finite')
        # quotients of small integers keep their exact value
        r = Fraction(v).limit_denominator(5000)
        if r and abs(float(r) - v) <= 1e-15 * abs(v):
            return r
        return Fraction(repr(v))
    raise NotReal('number')


def num(v):
    r = rat(v)
    return N({(): r}) if r else N({})


ZERO = N({})
ONE = N({(): Fraction(1)})


def var(*name):
    return N({((atom('var', *name), Fraction(1)), ): Fraction(1)})


def lift(v):
    return v if isinstance(v, N) else num(v)


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t.items():
        x = d.get(m)
        if x is None:
            d[m] = c
        else:
            x += c
            if x:
                d[m] = x
            else:
                del d[m]
    return N(d)


def addn(xs):
    d = {}
    for a in xs:
        for m, c in a.t.items():
            x = d.get(m)
            d[m] = c if x is None else x + c
    return N({m: c for m, c in d.items() if c})


def scale(a, c):
    if not c:
        return ZERO
    return N({m: x * c for m, x in a.t.items()})


def eadd(a, b):
    """Sum of two exponents."""
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return enorm(add(lift(a), lift(b)))


def enorm(e):
    if isinstance(e, N):
        c = e.const()
        if c is not None:
            return Fraction(c)
    return e


def emul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    return enorm(mul(lift(a), lift(b)))


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            x = eadd(d[a], e)
            if x == 0:
                del d[a]
            else:
                d[a] = x
        else:
            d[a] = e
    return tuple(sorted(d.items(), key=lambda p: p[0]))


def needs(m):
    """A factor of the monomial that must be rewritten."""
    for a, e in m:
        k = _ATOMS[a][0]
        if not isinstance(e, Fraction):
            continue
        if k == 'sum' and e > 0 and e.denominator == 1 and e <= 12:
            return a, e
        if k == 'abs' and not 0 <= e < 2:
            return a, e
        if k == 'pos' and e.denominator == 1:
            return a, e
    return None


def settle(m, c):
    """N of c * m with rewritable factors rewritten."""
    n = needs(m)
    if n is None:
        return N({m: c})
    a, e = n
    rest = tuple(p for p in m if p[0] != a)
    base = _ATOMS[a][1]
    if _ATOMS[a][0] == 'pos':
        return settle(rest, c * base ** e.numerator)
    if _ATOMS[a][0] == 'abs':
        n = Fraction(2 * (e // 2))
        if e != n:
            rest = tuple(sorted(rest + ((a, e - n), ), key=lambda p: p[0]))
        return mul(settle(rest, c), power(base, n))
    return mul(settle(rest, c), power(base, e))


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) * len(b.t) > LIMIT * 4:
        raise NotReal('too large')
    d = {}
    late = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            if needs(m) is not None:
                late.append(settle(m, c))
                continue
            x = d.get(m)
            d[m] = c if x is None else x + c
    r = N({m: c for m, c in d.items() if c})
    return addn([r] + late) if late else r


def single(a):
    """(mono, coeff) of a one-term expression."""
    if len(a.t) == 1:
        return next(iter(a.t.items()))
    return None


def root(c, e):
    """c ** e for rational c > 0 as N."""
    if c == 1:
        return ONE
    if isinstance(e, Fraction):
        if e.denominator == 1:
            return N({(): c ** e.numerator})
        # exact root?
        for q in (e.denominator, ):
            nn = iroot(c.numerator, q)
            dd = iroot(c.denominator, q)
            if nn is not None and dd is not None:
                return N({(): Fraction(nn, dd) ** e.numerator})
        # prime powers are not separated: the base stays whole
    return settle(((atom('pos', c), e), ), Fraction(1))


def iroot(n, k):
    r = int(round(n ** (1.0 / k)))
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def positive(a):
    k = _ATOMS[a]
    return k[0] in ('E', 'pos', 'abs') or (
        k[0] == 'var' and len(k) > 2 and k[2] == '+')


def key(a):
    return show(a)


def isint(e):
    return isinstance(e, Fraction) and e.denominator == 1


def power(a, e):
    if isinstance(e, N):
        e = enorm(e)
    if isinstance(e, Fraction) and e == 0:
        return ONE
    if isinstance(e, Fraction) and e == 1:
        return a
    if not a.t:
        if isinstance(e, Fraction) and e > 0:
            return ZERO
        raise NotReal('power of zero')
    s = single(a)
    if s is not None:
        m, c = s
        if isint(e):
            r = settle(tuple((b, emul(x, e)) for b, x in m),
                       c ** e.numerator)
            return r
        if c < 0:
            return N({((sum_atom(a), e), ): Fraction(1)})
        out = root(c, e)
        for b, x in m:
            bb = b
            if isint(x) and x.numerator % 2 == 0 and not positive(b):
                bb = abs_atom(b)
            out = mul(out, settle(((bb, emul(x, e)), ), Fraction(1)))
        return out
    if isint(e) and 0 < e <= 12:
        n = e.numerator
        if len(a.t) ** n > LIMIT:
            raise NotReal('too large')
        r = a
        for _ in range(n - 1):
            r = mul(r, a)
        return r
    c, m, s = content(a, isint(e))
    out = root(c, e) if c > 0 else N({(): c ** e.numerator})
    if m:
        out = mul(out, settle(tuple((b, emul(x, e)) for b, x in m),
                              Fraction(1)))
    s1 = single(s)
    if s1 is not None:
        return mul(out, power(s, e))
    return mul(out, N({((sum_atom(s), e), ): Fraction(1)}))


def abs_atom(b):
    return atom('abs', N({((b, Fraction(1)), ): Fraction(1)}))


def sum_atom(s):
    return atom('sum', s)


def order(m):
    return mono_text(m)


def content(a, integer):
    """a = c * mono * s with s primitive.  Only positive factors are
    extracted unless the exponent is an integer."""
    items = list(a.t.items())
    # rational content: absolute value of the coefficient of the first term
    first = min(items, key=lambda p: order(p[0]))
    c = first[1] if integer else abs(first[1])
    # common factors
    common = None
    for m, _ in items:
        d = {}
        for b, e in m:
            if isinstance(e, Fraction) and (positive(b) or integer) \
                    and b != E:
                d[b] = e
        if common is None:
            common = d
        else:
            common = {b: min(e, d[b]) if (e > 0) == (d[b] > 0) else None
                      for b, e in common.items() if b in d}
            common = {b: e for b, e in common.items() if e is not None}
    # common part of the exponents of E
    ec = None
    for m, _ in items:
        x = dict(m).get(E)
        x = lift(x) if x is not None else ZERO
        if ec is None:
            ec = dict(x.t)
        else:
            ec = {k: v for k, v in ec.items() if x.t.get(k) == v}
    fac = dict(common or {})
    if ec:
        fac[E] = enorm(N(ec))
    m = tuple(sorted(fac.items(), key=lambda p: p[0]))
    if not m and c == 1:
        return c, (), a
    inv = tuple((b, emul(x, Fraction(-1))) for b, x in m)
    s = mul(a, N({inv: 1 / c})) if True else a
    return c, m, s


def exp(u):
    if not u.t:
        return ONE
    return N({((E, enorm(u)), ): Fraction(1)})


def log(u):
    if not u.t:
        raise NotReal('log 0')
    c = u.const()
    if c is not None:
        if c <= 0:
            raise NotReal('log of a negative number')
        return log_rat(c)
    s = single(u)
    if s is not None:
        m, c = s
        if c < 0:
            return fn_atom('log', u)
        out = log_rat(c)
        for b, e in m:
            if b == E:
                out = add(out, lift(e))
                continue
            k = _ATOMS[b]
            if k[0] == 'sum':
                l = fn_atom('log', k[1]) if True else None
            elif isint(e) and e.numerator % 2 == 0 and not positive(b):
                l = fn_atom('log', N({((abs_atom(b), Fraction(1)), ):
                                      Fraction(1)}))
            else:
                l = fn_atom('log', N({((b, Fraction(1)), ): Fraction(1)}))
            out = add(out, mul(lift(e), l))
        return out
    c, m, s = content(u, False)
    out = log_rat(c)
    for b, e in m:
        if b == E:
            out = add(out, lift(e))
        else:
            out = add(out, mul(lift(e), fn_atom('log', N({
                ((b, Fraction(1)), ): Fraction(1)}))))
    if single(s) is not None:
        return add(out, log(s))
    return add(out, fn_atom('log', s))


def log_rat(c):
    if c == 1:
        return ZERO
    return fn_atom('log', N({(): c}))


def fn_atom(name, u):
    return N({((atom('fn', name, u), Fraction(1)), ): Fraction(1)})


def negative_lead(u):
    if not u.t:
        return False
    m = min(u.t, key=order)
    return u.t[m] < 0


HALF = Fraction(1, 2)


def fn(name, u):
    if name == 'sqrt':
        return power(u, HALF)
    if name == 'exp':
        return exp(u)
    if name == 'log':
        return log(u)
    if name == 'log10':
        return mul(log(u), power(log(num(10)), Fraction(-1)))
    if name == 'log2':
        return mul(log(u), power(log(num(2)), Fraction(-1)))
    if name == 'log1p':
        return log(add(u, ONE))
    if name == 'expm1':
        return exp(u) - ONE
    if name in ('square', ):
        return mul(u, u)
    if name == 'reciprocal':
        return power(u, Fraction(-1))
    if name == 'cbrt':
        return power(u, Fraction(1, 3))
    if name == 'negative':
        return -u
    if name == 'positive':
        return u
    if name == 'sin':
        if not u.t:
            return ZERO
        if negative_lead(u):
            return -fn_atom('sin', -u)
        return fn_atom('sin', u)
    if name == 'cos':
        if not u.t:
            return ONE
        if negative_lead(u):
            return fn_atom('cos', -u)
        return fn_atom('cos', u)
    if name == 'tan':
        return mul(fn('sin', u), power(fn('cos', u), Fraction(-1)))
    if name in ('sinh', 'cosh', 'tanh'):
        a, b = exp(u), exp(-u)
        s, c = scale(a - b, HALF), scale(a + b, HALF)
        if name == 'sinh':
            return s
        if name == 'cosh':
            return c
        return mul(s, power(c, Fraction(-1)))
    if name in ('abs', 'fabs', 'absolute'):
        s = u.const()
        if s is not None:
            return num(abs(s))
        s1 = single(u)
        if s1 is not None:
            m, c = s1
            out = num(abs(c))
            for b, e in m:
                if positive(b):
                    out = mul(out, N({((b, e), ): Fraction(1)}))
                else:
                    out = mul(out, settle(((abs_atom(b), e), ),
                                          Fraction(1)))
            return out
        if negative_lead(u):
            u = -u
        return N({((atom('abs', u), Fraction(1)), ): Fraction(1)})
    if name == 'sign':
        return mul(u, power(fn('abs', u), Fraction(-1)))
    if name in ('arcsin', 'arctan', 'arcsinh'):
        if not u.t:
            return ZERO
        if negative_lead(u):
            return -fn_atom(name, -u)
        return fn_atom(name, u)
    if name in ('arccos', 'arccosh', 'arctanh'):
        return fn_atom(name, u)
    raise NotReal(name)


def maximum(xs):
    """Maximum of a collection of expressions."""
    s = set()
    for x in xs:
        m = single(x)
        if m is not None and m[1] == 1 and len(m[0]) == 1 and \
                m[0][0][1] == 1 and _ATOMS[m[0][0][0]][0] == 'max':
            s |= _ATOMS[m[0][0][0]][1]
        else:
            s.add(x)
    cs = [x for x in s if x.const() is not None]
    if len(cs) > 1:
        top = max(cs, key=lambda x: x.const())
        s -= set(cs)
        s.add(top)
    # drop members dominated by another member minus a positive constant
    for x in list(s):
        for y in s:
            if x is not y:
                d = (y - x).const()
                if d is not None and d > 0:
                    s.discard(x)
                    break
    if len(s) == 1:
        return next(iter(s))
    return N({((atom('max', frozenset(s)), Fraction(1)), ): Fraction(1)})


# ------------------------------------------------------------ derivatives
_DA = {}


def diff_atom(a, v):
    """Derivative of the value of atom a with respect to variable atom v."""
    r = _DA.get((a, v))
    if r is not None:
        return r
    r = _diff_atom(a, v)
    _DA[(a, v)] = r
    return r


def _diff_atom(a, v):
    if a == v:
        return ONE
    if v not in atom_atoms(a):
        return ZERO
    k = _ATOMS[a]
    if k[0] == 'sum':
        return diff(k[1], v)
    if k[0] == 'abs':
        u = k[1]
        return mul(mul(u, N({((a, Fraction(-1)), ): Fraction(1)})),
                   diff(u, v))
    if k[0] == 'fn':
        n, u = k[1], k[2]
        du = diff(u, v)
        if n == 'log':
            return mul(du, power(u, Fraction(-1)))
        if n == 'sin':
            return mul(du, fn('cos', u))
        if n == 'cos':
            return mul(-du, fn('sin', u))
        if n == 'arcsin':
            return mul(du, power(ONE - mul(u, u), -HALF))
        if n == 'arccos':
            return mul(-du, power(ONE - mul(u, u), -HALF))
        if n == 'arctan':
            return mul(du, power(ONE + mul(u, u), Fraction(-1)))
        if n == 'arcsinh':
            return mul(du, power(ONE + mul(u, u), -HALF))
        if n == 'arccosh':
            return mul(du, power(mul(u, u) - ONE, -HALF))
        if n == 'arctanh':
            return mul(du, power(ONE - mul(u, u), Fraction(-1)))
    raise NotReal('derivative of ' + k[0])


def diff(x, v):
    """Derivative of x with respect to the variable atom v."""
    if v not in x.atoms():
        return ZERO
    out = []
    for m, c in x.t.items():
        for i, (a, e) in enumerate(m):
            rest = m[:i] + m[i + 1:]
            if a == E:
                d = diff(lift(e), v)
                if d.t:
                    out.append(mul(N({m: c}), d))
                continue
            d = diff_atom(a, v)
            if d.t:
                f = mul(lift(e), settle(((a, eadd(e, Fraction(-1))), ),
                                        Fraction(1))
                        if eadd(e, Fraction(-1)) != 0 else ONE)
                out.append(mul(mul(settle(rest, c), f), d))
            if isinstance(e, N) and v in e.atoms():
                out.append(mul(mul(N({m: c}), diff(e, v)), log(N({
                    ((a, Fraction(1)), ): Fraction(1)}))))
    return addn(out)


# --------------------------------------------------------------- equality
def trig(x):
    """Replace sin**n, n >= 2, by powers of cos."""
    for _ in range(40):
        hit = None
        for m in x.t:
            for a, e in m:
                k = _ATOMS[a]
                if k[0] == 'fn' and k[1] == 'sin' and isint(e) and e >= 2:
                    hit = (a, e)
                    break
            if hit:
                break
        if hit is None:
            return x
        a = hit[0]
        co = N({((atom('fn', 'cos', _ATOMS[a][2]), Fraction(1)), ):
                Fraction(1)})
        s2 = ONE - mul(co, co)
        out = []
        for m, c in x.t.items():
            d = dict(m)
            e = d.get(a)
            if isint(e) and e >= 2 if e is not None else False:
                n = e.numerator // 2
                if e.numerator % 2:
                    d[a] = Fraction(1)
                else:
                    del d[a]
                out.append(mul(N({tuple(sorted(d.items(), key=lambda p:
                                               p[0])): c}),
                               power(s2, Fraction(n))))
            else:
                out.append(N({m: c}))
        x = addn(out)
    return x


def clear(x):
    """x times a product of powers that removes negative exponents of sums
    and trigonometric functions (so that sums can be expanded)."""
    for a in sorted(set(a for m in x.t for a, _ in m)):
        k = _ATOMS[a]
        if k[0] != 'sum' and not (k[0] == 'fn' and k[1] in ('sin', 'cos')):
            continue
        es = [dict(m).get(a, Fraction(0)) for m in x.t]
        fr = [e for e in es if isinstance(e, Fraction)]
        sy = [e for e in es if not isinstance(e, Fraction)]
        if sy:
            def low(e):
                return e.t.get((), Fraction(0))
            base = min(sy, key=low)
            cand = base
        else:
            lo = min(fr)
            if k[0] == 'sum':
                if lo == 0 and all(e.denominator == 1 for e in fr):
                    continue
                cand = lo
            else:
                if lo >= 0:
                    continue
                cand = lo
        if cand == 0:
            continue
        x = mul(x, N({((a, emul(cand, Fraction(-1))), ): Fraction(1)}))
    return x


def normal(x):
    for _ in range(6):
        y = trig(clear(x))
        if y == x or not y.t:
            return y
        x = y
    return x


def equal(a, b, given=(), ties=False):
    """True / False / None; given: [(op, x, y, truth)] conditions that
    hold; ties: points on the boundary of the conditions count."""
    try:
        d = a - b
        if not d.t or not normal(d).t:
            return True
    except NotReal:
        pass
    return None if same_values(a, b, given, ties) is not False else False


def points(given=(), ties=False):
    """A fixed family of sample points; variables get values by name."""
    for seed in range(5 if not given else 80):
        yield seed
    if given and ties:
        for seed in range(TIES, TIES + 60):
            yield seed
    for seed in range(WIDE, WIDE + (120 if given else 24)):
        yield seed


TIES = 1000
WIDE = 2000


def value_of(a, seed, memo):
    k = _ATOMS[a]
    r = memo.get(a)
    if r is not None:
        return r
    if k[0] == 'E':
        r = math.e
    elif k[0] == 'var':
        h = hashname(k[1:], seed)
        r = 0.18 + 0.66 * h
        if len(k) > 2 and k[2] == 'int':
            r = 2 + int(h * 4)
        elif seed >= WIDE:
            r = 10 ** (10 * h - 5)
            if not (len(k) > 2 and k[2] in ('+', 'pos1')) and \
                    hashname(k[1:], seed + 77) < 0.5:
                r = -r
        elif seed >= TIES and not (len(k) > 2 and k[2] in ('+', 'pos1')):
            r = float(int(h * 3) - 1)
        elif seed >= 3 and not (len(k) > 2 and k[2] in ('+', 'pos1')):
            r = -r if hashname(k[1:], seed + 77) < 0.5 else r
    elif k[0] == 'pos':
        r = float(k[1])
    elif k[0] == 'sum':
        r = value(k[1], seed, memo)
    elif k[0] == 'abs':
        r = abs(value(k[1], seed, memo))
    elif k[0] == 'max':
        r = max(value(x, seed, memo) for x in k[1])
    elif k[0] == 'fn':
        u = value(k[2], seed, memo)
        n = k[1]
        f = {'log': math.log, 'sin': math.sin, 'cos': math.cos,
             'arcsin': math.asin, 'arccos': math.acos,
             'arctan': math.atan, 'arcsinh': math.asinh,
             'arccosh': math.acosh, 'arctanh': math.atanh}[n]
        r = f(u)
    else:
        raise NotReal(k[0])
    memo[a] = r
    return r


def hashname(t, seed):
    s = 1469598103934665603
    for ch in repr(t) + '#%d' % seed:
        s = ((s ^ ord(ch)) * 1099511628211) % (1 << 64)
    s ^= s >> 33
    s = (s * 0xff51afd7ed558ccd) % (1 << 64)
    s ^= s >> 33
    return s / float(1 << 64)


def value(x, seed, memo):
    t = 0.0
    for m, c in x.t.items():
        p = float(c)
        for a, e in m:
            ev = float(e) if isinstance(e, Fraction) else value(
                e, seed, memo)
            b = value_of(a, seed, memo)
            y = b ** ev
            if isinstance(y, complex):
                raise ValueError('complex')
            p *= y
        t += p
    return t


def magnitude(x, seed, memo):
    t = 0.0
    for m, c in x.t.items():
        p = abs(float(c))
        for a, e in m:
            ev = float(e) if isinstance(e, Fraction) else value(
                e, seed, memo)
            p *= abs(value_of(a, seed, memo) ** ev)
        t += p
    return t


def admissible(given, seed, memo):
    for op, x, y, truth in given:
        u, v = value(x, seed, memo), value(y, seed, memo)
        if (u < v if op == 'lt' else u == v) != truth:
            return False
    return True


def same_values(a, b, given=(), ties=False):
    """False when the values differ at a sample point, True when they agree
    at several, None when they cannot be evaluated."""
    good = far = 0
    for seed in points(given, ties):
        memo = {}
        try:
            if not admissible(given, seed, memo):
                continue
            x, y = value(a, seed, memo), value(b, seed, memo)
            mag = magnitude(a, seed, memo) + magnitude(b, seed, memo)
        except (ValueError, OverflowError, ZeroDivisionError, NotReal,
                KeyError):
            continue
        if not (math.isfinite(x) and math.isfinite(y) and
                math.isfinite(mag)):
            continue
        if abs(x - y) > 1e-6 * max(1.0, mag):
            far += 1
            if seed < WIDE or far > 1:
                return False
        else:
            good += 1
    return True if good else None


def nonpositive(x, scales=()):
    """Whether x <= 0 for all values of the variables: x is a positive
    multiple of t - max{..., t, ...}, True; x exceeds 700 somewhere, False;
    otherwise None."""
    c = x.const()
    if c is not None:
        return c <= 0
    for a in sorted(set(b for m in x.t for b, _ in m)):
        k = _ATOMS[a]
        if k[0] != 'max':
            continue
        # x = q * max + rest
        q, rest = ZERO, ZERO
        for m, c in x.t.items():
            if m and any(b == a for b, _ in m):
                q = add(q, N({tuple(p for p in m if p[0] != a): c}))
            else:
                rest = add(rest, N({m: c}))
        s = single(q)
        if s is None or s[1] > 0 or not all(positive(b) for b, _ in s[0]):
            continue
        if any(mul(-q, t) == rest for t in k[1]):
            return True
    for seed in range(WIDE, WIDE + 60):
        try:
            v = value(x, seed, {})
        except (ValueError, OverflowError, ZeroDivisionError, NotReal,
                KeyError):
            continue
        if v > 700:
            return False
    return None


def split(x, a):
    """x = q * atom a + rest (a not in rest); q must be a single term."""
    q, rest = ZERO, ZERO
    for m, c in x.t.items():
        if m and any(b == a for b, _ in m):
            if any(b == a and e != 1 for b, e in m):
                return None
            q = add(q, N({tuple(p for p in m if p[0] != a): c}))
        else:
            rest = add(rest, N({m: c}))
    return q, rest


def vanishing(xs):
    """A maximum in the exponents xs and one of its values for which every
    exponent can become arbitrarily negative, or None."""
    atoms = set()
    for x in xs:
        for m in x.t:
            for b, _ in m:
                if _ATOMS[b][0] == 'max':
                    atoms.add(b)
    for a in sorted(atoms):
        parts = [split(x, a) for x in xs]
        parts = [p for p in parts if p is not None and p[0].t]
        for t in _ATOMS[a][1]:
            if not any(add(mul(q, t), r).const() is not None or
                       bounded(add(mul(q, t), r)) for q, r in parts):
                return t
    return None


def bounded(x):
    """A multiple of a positive parameter: no operand in it."""
    return all(positive(b) for m in x.t for b, _ in m)


# ------------------------------------------------------------------ text
def atom_text(a):
    k = _ATOMS[a]
    if k[0] == 'var':
        return ''.join(str(p) if i == 0 else '%s' % (p, ) for i, p in
                       enumerate(k[1:]))
    if k[0] == 'E':
        return 'e'
    if k[0] == 'fn':
        return '%s(%s)' % (k[1], show(k[2]))
    if k[0] == 'sum':
        return '(%s)' % show(k[1])
    if k[0] == 'abs':
        return '|%s|' % show(k[1])
    if k[0] == 'max':
        return 'max{%s}' % ', '.join(sorted(show(x) for x in k[1]))
    return '%s' % (k[1], )


_MT = {}


def mono_text(m):
    r = _MT.get(m)
    if r is None:
        r = '*'.join(atom_text(a) if e == 1 else '%s^%s' % (
            atom_text(a), e if isinstance(e, Fraction) else '(%s)' % show(e))
            for a, e in m)
        _MT[m] = r
    return r


def show(x):
    if not x.t:
        return '0'
    parts = []
    for m in sorted(x.t, key=mono_text):
        c = x.t[m]
        s = mono_text(m)
        if not s:
            parts.append(str(c))
        elif c == 1:
            parts.append(s)
        elif c == -1:
            parts.append('-' + s)
        else:
            parts.append('%s*%s' % (c, s))
    r = ' + '.join(parts)
    return r if len(r) < 300 else r[:297] + '...'
