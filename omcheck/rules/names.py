"""Automatic names: the counter and the positional encoding of its value.

The value graph of the name a new expression gets is taken apart: which
function of the counter is encoded, what one turn of the encoding loop does
to its variables (the transfer function of the loop), and how the final name
is put together.  Uniqueness follows by induction from facts about one turn:
it takes off the last digit of the number (num' = num // B), the character it
adds is an injective function of that digit only, the loop ends exactly when
no digits are left, and what surrounds the digits cannot make names of
different numbers of digits equal."""
import ast

from ..program import AnalysisError
from ..evalu import Fails, Unknown, ev
from ..history import History
from ..sites import P
from ..terms import mk, subterms
from ..interp import const

LIMIT = 10 ** 7        # automatic names promised to be different
OKCHARS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
              '0123456789_')
COUNTS = list(range(-1, 12)) + [61, 62, 63, 64, 126, 500, 3968, 3969, 4000,
                                250046, 250047, 9999999]
MARK = '~'


class Bad(Exception):
    pass


def run(ctx):
    """(history, step, counter symbols, class term)"""
    w = ctx.world
    h = History(w)
    cls = mk('cls', w.variable.qual)
    first = {}
    for n in w.variable.attrs:
        s = h.attr(cls, n)
        if s.value is not None and s.value.op == 'const' and isinstance(
                s.value.args[0], int) and not isinstance(
                    s.value.args[0], bool):
            first[n] = s.value.args[0]
    sym = {n: P('first:' + n, 'int') for n in first}
    for n, c in sym.items():
        h.st.set(cls, n, c)
    s = h.new(w.variable)
    return h, s, sym, cls, first


def where_init(ctx):
    f = ctx.world.variable.find('__init__')
    if f is None:
        return 'omtools/core/variable.py', 1
    return f.module.path, f.node.lineno


def rule_counter(ctx, rep):
    """Successive expressions encode different numbers."""
    rule = 'numbers-differ'
    h, s, sym, cls, first = run(ctx)
    where = where_init(ctx)
    if s.dead or s.value is None:
        rep.und(rule, 'counter', 'not evaluated')
        return
    try:
        loop, num, init = encoding(h, s)
    except Unknown as e:
        rep.und(rule, 'counter', str(e))
        return
    moved = {}
    for n, c in sym.items():
        t = s.state.get(cls, n)
        if t is not None and t is not c:
            moved[n] = t
    used = [n for n, c in sym.items() if c in set(subterms(init))]
    if len(used) != 1:
        if init.op == 'const':
            rep.bad(rule, where, 'counter', 'every expression gets the same '
                    'automatic name')
        else:
            rep.und(rule, 'counter', 'the number that is encoded')
        return
    n = used[0]
    if n not in moved:
        rep.bad(rule, where, 'counter', 'the number that is encoded in the '
                'name does not change from one expression to the next')
        return
    try:
        step = [ev(moved[n], {sym[n]: v}) - v for v in COUNTS]
        off = [ev(init, {sym[n]: v}) - v for v in COUNTS]
    except (Unknown, Fails, TypeError) as e:
        rep.und(rule, 'counter', str(e))
        return
    if any(d == 0 for d in step):
        v = COUNTS[step.index(0)]
        rep.bad(rule, where, 'counter', 'after expression number %d the '
                'number encoded in the name does not change' % v)
    elif len(set(step)) == 1 and len(set(off)) == 1 and step[0] > 0:
        if first[n] + off[0] < 0:
            rep.bad(rule, where, 'counter', 'the first number encoded is '
                    'negative')
        else:
            rep.ok(rule, 'counter')
    else:
        try:
            seq = {}
            v = first[n]
            for k in range(2000):
                g = ev(init, {sym[n]: v})
                if g in seq:
                    rep.bad(rule, where, 'counter', 'expressions %d and %d '
                            'encode the same number' % (seq[g], k))
                    return
                seq[g] = k
                v = ev(moved[n], {sym[n]: v})
            # the first number that is not followed by the next one
            lo, hi = v, max(c for c, d in zip(COUNTS, step) if d != 1)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if ev(moved[n], {sym[n]: mid}) == mid + 1:
                    lo = mid
                else:
                    hi = mid
            nv = ev(moved[n], {sym[n]: hi})
            if len(seq) == 2000 and v == first[n] + 2000 and \
                    first[n] <= nv <= hi:
                rep.bad(rule, where, 'counter', 'after expression number %d '
                        'the number %d is encoded again' % (hi, nv))
                return
        except (Unknown, Fails, TypeError, ValueError) as e:
            rep.und(rule, 'counter', str(e))
            return
        rep.und(rule, 'counter', 'numbers')
    # who else writes the counter
    own = set(map(id, ast.walk(ctx.world.variable.find('__init__').node)))
    for m in ctx.world.p.modules.values():
        for x in ast.walk(m.tree):
            if not isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign,
                                  ast.Delete)) or id(x) in own:
                continue
            ts = x.targets if hasattr(x, 'targets') else [x.target]
            for t in ts:
                if isinstance(t, ast.Attribute) and t.attr == n:
                    writer(ctx, rep, rule, m, x, t, n)


BACK = 'the counter of expressions is set back: later expressions get ' \
    'names that are already in use'


def writer(ctx, rep, rule, m, x, t, n):
    if not isinstance(t.value, ast.Name) or ctx.world.p.lookup(
            m, t.value.id) is not ctx.world.variable:
        rep.und(rule, 'writer', '%s:%d' % (m.path, x.lineno))
        return
    if isinstance(x, ast.Assign) and isinstance(
            x.value, (ast.Constant, ast.UnaryOp)):
        rep.bad(rule, (m.path, x.lineno), 'writer', BACK)
        return
    for c in ctx.world.p.classes.values():
        f = c.find('__init__')
        if c.module is m and f is not None and f.module is m and any(
                y is x for y in ast.walk(f.node)):
            h, s, sym, cls, first = run(ctx)
            try:
                before = s.state.get(cls, n)
                g = h.new(c)
                after = g.state.get(cls, n)
                if g.dead:
                    raise Unknown('constructor')
                for v in COUNTS:
                    env = {sym[n]: v}
                    if ev(after, env) < ev(before, env):
                        rep.bad(rule, (m.path, x.lineno), 'writer', BACK)
                        return
            except (Unknown, Fails, TypeError, AnalysisError) as e:
                rep.und(rule, 'writer', str(e))
                return
            rep.ok(rule, 'writer')
            return
    rep.und(rule, 'writer', '%s:%d' % (m.path, x.lineno))


def encoding(h, s):
    """The loop that encodes the number, its number slot and first value."""
    t = h.pure(s, h.attr(s.value, 'name').value)
    loops = []
    for x in subterms(t):
        if x.op == 'opaque' and x.args[:1] == ('while', ):
            l = h.it.while_loops.get(x.args[1])
            if l is None:
                raise Unknown('loop')
            if l not in loops:
                loops.append(l)
    if len(loops) != 1:
        raise Unknown('how the name is made')
    loop = loops[0]
    nums = [(q, i) for q, o, k, i in loop['slots'] if i is not None and any(
        x.op == 'param' for x in subterms(i))]
    if len(nums) != 1:
        consts = [(q, i) for q, o, k, i in loop['slots'] if i is not None and
                  i.op == 'const' and isinstance(i.args[0], int) and
                  not isinstance(i.args[0], bool) and k == 'num']
        if not nums and len(consts) == 1:
            return loop, consts[0][0], consts[0][1]
        raise Unknown('number encoded')
    return loop, nums[0][0], nums[0][1]


class Loop(object):
    def __init__(self, h, s):
        self.loop, self.num, self.init = encoding(h, s)
        self.name = h.pure(s, h.attr(s.value, 'name').value)
        self.slots = [q for q, o, k, i in self.loop['slots']]
        if self.loop['first'] is False or self.loop['test'] is None or \
                not self.loop['steps']:
            raise Unknown('loop')
        self.start = {}
        for q, o, k, i in self.loop['slots']:
            if q is not self.num:
                self.start[q] = None if i is None else ev(i, {})
        self.texts = [q for q in self.slots if isinstance(
            self.start.get(q), str)]

    def turn(self, env):
        """(new values, ends)"""
        end = None
        for kind, cond, vals in self.loop['steps']:
            if cond.op == 'const':
                ok = cond.args[0]
            else:
                ok = ev(cond, env)
            if not ok:
                continue
            new = {}
            for q in self.slots:
                try:
                    new[q] = ev(vals[q], env)
                except Fails as e:
                    raise Bad('for %d the encoding fails (%s)' % (
                        env[self.num], e))
            if kind == 'break':
                end = True
            elif kind in ('normal', 'continue'):
                end = not ev(self.loop['test'], new)
            else:
                raise Unknown(kind)
            return new, end
        raise Unknown('turn')


def rule_encoding(ctx, rep):
    rule = 'encoding-injective'
    h, s, sym, cls, first = run(ctx)
    where = where_init(ctx)
    if s.dead or s.value is None:
        rep.und(rule, 'name', 'not evaluated')
        return
    try:
        L = Loop(h, s)
        facts = turn_facts(L)
    except (Unknown, Fails, TypeError) as e:
        rep.und(rule, 'name', str(e))
        return
    except Bad as e:
        rep.bad(rule, where, 'name', str(e))
        return
    rep.ok(rule, 'one turn takes off one digit')
    rep.ok(rule, 'digits differ')
    rep.ok(rule, 'ends when no digits are left')
    try:
        r = compose(L, *facts)
    except (Unknown, Fails, TypeError) as e:
        rep.und(rule, 'whole name', str(e))
        return
    except Bad as e:
        r = str(e)
    rep.verdict(r is True, rule, where, 'whole name', r, r)
    chars = facts[1]
    rule = 'characters-allowed'
    bad = [c for c in chars if c not in OKCHARS]
    rep.verdict(not bad, rule, where, 'digits', 'automatic names contain %r, '
                'which is not allowed in names' % ''.join(bad), '')


def turn_facts(L):
    base = None
    vals = list(range(0, 4200)) + [63 ** 3 + k for k in range(-70, 70)] + [
        LIMIT - k for k in range(1, 200)]
    digit = {}
    texts = [q for q in L.texts]
    dep = None
    side = None
    for v in vals:
        env = dict(L.start)
        env[L.num] = v
        for n, q in enumerate(texts):
            env[q] = MARK * 5
        new, end = L.turn(env)
        nv = new[L.num]
        if isinstance(nv, float) and nv == int(nv):
            nv = int(nv)
        if not isinstance(nv, int) or isinstance(nv, bool):
            raise Unknown('next number')
        if base is None and nv != 0:
            base = v
            if nv != 1 or base < 2:
                raise Bad('the number %d becomes %d after one digit was '
                          'taken off: other numbers become the same or it '
                          'never ends' % (v, nv))
        if base is not None and nv != v // base:
            raise Bad('after one digit (base %d) was taken off the number '
                      '%d, %d remains instead of %d: different numbers get '
                      'the same name or digits are lost' % (
                          base, v, nv, v // base))
        if end != (nv == 0):
            raise Bad('encoding the number %d %s' % (
                v, 'ends although digits are left: different numbers get '
                'the same name' if end else 'goes on although no digits '
                'are left'))
        # what is added to the text
        changed = []
        for q in texts:
            t = new[q]
            if not isinstance(t, str):
                raise Unknown('text')
            if t.startswith(MARK * 5) and len(t) > 5:
                changed.append((q, 'end', t[5:]))
            elif t.endswith(MARK * 5) and len(t) > 5:
                changed.append((q, 'front', t[:-5]))
        if not changed:
            lost = [q for q in texts if MARK not in new[q]]
            if lost and nv:
                raise Bad('the digits found before are dropped when the '
                          'next one is found')
        if len(changed) != 1:
            raise Unknown('digits')
        q, sd, c = changed[0]
        if dep not in (None, q) or side not in (None, sd):
            raise Unknown('digits on both sides')
        dep, side = q, sd
        if len(c) != 1:
            raise Unknown('digits of several characters')
        digit[v] = c
    if base is None:
        raise Bad('no digits are taken off')
    chars = [digit[v] for v in range(base)]
    for a in range(base):
        for b in range(a):
            if chars[a] == chars[b]:
                raise Bad('the digits %d and %d have the same character %r: '
                          'two expressions get the same name' % (
                              b, a, chars[a]))
    for v in vals:
        if digit[v] != chars[v % base]:
            raise Bad('the last digit of %d is written %r and that of %d '
                      '%r' % (v, digit[v], v % base, chars[v % base]))
    return base, chars, dep, side


def compose(L, base, chars, dep, side):
    """Names of different numbers of digits differ."""
    forms = []
    env = dict(L.start)
    if env[dep] != '':
        raise Unknown('digits start from text')
    k = 1
    while base ** (k - 1) < LIMIT:
        # the other variables after k turns, for numbers of k digits; what
        # they become must not depend on the number
        outs = []
        for v in (base ** (k - 1), base ** k - 1):
            e = dict(L.start)
            n = v
            for _ in range(k):
                e[L.num] = n
                e, end = L.turn(e)
                n = n // base
            e = dict(e)
            e[dep] = MARK * k
            t = ev(L.name, e)
            if not isinstance(t, str):
                raise Unknown('name')
            outs.append(t)
        if len(set(outs)) != 1:
            raise Unknown('the name around the digits')
        t = outs[0]
        i = t.find(MARK)
        if t.count(MARK) < k:
            raise Bad('only %d of %d digits are part of the name: different '
                      'numbers get the same name' % (t.count(MARK), k))
        if t.count(MARK) > k or t[i:i + k] != MARK * k:
            raise Unknown('name')
        lead = set(chars[1:])
        if base ** k > LIMIT:
            lead = set(chars[1:LIMIT // base ** (k - 1) + 1])
        pos = [set(c) for c in t[:i]]
        dig = [set(chars) for _ in range(k)]
        if k == 1:
            seen = {}
            for c in chars:
                e[dep] = c
                u = ev(L.name, e)
                if not isinstance(u, str) or len(u) != len(t):
                    raise Unknown('name')
                if u in seen:
                    raise Bad('digits %r and %r give the same name %s' % (
                        seen[u], c, u))
                seen[u] = c
                if u != t.replace(MARK, c):
                    raise Unknown('name')
        if k > 1:
            dig[0 if side == 'front' else -1] = lead
        pos += dig + [set(c) for c in t[i + k:]]
        bad = [c for c in t if c != MARK and c not in OKCHARS]
        if bad:
            raise Bad('automatic names contain %r' % bad[0])
        forms.append(pos)
        k += 1
    for a in range(len(forms)):
        for b in range(a):
            x, y = forms[b], forms[a]
            if len(x) == len(y) and all(p & q for p, q in zip(x, y)):
                return 'numbers of %d and of %d digits can get the same ' \
                    'name %s' % (b + 1, a + 1, ''.join(
                        min(p & q) for p, q in zip(x, y)))
    return True


def rule_kinds(ctx, rep):
    """Every kind of expression takes its name from the counter."""
    rule = 'every-kind-numbered'
    w = ctx.world
    base = w.variable.find('__init__')
    for c in sorted(w.p.classes.values(), key=lambda c: c.qual):
        if not c.is_sub(w.variable):
            continue
        f = c.find('__init__')
        if f is base:
            rep.ok(rule, c.name)
        else:
            rep.und(rule, c.name, 'constructor')


RULES24 = [rule_counter, rule_encoding, rule_kinds]
