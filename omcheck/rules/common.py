"""Helpers shared by the rules: operands of a build site and the way a term
refers to them."""
from ..terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, opaque,
                     subst, contains, subterms, key, has_opaque)
from .. import smart as S
from ..smart import not_, and_, or_, ite, eq, assume, kind_of
from ..sites import leaves, contradictory


class Operand(object):
    def __init__(self, label, term, star):
        self.label = label
        self.term = term            # param, or star(param)
        self.star = star

    def __repr__(self):
        return ('*' if self.star else '') + self.label


def operands(case):
    r = []
    for a in list(case.args) + list(case.kwargs.values()):
        if a.op == 'star':
            r.append(Operand(a.args[0].args[0], a, True))
        elif a.op == 'param' and a.args[1] == 'Variable':
            r.append(Operand(a.args[0], a, False))
    return r


def star_base(t):
    """The star parameter a sequence term stands for, and how much of it:
    ('all',) | ('tail', k) | None."""
    if t.op == 'star':
        return t.args[0], ('all', )
    if t.op == 'param' and t.args[1] == 'vars':
        return t, ('all', )
    if t.op in ('tup', ) and len(t.args) == 1 and isinstance(t.args[0], T) \
            and t.args[0].op == 'star':
        return star_base(t.args[0])
    if t.op in ('dedup', 'copy', 'tolist', 'reversed', 'sorted', 'sortedby'):
        return star_base(t.args[0])
    if t.op == 'fromkeys':
        return star_base(t.args[0])
    if t.op == 'tail':
        b = star_base(t.args[0])
        k = t.args[1]
        k = cval(k) if isinstance(k, T) and is_const(k) else k
        if b and b[1] == ('all', ) and isinstance(k, int):
            return b[0], ('tail', k)
        return None
    if t.op == 'slice':
        b = star_base(t.args[0])
        if b is None or b[1] != ('all', ):
            return None
        lo, hi, stp = [cval(x) if isinstance(x, T) and is_const(x) else x
                       for x in t.args[1:4]]
        if hi is None and stp in (None, 1):
            if lo in (None, 0):
                return b
            if isinstance(lo, int) and lo > 0:
                return b[0], ('tail', lo)
        if stp in (None, 1) and isinstance(hi, int) and hi < 0 and lo in (
                None, 0):
            return b[0], ('head', hi)
        return None
    return None


class Ref(object):
    """A reference to an operand (or a member of an operand family)."""

    def __init__(self, label, sel, idx=None):
        self.label = label
        self.sel = sel          # None | ('item',k) | ('all',) | ('tail',k)
        self.idx = idx


def operand_ref(t, ops):
    for o in ops:
        if not o.star and t is o.term:
            return Ref(o.label, None)
    if t.op in ('item', 'elem'):
        b = star_base(t.args[0])
        if b is not None:
            for o in ops:
                if o.star and o.term.args[0] is b[0]:
                    k = t.args[1]
                    if is_const(k) and isinstance(cval(k), int):
                        if b[1] == ('all', ):
                            return Ref(o.label, ('item', cval(k)))
                        if b[1][0] == 'tail' and cval(k) >= 0:
                            return Ref(o.label, ('item', cval(k) + b[1][1]))
                        return None
                    if k.op == 'idx':
                        dom = idx_dom(k)
                        d = star_base(dom) if dom is not None else None
                        if d is not None and d[0] is b[0]:
                            return Ref(o.label, d[1], k)
                        return Ref(o.label, ('idx', ), k)
    return None


def idx_dom(k):
    if k.op == "idx" and isinstance(k.args[0], T):
        return k.args[0]
    for a in k.args[1:]:
        if isinstance(a, T):
            return a
    return None


def field_ref(t, field, ops):
    """(mode, Ref) when t is operand.field; mode 'late' or 'early'."""
    if not isinstance(t, T):
        return None
    if t.op in ('late', 'attr') and t.args[1] == field:
        r = operand_ref(t.args[0], ops)
        if r is not None:
            return ('late' if t.op == 'late' else 'early'), r
    if t.op == 'item':
        s = t.args[0]
        while s.op in ('slice', 'tail', 'dedup', 'copy', 'tolist',
                       'reversed', 'sorted', 'sortedby'):
            s = s.args[0]
        if s.op == 'map':
            r = field_ref(s.args[0], field, ops)
            if r is not None and r[1].sel is not None:
                k = t.args[1]
                return r[0], Ref(r[1].label, ('idx', ),
                                 k if k.op == 'idx' else None)
    return None


def cover(refs):
    """Does a list of selections cover a whole family?  True/False/None."""
    items = set()
    tail = None
    head = None
    for r in refs:
        s = r.sel
        if s is None or s == ('all', ):
            return True
        if s[0] == 'item':
            items.add(s[1])
        elif s[0] == 'tail':
            tail = s[1] if tail is None else min(tail, s[1])
        elif s[0] == 'head':
            head = s[1] if head is None else max(head, s[1])
        else:
            return None
    if tail is not None and all(k in items for k in range(tail)):
        return True
    if head is not None and all(k in items for k in range(head, 0)):
        return True
    if tail is not None and head is not None:
        return True
    return False


def is_dedup_guard(g):
    """not in(name, <list built so far>): a first-occurrence test."""
    c, v = g
    if c.op == 'not':
        c, v = c.args[0], not v
    return (c.op == 'in' and v is False and contains(
        c.args[1], lambda s: s.op in ('carry', 'opaque')))


def guard_state(guard, facts):
    """'always' when the guard is implied, 'dedup', 'never', 'open' (depends
    on something known) or 'unknown'."""
    res = 'always'
    for g in guard:
        c = assume(g[0], tuple(facts))
        if is_const(c):
            if bool(cval(c)) != g[1]:
                return 'never'
            continue
        if is_dedup_guard(g):
            res = 'dedup' if res == 'always' else res
            continue
        if has_opaque(c) or contains(c, lambda s: s.op == 'carry'):
            return 'unknown'
        res = 'open'
    return res


def where_text(w):
    if isinstance(w, tuple):
        return '%s:%s' % (w[0], w[1])
    return str(w)
