"""Obligations, findings and evidence of one check."""
import json
import os
import time


class Finding(object):
    def __init__(self, rule, where, instance, msg, key=None):
        self.rule = rule
        self.where = where            # (file, line) or text
        self.instance = instance
        self.msg = msg
        # identifies the construct, not its position
        self.key = key or '%s|%s' % (rule, instance)

    def text(self):
        w = self.where
        if isinstance(w, tuple):
            w = '%s:%s' % w
        return '%s: [%s] %s: %s' % (w or '?', self.rule, self.instance,
                                    self.msg)


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.rules = {}               # rule -> {'discharged','undecided',..}
        self.samples = []
        self.undecided = []
        self.findings = []
        self.notes = {}
        self.sites = set()

    def _r(self, rule):
        return self.rules.setdefault(rule, {
            'obligations': 0, 'discharged': 0, 'undecided': 0, 'violated': 0})

    def ok(self, rule, instance, detail=None):
        r = self._r(rule)
        r['obligations'] += 1
        r['discharged'] += 1
        self.sites.add((rule, instance))
        if r['discharged'] <= 3:
            self.samples.append({'rule': rule, 'instance': instance,
                                 'detail': str(detail)[:300]
                                 if detail is not None else 'discharged'})

    def und(self, rule, instance, why=''):
        r = self._r(rule)
        r['obligations'] += 1
        r['undecided'] += 1
        self.undecided.append({'rule': rule, 'instance': instance,
                               'why': str(why)[:300]})

    def bad(self, rule, where, instance, msg, key=None):
        r = self._r(rule)
        r['obligations'] += 1
        f = Finding(rule, where, instance, msg, key)
        if any(g.key == f.key and g.msg == f.msg for g in self.findings):
            return
        r['violated'] += 1
        self.findings.append(f)

    def verdict(self, v, rule, where, instance, msg, why=''):
        """v: True (holds), False (violated), None (undecided)."""
        if v is True:
            self.ok(rule, instance)
        elif v is False:
            self.bad(rule, where, instance, msg)
        else:
            self.und(rule, instance, why or msg)

    def total(self, k):
        return sum(r[k] for r in self.rules.values())


def load_known(path):
    """(property, key) -> text of the recorded findings; 'fixed:' lines
    suppress nothing."""
    known = {}
    if not os.path.exists(path):
        return known
    for ln in open(path):
        ln = ln.strip()
        if not ln.startswith('finding:'):
            continue
        rest = ln[len('finding:'):].strip()
        if not rest.startswith('property='):
            continue
        prop, rest = rest[len('property='):].split(' ', 1)
        if rest.startswith('key='):
            k, _, text = rest[len('key='):].partition(' :: ')
            known[(prop, k)] = text or k
    return known


def write_evidence(path, rep, tier, seed, level, explanation, analysed,
                   assumptions, violations):
    d = {
        'property': rep.prop,
        'tier': tier,
        'seed': seed,
        'level': level,
        'coverage': {
            'explanation': explanation,
            'obligations': rep.total('obligations'),
            'discharged': rep.total('discharged'),
            'undecided': rep.total('undecided'),
            'violated': rep.total('violated'),
            'distinct_sites': len(rep.sites),
            'rules': rep.rules,
            'analysed': analysed,
            'samples': rep.samples[:40],
            'undecided_list': rep.undecided[:60],
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - rep.t0, 3),
        'violations': violations,
    }
    d['coverage'].update(rep.notes)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(d, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    os.replace(tmp, path)
