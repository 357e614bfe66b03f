#!/usr/bin/env python3
"""Decide one property of /repo by static analysis of its source.

usage: check.py <property id> [--root DIR] [--verbose]

Exit 0: every decided obligation holds.  Exit 1: a VIOLATION line names the
construct.  Exit 2: the analysis itself could not be carried out."""
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


class TimeLimit(BaseException):
    """The analysis of a property takes too long."""


def limits():
    """Bounds time and memory, so that there is an answer in any case."""
    import resource
    import signal

    def stop(*a):
        # what is left is given little time
        signal.alarm(20)
        raise TimeLimit('out of time')
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(int(os.environ.get('OMCHECK_LIMIT', '760')))
    size = 14 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (size, size))
    except (ValueError, OSError):
        pass


def run_rule(rule, ctx, rep):
    """A construct the analysis cannot handle leaves the rule undecided; it
    is not a verdict on the program."""
    try:
        rule(ctx, rep)
        return True
    except (Exception, TimeLimit) as e:
        if os.environ.get('OMCHECK_DEBUG'):
            raise
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        rep.und(getattr(rule, '__name__', 'rule'), 'the whole rule',
                'analysis stopped: %s: %s (%s:%s)' % (
                    type(e).__name__, e, os.path.basename(tb.filename),
                    tb.lineno))
        return not isinstance(e, (TimeLimit, MemoryError))


def main(argv):
    root = os.environ.get('OMCHECK_ROOT', '/repo')
    verbose = False
    ids = []
    i = 0
    while i < len(argv):
        if argv[i] == '--root':
            i += 1
            root = argv[i]
        elif argv[i] == '--verbose':
            verbose = True
        else:
            ids.append(argv[i])
        i += 1
    from omcheck import registry
    from omcheck.report import Report, load_known, write_evidence
    from omcheck.program import AnalysisError
    if ids == ['all']:
        ids = sorted(registry.CHECKS)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = load_known(os.path.join(HERE, 'known_findings.txt'))
    ctx = registry.Context(root, tier, seed)
    code = 0
    for pid in ids:
        if pid not in registry.CHECKS:
            print('unknown property', pid)
            return 2
        spec = registry.CHECKS[pid]
        rep = Report(pid)
        limits()
        try:
            going = True
            for rule in spec.rules:
                if going:
                    going = run_rule(rule, ctx, rep)
                else:
                    rep.und(getattr(rule, '__name__', 'rule'),
                            'the whole rule', 'not started')
            if not going:
                ctx = registry.Context(root, tier, seed)
        except AnalysisError as e:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            return 2
        finally:
            signal.alarm(0)
        fresh = []
        for f in rep.findings:
            if (pid, f.key) in known:
                print('KNOWN-FINDING: property=%s %s' % (
                    pid, known[(pid, f.key)]))
            else:
                fresh.append(f)
        evdir = os.environ.get('OMCHECK_EVIDENCE') or os.path.join(
            HERE, 'evidence')
        ev = os.path.join(evdir, pid + '.json')
        write_evidence(ev, rep, tier, seed, spec.level, spec.explanation,
                       ctx.analysed(), spec.assumptions, len(fresh))
        for r in sorted(rep.rules):
            c = rep.rules[r]
            print('%s %-34s obligations=%d discharged=%d undecided=%d '
                  'violated=%d' % (pid, r, c['obligations'], c['discharged'],
                                   c['undecided'], c['violated']))
        if verbose:
            for u in rep.undecided:
                print('  UNDECIDED', u['rule'], u['instance'], u['why'])
        if not fresh and rep.total('obligations') == 0:
            print('ANALYSIS-BROKEN property=%s no rule instance found' % pid)
            return 2
        if fresh:
            code = 1
            rp = os.path.join(evdir, pid + '.violations.txt')
            with open(rp, 'w') as f:
                for x in fresh:
                    f.write(x.text() + '\n')
            for x in fresh:
                print('  ' + x.text())
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            print('OK property=%s obligations=%d discharged=%d undecided=%d'
                  % (pid, rep.total('obligations'), rep.total('discharged'),
                     rep.total('undecided')))
    return code


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('ANALYSIS-BROKEN internal error')
        sys.exit(2)
