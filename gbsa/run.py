"""Entry point: python3 -m gbsa.run <property> [--tier quick|thorough] [--root /repo]

Reads the current source below --root, runs the rule of the property and reports.
Exit 0: no violation outside known_findings.txt.  Exit 1: VIOLATION.  Exit 2: the analysis could not be made.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

from .core import Report
from .interp import Clock
from .loader import Program, Broken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RULES = {
    'S01': 's_sql.s01', 'S02': 's_sql.s02',
    'S03': 's_txn.s03', 'S04': 's_txn.s04', 'S05': 's_txn.s05', 'S06': 's_txn.s06',
    'S07': 's_index.s07',
    'S11': 's_query.s11', 'S12': 's_query.s12',
    'S13': 's_data.s13',
    'F01': 'f_facade.f01', 'F03': 'f_facade.f03', 'F04': 'f_facade.f04', 'F05': 'f_facade.f05',
    'F02': 'f_backend.f02', 'F06': 'f_backend.f06', 'F07': 'f_backend.f07',
    'D01': 'd_dump.d01', 'Q01': 'q_graph.q01', 'Q02': 'q_graph.q02', 'Q03': 'q_err.q03',
    'W01': 'w_read.w01', 'W02': 'w_read.w02',
    'K01': 'k_tree.k01', 'K02': 'k_tree.k02', 'K04': 'k_tree.k04', 'K05': 'k_tree.k05', 'K07': 'k_tree.k07', 'K03': 'k_read.k03', 'K06': 'k_read.k06',
    'K08': 'k_elem.k08', 'K09': 'k_elem.k09',
    'Y01': 'y_pure.y01', 'Y02': 'y_text.y02', 'Y03': 'y_text.y03', 'Y04': 'y_text.y04', 'Y05': 'y_text.y05', 'Y06': 'y_text.y06',
    'S08': 's_rows.s08', 'S09': 's_rows.s09', 'S10': 's_rows.s10',
}


def rule(name):
    mod, fn = RULES[name].split('.')
    return getattr(importlib.import_module('gbsa.rules.' + mod), fn)


def known_findings():
    """{property: set of finding keys} - lines 'finding: property=<id> <rule> @ <construct>' ; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property='):
                pid, key = l[len('finding: property='):].split(' ', 1)
                out.setdefault(pid, set()).add(key.split(' -- ')[0].strip())
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    o = ap.parse_args(argv)
    t0 = time.time()
    Clock.end = time.monotonic() + (780 if o.tier == 'thorough' else 600)
    Clock.one = 240 if o.tier == 'thorough' else 90
    rep = Report(o.property)
    try:
        prog = Program(o.root)
        rule(o.property)(prog, rep, o.tier)
    except Broken as e:
        print('ERROR property=%s the source cannot be analysed: %s' % (o.property, e))
        return 2
    except Exception:
        # a construct the rule does not model: what was established before it stands, the rest is undecided
        traceback.print_exc(limit=-6)
        rep.undec('the analysis could not go on: %s' % traceback.format_exc(limit=-1).strip().split('\n')[-1])
    known = known_findings().get(o.property, set())
    new, old = [], []
    for f in rep.findings.values():
        (old if f.key in known else new).append(f)
    edir = os.path.join(HERE, 'evidence')
    if not o.no_evidence:
        os.makedirs(edir, exist_ok=True)
        write_evidence(o, rep, new, old, edir, t0)
    print('property=%s tier=%s functions=%d obligations=%d undecided=%d wall=%.1fs' % (
        o.property, o.tier, len(rep.functions), rep.obligations, len(rep.undecided), time.time() - t0))
    for k, v in sorted(rep.counts.items()):
        print('  %-32s %d' % (k, v))
    for u in rep.undecided[:12]:
        print('  UNDECIDED %s' % u[:300])
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (o.property, f.line()))
    if new:
        rdir = os.path.join(edir, 'replay')
        path = os.path.join(rdir, '%s.txt' % o.property)
        if not o.no_evidence:
            os.makedirs(rdir, exist_ok=True)
            with open(path, 'w') as h:
                for f in new:
                    h.write('%s\n' % f.line())
                    for w in f.where:
                        h.write('    %s\n' % (w,))
        for f in new:
            print('  %s' % f.line())
        print('VIOLATION property=%s replay=%s' % (o.property, path))
        return 1
    if not rep.obligations and not rep.undecided:
        print('ERROR property=%s nothing could be decided' % o.property)
        return 2
    return 0


def write_evidence(o, rep, new, old, edir, t0):
    ev = {
        'property': o.property,
        'tier': 'thorough' if o.tier == 'thorough' else 'quick',
        'seed': int(os.environ.get('VERIF_SEED') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source below %s: abstract interpretation of the functions listed, from driver '
                           'functions with symbolic arguments; every effect on every explored abstract path was an obligation of the rules '
                           'listed. Nothing of the repository was executed.' % o.root,
            'rules': rep.rules,
            'functions': sorted('%s:%s' % (x[0].split('/repo/')[-1], x[1]) if isinstance(x, tuple) else str(x) for x in rep.functions),
            'functions_analysed': len(rep.functions),
            'obligations': rep.obligations,
            'discharged': rep.obligations - sum(rep.counts.get(f.rule, 0) for f in {f.rule: f for f in rep.findings.values()}.values()),
            'obligations_by_kind': rep.counts,
            'undecided': rep.undecided,
            'samples': rep.samples,
            'known_findings': [f.line() for f in old],
            'found': [{'rule': f.rule, 'construct': f.construct, 'message': f.msg, 'path': [str(w) for w in f.where]} for f in new],
        },
        'violations': len(new),
        'wall_s': round(time.time() - t0, 3),
    }
    p = os.path.join(edir, o.property + '.json')
    with open(p + '.tmp', 'w') as h:
        json.dump(ev, h, indent=1, sort_keys=True)
        h.write('\n')
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    sys.exit(main())
