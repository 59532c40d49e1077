#!/usr/bin/env python3
"""check.py PROPERTY: decide one property by seeded simulation. Exit 0 held, 1 violated, 2 error of the check."""
import concurrent.futures as cf
import glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
import simbuild

SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
NW = int(os.environ.get('VERIF_WORKERS', '0')) or os.cpu_count() or 4


class CheckError(Exception):
    pass


def known_findings(prop=None):
    """(name, text) of the listed defects of one property or of all"""
    out = []
    fn = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
            if m and prop in (None, m.group(1)):
                out.append((m.group(2), m.group(3).strip()))
    return out


def write_evidence(prop, level, coverage, assumptions, wall, violations):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    d = dict(property=prop, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED, level=level,
             coverage=coverage, assumptions=assumptions, wall_s=round(wall, 2), violations=violations)
    tmp = VERIF + '/evidence/.%s.%d' % (prop, os.getpid())
    with open(tmp, 'w') as f:
        json.dump(d, f, indent=1, ensure_ascii=False)
        f.write('\n')
    os.rename(tmp, VERIF + '/evidence/%s.json' % prop)


def replay_dir(prop):
    d = os.path.join(VERIF, 'replays', prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def report(prop, found, shown=()):
    """found: list of (replay path, text); shown: names of listed defects the code shows. Returns exit status."""
    for path, text in found:
        print('  ' + text)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for name, text in known_findings(prop):
        if name in shown:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    return 1 if found else 0


def main():
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    if prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C13', 'C14', 'C15'):
        import libcheck as m
    elif prop in ('C07', 'C08', 'C09', 'C10', 'C11', 'C12'):
        import calccheck as m
    else:
        import makecheck as m
    return m.check(sys.modules['__main__'], prop)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    try:
        rc = main()
    except CheckError as e:
        print('ERROR: %s' % e)
        rc = 2
    sys.exit(rc)
