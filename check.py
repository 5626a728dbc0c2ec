#!/usr/bin/env python3
"""Decide one property of sile/prometrics on /repo's current tree.  usage: check.py C01

Outcome rules (DESIGN.md, section 'Outcomes'):
  * a failing input on the real code            -> exit 1, VIOLATION property=<id> replay=<path>
  * a named obligation refuted-or-unproved whose anchors are intact, and no failing input
                                                -> exit 1, VIOLATION ... no-failing-input-found
  * an obligation that cannot be posed (lost anchor, unsupported construct, resource limit)
                                                -> labelled undecided; the bounded stand-in decides
  * everything else                             -> exit 0
"""
import json, os, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PMX_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import harvest

CLAIMED = ['C%02d' % i for i in range(1, 19)] + ['C20']
# properties whose statement is carried by contracts the verifier discharges (the rest: exploration)
PROVED = open(os.path.join(VERIF, 'tools', 'proved.txt')).read().split()


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors='replace', **kw)


def run_suite(prop, seed, tier, secs, work):
    """Build the replay suite against /repo's current tree and run the property's part of it."""
    d = os.path.join(VERIF, 'suite')
    if REPO != '/repo':  # development only: the same suite against another copy of the crate
        shutil.copytree(d, os.path.join(work, 'suite-src'), ignore=shutil.ignore_patterns('target'))
        d = os.path.join(work, 'suite-src')
        c = open(os.path.join(d, 'Cargo.toml')).read()
        open(os.path.join(d, 'Cargo.toml'), 'w').write(c.replace('path = "/repo"', 'path = "%s"' % REPO))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, 'suite-target'), CARGO_TERM_COLOR='never')
    env.pop('RUSTUP_TOOLCHAIN', None)
    b = sh(['cargo', 'build', '--release', '--offline', '--locked'], 600, cwd=d, env=env)
    if b.returncode != 0:
        return {'error': 'the replay suite does not build:\n' + b.stdout[-6000:]}
    dic = os.path.join(work, 'dict')
    harvest.main(REPO, dic)
    return explore(prop, seed, tier, secs, work)


def explore(prop, seed, tier, secs, work):
    dic = os.path.join(work, 'dict')
    out = os.path.join(work, 'suite.json')
    exe = os.path.join(work, 'suite-target', 'release', 'pmx-suite')
    cmd = [exe, prop, seed, tier, str(secs), dic, out]
    try:
        p = sh(cmd, secs * 3 + 400)
    except subprocess.TimeoutExpired:
        return {'error': 'the replay suite did not end'}
    if p.returncode != 0 or not os.path.exists(out):
        if p.returncode < 0 or p.returncode > 100:
            return {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'failures': [
                {'case': 'the run `pmx-suite %s %s %s %d`' % (prop, seed, tier, secs),
                 'failure': 'the process was killed (status %d) while it exercised the crate: %s'
                            % (p.returncode, p.stdout[-1500:])}]}
        return {'error': 'the replay suite failed (%d): %s' % (p.returncode, p.stdout[-3000:])}
    return json.load(open(out))


def known(prop):
    f = []
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        l = l.strip()
        if l.startswith('finding: property=%s ' % prop):
            # finding: property=C00 [substring of the failing case] text
            r = l.split(' ', 2)[2]
            key, text = r[1:].split(']', 1)
            f.append((key, text.strip()))
    return f


def main():
    t0 = time.time()
    prop = sys.argv[1]
    if prop not in CLAIMED:
        print('unknown property', prop)
        return 2
    seed = os.environ.get('VERIF_SEED', '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    secs = int(os.environ.get('PMX_SECS', '25' if tier == 'quick' else '420'))
    work = tempfile.mkdtemp(prefix='pmx-%s-' % prop)
    try:
        return decide(prop, seed, tier, secs, work, t0)
    finally:
        if os.environ.get('PMX_KEEP'):
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def decide(prop, seed, tier, secs, work, t0):
    res = {}

    def suite():
        try:
            res['suite'] = run_suite(prop, seed, tier, secs, work)
        except Exception as e:  # an error of the machinery, never of the crate
            res['suite'] = {'error': repr(e)}

    th = threading.Thread(target=suite)
    th.start()
    try:
        import deduce
        ded = deduce.run(prop, tier, work, REPO)
    except ImportError:
        ded = None
    except Exception as e:
        import traceback
        ded = {'undecided': ['the deductive stage itself failed: ' + traceback.format_exc()], 'failed': [],
               'obligations': 0, 'discharged': 0, 'checker_cmd': '', 'trusted_base': [], 'functions': []}
    th.join()
    s = res['suite']
    if 'error' in s:
        print('ERROR:', s['error'])
        return 3
    kn = known(prop)
    seen, new = [], []
    for f in s['failures']:
        m = [t for k, t in kn if k in f['case'] + ' ' + f['failure']]
        (seen.append(m[0]) if m else new.append(f))
    for t in sorted(set(seen)):
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    failed = ded['failed'] if ded else []
    if failed and not new and time.time() - t0 < 480:
        # an obligation fails: look harder for the input which shows it
        for k in (1, 2, 3):
            x = explore(prop, str(int(seed) + 1000 * k) if seed.isdigit() else '%d' % k, tier, min(40, 2 * secs), work)
            new = [f for f in x.get('failures', []) if not any(k2 in f['case'] + ' ' + f['failure'] for k2, _ in kn)]
            for n in ('evaluations', 'distinct_nontrivial'):
                s[n] += x.get(n, 0)
            if new:
                break
    violation = bool(new) or bool(failed)

    ev = {'property': prop, 'tier': tier, 'seed': int(seed) if seed.lstrip('-').isdigit() else 0,
          'level': 'proof' if prop in PROVED else 'exploration',
          'coverage': {
              'evaluations': s['evaluations'], 'distinct_nontrivial': s['distinct_nontrivial'],
              'rule': 'bounded stand-in and counterexample search on the real crate: generated, enumerated and '
                      'concurrent cases of this property checked against an independent oracle; a case counts as '
                      'non-trivial when it reaches the behaviour the property speaks of and its description differs '
                      'from every other',
              'samples': s['samples'][:12]},
          'assumptions': [], 'violations': len(new) + len(failed), 'wall_s': round(time.time() - t0, 2)}
    if ded:
        c = ev['coverage']
        for k in ('obligations', 'discharged', 'checker_cmd', 'trusted_base', 'functions', 'by_back_end', 'solver_s',
                  'vacuity', 'bounded_or_undecided', 'extraction', 'float_facts'):
            if k in ded:
                c[k] = ded[k]
        c['undecided'] = ded['undecided']
        ev['assumptions'] = ded.get('assumptions', [])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')

    for u in (ded['undecided'] if ded else []):
        print('UNDECIDED (bounded stand-in used): ' + u.split('\n')[0])
    if not violation:
        if ded:
            print('%s: %d/%d obligations discharged; bounded stand-in: %d cases, %d distinct' %
                  (prop, ded['discharged'], ded['obligations'], s['evaluations'], s['distinct_nontrivial']))
        else:
            print('%s: %d cases, %d distinct' % (prop, s['evaluations'], s['distinct_nontrivial']))
        return 0
    rd = os.path.join(VERIF, 'replays')
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, prop + '.txt')
    with open(path, 'w') as f:
        f.write('property %s\n' % prop)
        if new:
            f.write('failing inputs on the real code (re-run: pmx-suite %s %s %s %d DICT OUT):\n' % (prop, seed, tier, secs))
            for x in new:
                f.write('  case:    %s\n  failure: %s\n' % (x['case'], x['failure']))
        for x in failed:
            f.write('failed obligation: %s\n%s\n' % (x['name'], x['output']))
    for x in new[:3]:
        print('case: %s\n  -> %s' % (x['case'], x['failure']))
    for x in failed[:5]:
        print('failed obligation: ' + x['name'])
    print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if new else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    sys.exit(main())
