"""The deductive stage of a check: extract, verify, attribute.

run(prop, tier, work, repo) extracts the contracted functions of the crate from the current tree
(tools/extract, with the method resolutions found by tools/resolve), has Verus discharge every
obligation, and reports those which belong to `prop`: the functions tagged with it, the lemmas
which state it, and everything they rest on (callees under contract, lemmas used), transitively.
"""
import json, os, re, shutil, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = os.path.join(VERIF, 'tools')
CONTRACTS = os.path.join(VERIF, 'contracts')

# what Verus says when an obligation is not discharged; everything else is an error of the text
UNPROVED = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
            'loop invariant not satisfied', 'possible arithmetic', 'possible division', 'decreases not satisfied',
            'assertion not satisfied', 'possible bit shift', 'requires not satisfied', 'ensures not satisfied',
            'could not prove', 'unable to prove', 'termination')
LIMIT = ('Resource limit', 'rlimit')


class Broken(Exception):
    pass


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                          errors='replace', **kw)


def build_tools(work):
    env = dict(os.environ, CARGO_TERM_COLOR='never')
    for k in ('CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'RUSTC_WORKSPACE_WRAPPER'):
        env.pop(k, None)
    out = {}
    for name, exe, tc in (('extract', 'pmx-extract', None), ('resolve', 'pmx-resolve', 'nightly')):
        d = os.path.join(TOOLS, name)
        td = os.path.join(d, 'target')
        e = dict(env, CARGO_TARGET_DIR=td)
        if tc:
            e['RUSTUP_TOOLCHAIN'] = tc
        b = sh(['cargo', 'build', '--offline', '--locked'], 600, cwd=d, env=e)
        if b.returncode != 0:
            raise Broken('tools/%s does not build: %s' % (name, b.stderr[-2000:]))
        out[name] = os.path.join(td, 'debug', exe)
    return out


def resolve(exe, repo, work):
    tsv = os.path.join(work, 'types.tsv')
    env = dict(os.environ, CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='nightly')
    env.pop('CARGO_TARGET_DIR', None)
    root = sh(['rustc', '--print', 'sysroot'], 60, env=env).stdout.strip()
    env.update(LD_LIBRARY_PATH=root + '/lib', PMX_OUT=tsv, RUSTC_WORKSPACE_WRAPPER=exe)
    p = sh(['cargo', 'check', '--lib', '--offline', '--target-dir', os.path.join(work, 'resolve-target')], 600,
           cwd=repo, env=env)
    if p.returncode != 0 or not os.path.exists(tsv):
        raise Broken('the crate does not pass the compiler: ' + p.stderr[-2000:])
    return tsv


def extract(exe, repo, tsv, work, quarantine, name='crate', extra_env=None):
    rs = os.path.join(work, name + '.rs')
    mp = os.path.join(work, name + '.map')
    env = dict(os.environ, **(extra_env or {}))
    p = sh([exe, repo, tsv, CONTRACTS, 'ALL', rs, mp, ','.join(sorted(quarantine))], 120, env=env)
    if p.returncode != 0:
        raise Broken('extraction failed: ' + (p.stderr or p.stdout)[-2000:])
    return rs, json.load(open(mp))


def verus(rs, extra=(), timeout=600):
    cmd = ['verus', rs, '--crate-type=lib', '--output-json', '--time-expanded', '--multiple-errors', '8'] + list(extra) \
        + ['--', '--error-format=json']
    p = sh(cmd, timeout, cwd=os.path.dirname(rs))
    ds = []
    for l in p.stderr.split('\n'):
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error' and d.get('spans'):
                ds.append(d)
            elif d.get('level') == 'error' and not d['message'].startswith('aborting due'):
                ds.append(d)
    try:
        j = json.loads(p.stdout)
    except ValueError:
        raise Broken('Verus gave no answer: ' + (p.stderr or p.stdout)[-2000:])
    return cmd, ds, j, p


ITEM = re.compile(r'^\s*(?:pub\s+)?(?:open\s+|closed\s+|uninterp\s+)?(?:broadcast\s+)?(proof fn|axiom fn|spec fn|fn|struct|enum|trait|type|const)\s+(\w+)')


class Text:
    """The extracted text: which lines belong to which function or lemma."""

    def __init__(self, rs):
        self.lines = open(rs).read().split('\n')
        self.fn_at = {}     # line -> function path
        self.fn_text = {}
        self.item_at = {}   # line -> (kind, name) in prelude and spec
        self.item_text = {}
        self.item_doc = {}
        self.item_kind = {}
        self.item_ext = {}
        impl = ''
        sec, cur, item, doc, attr = None, None, None, [], []
        ext = False
        for i, l in enumerate(self.lines, 1):
            s = l.strip()
            if s in ('// @prelude', '// @spec', '// @modules'):
                sec, item = s[4:], None
                continue
            m = re.match(r'// @fn (\S+)', s)
            if m:
                cur = m.group(1)
                self.fn_text[cur] = []
                continue
            if s.startswith('// @end'):
                cur = None
                continue
            if cur:
                self.fn_at[i] = cur
                self.fn_text[cur].append(l)
                continue
            if sec in ('prelude', 'spec'):
                if s.startswith('///'):
                    doc.append(s[3:].strip())
                    item = None if item and not l.startswith(' ') else item
                    continue
                if s.startswith('#[verifier::external_body]'):
                    ext = True
                if l.startswith('impl'):
                    h = re.sub(r'^impl(<[^{]*?>)?\s+', '', l.split('{')[0])
                    impl = re.sub(r'<.*', '', h.split(' for ')[-1].strip())
                elif l and not l[0].isspace() and l[0] not in '}#/':
                    impl = ''
                m = ITEM.match(l)
                if m and (not l.startswith('  ') or ext or m.group(1) == 'spec fn'):
                    n = m.group(2)
                    item = n
                    if ext:
                        self.item_ext.setdefault(n, set()).add(impl + '::' + n if impl and l.startswith(' ') else n)
                    self.item_kind.setdefault(n, set()).add('external_body' if ext else m.group(1))
                    self.item_doc.setdefault(n, []).extend(doc)
                    doc, ext = [], False
                elif m or s.startswith('impl'):
                    doc, ext = [], False
                if item:
                    self.item_at[i] = item
                    self.item_text.setdefault(item, []).append(l)
        for d in (self.fn_text, self.item_text):
            for k in d:
                d[k] = '\n'.join(d[k])

    def owner(self, diag):
        sp = diag.get('spans', [])
        sp = sorted(sp, key=lambda s: (s.get('label') or '').startswith('failed precondition'))
        for s in sp:
            n = s['line_start']
            if n in self.fn_at:
                return ('fn', self.fn_at[n])
        for s in sp:
            n = s['line_start']
            if n in self.item_at:
                return ('lemma', self.item_at[n])
        return (None, None)


def tags():
    t = {}
    for f in sorted(os.listdir(CONTRACTS)):
        if f.endswith('.vc'):
            for l in open(os.path.join(CONTRACTS, f)):
                m = re.match(r'//@ fn ([\w:]+)(\(.*?\))?\s+props=(\S+)', l)
                if m:
                    t[m.group(1)] = set(m.group(3).split(','))
    return t


WORD = re.compile(r'[A-Za-z_]\w*')


def shapes():
    """the shape of each function's loops when its contract was written (contracts/shapes.tsv)"""
    return {l.split('\t')[0]: l.split('\t')[1] for l in open(os.path.join(CONTRACTS, 'shapes.tsv')) if l.count('\t') == 2}


def closure(prop, text, mp, tg):
    """functions and lemmas the property rests on"""
    fns, items, todo = set(), set(), []
    for f, ps in tg.items():
        if prop in ps:
            todo.append(('fn', f))
    for n, d in text.item_doc.items():
        if 'proof fn' in text.item_kind.get(n, ()) and any(re.search(r'\b%s\b' % prop, x) for x in d):
            todo.append(('item', n))
    names = set(text.item_text)
    while todo:
        k, n = todo.pop()
        if k == 'fn':
            if n in fns:
                continue
            fns.add(n)
            for c in mp['calls'].get(n, []):
                if c in tg:
                    todo.append(('fn', c))
            src = text.fn_text.get(n, '')
        else:
            if n in items:
                continue
            items.add(n)
            src = text.item_text.get(n, '')
        for w in set(WORD.findall(src)) & names:
            todo.append(('item', w))
    return fns, items


def breakdown(j):
    r = {}
    for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            n = f['function'].split('::', 1)[1]
            a = r.setdefault(n, {'us': 0, 'ok': True, 'mode': f.get('mode:', f.get('mode'))})
            a['us'] += f.get('time-micros', 0)
            a['ok'] = a['ok'] and f.get('success', False)
    return r


def run(prop, tier, work, repo):
    t0 = time.time()
    tools = build_tools(work)
    tsv = resolve(tools['resolve'], repo, work)
    tg = tags()
    quarantine, notes = set(), {}
    reshaped = set()
    for attempt in range(14):
        rs, mp = extract(tools['extract'], repo, tsv, work, quarantine)
        text = Text(rs)
        cmd, ds, j, p = verus(rs)
        hard = [d for d in ds if not any(d['message'].startswith(u) or u in d['message'] for u in UNPROVED + LIMIT)]
        if not hard:
            break
        bad = set()
        for d in hard:
            k, n = text.owner(d)
            if k == 'fn' and n not in quarantine and n in mp['verified']:
                bad.add(n)
                notes[n] = 'the verifier cannot read the extracted text: ' + d['message']
        if not bad:
            return undecided(prop, tg, mp, cmd, 'the extracted text is rejected: ' + hard[0].get('rendered', hard[0]['message'])[:1500])
        quarantine |= bad
    else:
        return undecided(prop, tg, mp, cmd, 'the extracted text is rejected again and again')
    fns, items = closure(prop, text, mp, tg)
    kani = start_kani(harnesses(text, fns, items), work)
    br = breakdown(j)
    solver = sum(x['us'] for x in br.values()) / 1e6
    runs = [cmd]
    fails, limited = collect(ds, text)
    # an obligation counts as discharged when one of a few solver runs proves it
    tries = 0
    while (set(fails) | set(limited)) & (fns | items) and tries < 3:
        tries += 1
        extra = ['--rlimit', '60', '--smt-option', 'smt.random_seed=%d' % (7 * tries), '--smt-option', 'sat.random_seed=%d' % (3 * tries)]
        try:
            cmd2, ds2, j2, p2 = verus(rs, extra, 500)
        except (subprocess.TimeoutExpired, Broken):
            break
        runs.append(cmd2)
        f2, l2 = collect(ds2, text)
        solver += sum(x['us'] for x in breakdown(j2).values()) / 1e6
        old = set(fails)
        fails = {k: v for k, v in fails.items() if k in f2 or k in l2}
        limited = {k: v for k, v in limited.items() if (k in l2 or k in f2) and k not in fails}
        if set(fails) == old and not limited:
            break
    und = []
    # the loops were rewritten: the invariants no longer describe them, and a failure says nothing
    base = shapes()
    for f in sorted(fails):
        if f in mp['shapes'] and f in base and mp['shapes'][f][0] != base[f]:
            if f in fns:
                und.append('%s: the loops were rewritten (%s; the contract was written for %s), the obligation is not proved' % (f, mp['shapes'][f][0] or 'none', base[f] or 'none'))
            del fails[f]
            reshaped.add(f)
    for f, why in mp['undecided']:
        if f in fns:
            und.append('%s: %s' % (f, notes.get(f, why)))
    for f in mp['missing']:
        if f in fns:
            und.append('%s: no such function in the current tree' % f)
    for f in limited:
        if f in fns | items:
            und.append('%s: resource limit' % f)
    mine = sorted(f for f in fns if f in mp['verified'])
    lem = sorted(i for i in items if 'proof fn' in text.item_kind.get(i, ()))
    failed = [{'name': '%s: %s' % (k, v[0]), 'output': v[1]} for k, v in sorted(fails.items()) if k in fns | items]
    nbad = len([k for k in set(fails) | set(limited) | reshaped if k in mine or k in lem])
    obl = len(mine) + len(lem) + len([1 for u in und if 'resource limit' not in u])
    trusted = trusted_base(text, mp, fns, items)
    vac = vacuity(tools, repo, tsv, work, quarantine, mine)
    kr = end_kani(kani, work)
    obl += len(kr)
    kok = [h for h in kr if kr[h]['ok']]
    for h in sorted(set(kr) - set(kok)):
        und.append('float fact %s: Kani did not prove it: %s' % (h, kr[h]['out'][-300:].replace('\n', ' ')))
    solver += sum(x['s'] for x in kr.values())
    res = {
        'failed': failed, 'undecided': und,
        'obligations': obl, 'discharged': len(mine) + len(lem) - nbad + len(kok),
        'checker_cmd': 'pmx-extract REPO TYPES contracts ALL crate.rs crate.map; cargo kani --harness H (floats/); ' + ' '.join(['verus', 'crate.rs'] + cmd[2:]),
        'trusted_base': trusted,
        'functions': [{'function': f, 'status': 'proved' if f not in fails and f not in limited and f not in reshaped else 'not proved',
                       'solver_ms': round(br.get(f, {}).get('us', 0) / 1000, 1)} for f in mine]
        + [{'lemma': f, 'status': 'proved' if f not in fails and f not in limited else 'not proved'} for f in lem],
        'by_back_end': {'verus/z3': len(mine) + len(lem) - nbad, 'kani/cbmc (loop-free, all bit patterns)': len(kok)},
        'float_facts': {h: 'proved' if kr[h]['ok'] else 'not proved' for h in sorted(kr)},
        'solver_s': round(solver, 2),
        'vacuity': vac,
        'bounded_or_undecided': und,
        'extraction': 'an obligation is one function (its postconditions, panics, callee preconditions, loop invariants and frame) or one '
                      'lemma; text extracted on this run from the current tree; inlined helpers: %s; left out of the text '
                      '(see DESIGN.md, Extraction): %s' % (', '.join(mp['inlined']) or 'none', ', '.join(mp['opaque']) or 'nothing'),
        'assumptions': ASSUMPTIONS,
    }
    for n in vac.get('vacuous', []):
        res['undecided'].append('%s: its assumptions are contradictory (vacuous proof)' % n)
    return res


ASSUMPTIONS = [
    'sequentially consistent interleaving of the atomic steps (memory orderings are not modelled beyond their validity)',
    'the std, atomic_immut and mpsc functions behave as their contracts in contracts/00_prelude.rs say (listed in trusted_base)',
    'the extraction (tools/extract, tools/resolve) preserves the meaning of the functions; macros trackable::track! are the identity',
    'derived Clone makes equal values; derived PartialEq and Ord compare fields in declaration order (read from the current tree)',
    'f64 is modelled by its bits; arithmetic is uninterpreted except for facts proved by the Kani harnesses in floats/',
    'u64 additions wrap (release build); memory is unbounded; the verifier and its solver are correct',
]


def collect(ds, text):
    fails, limited = {}, {}
    for d in ds:
        k, n = text.owner(d)
        if n is None:
            continue
        if any(u in d['message'] for u in LIMIT):
            limited[n] = d['message']
            continue
        clause = ''
        for s in d.get('spans', []):
            if s.get('is_primary') and s.get('text'):
                clause = s['text'][0]['text'].strip()
        a = fails.setdefault(n, ['%s [%s]' % (d['message'], clause[:160]), ''])
        a[1] += d.get('rendered', d['message']) + '\n'
    return fails, limited


def undecided(prop, tg, mp, cmd, why):
    fs = sorted(f for f, ps in tg.items() if prop in ps)
    return {'failed': [], 'undecided': ['%s: %s' % (', '.join(fs) or 'all', why)], 'obligations': len(fs), 'discharged': 0,
            'checker_cmd': ' '.join(cmd), 'trusted_base': [], 'functions': [], 'by_back_end': {}, 'solver_s': 0,
            'vacuity': {}, 'bounded_or_undecided': fs, 'extraction': '', 'assumptions': ASSUMPTIONS}


def trusted_base(text, mp, fns, items):
    used = set()
    for f in fns:
        used |= set(WORD.findall(text.fn_text.get(f, '')))
    for i in items:
        used |= set(WORD.findall(text.item_text.get(i, '')))
    r = []
    for n in sorted(used & set(text.item_kind)):
        k = text.item_kind[n]
        if 'external_body' in k:
            q = text.item_ext[n]
            r.extend('assumed contract: ' + x for x in sorted(q) if '::' not in x or x.split('::')[0] in used)
        elif 'axiom fn' in k:
            r.append('axiom: %s (%s)' % (n, ' '.join(text.item_doc.get(n, []))[:160]))
    for f in mp['trusted']:
        if f in fns:
            r.append('trusted function of the crate: ' + f)
    return r


KANI = re.compile(r'kani: ([a-z_]+(?:, [a-z_]+)*)')


def harnesses(text, fns, items):
    """the Kani harnesses cited by the float facts the obligations use"""
    used = set()
    for f in fns:
        used |= set(WORD.findall(text.fn_text.get(f, '')))
    for i in items:
        used |= set(WORD.findall(text.item_text.get(i, '')))
    h = set()
    for n in used & set(text.item_kind):
        if text.item_kind[n] & {'external_body', 'axiom fn'}:
            for m in KANI.findall(' '.join(text.item_doc.get(n, [])) + ' ' + text.item_text.get(n, '')):
                h |= set(m.split(', '))
    return sorted(h)


def start_kani(names, work):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    for k in ('CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN'):
        env.pop(k, None)
    ps = []
    for h in names:
        cmd = ['timeout', '400', 'cargo', 'kani', '--harness', h, '--exact', '--target-dir', os.path.join(work, 'kani-' + h)]
        if h in ('sub', 'addswap'):
            cmd.append('--no-overflow-checks')  # inf - inf is meant to be reached: not-a-number is no error here
        lf = open(os.path.join(work, 'kani-%s.out' % h), 'w')
        ps.append((h, subprocess.Popen(cmd, cwd=os.path.join(VERIF, 'floats'), env=env, stdout=lf, stderr=subprocess.STDOUT), lf))
    return ps


def end_kani(ps, work):
    r = {}
    for h, p, lf in ps:
        p.wait()
        lf.close()
        o = open(os.path.join(work, 'kani-%s.out' % h), errors='replace').read()
        m = re.search(r'Verification Time: ([\d.]+)s', o)
        r[h] = {'ok': 'VERIFICATION:- SUCCESSFUL' in o, 's': float(m.group(1)) if m else 0, 'out': o[-1500:]}
    return r


def vacuity(tools, repo, tsv, work, quarantine, mine):
    """`assert(false)` planted at the entry of every function: each must be refuted."""
    r = {}
    try:
        rs, mp = extract(tools['extract'], repo, tsv, work, quarantine, 'vacuity', {'PMX_VACUITY': '1'})
        text = Text(rs)
        cmd, ds, j, p = verus(rs)
        hit = set()
        for d in ds:
            k, n = text.owner(d)
            if n:
                hit.add(n)
        left = [f for f in mine if f not in hit]
        r['planted_false_assertions'] = len(mine)
        r['refuted_as_they_must_be'] = len(mine) - len(left)
        r['vacuous'] = left
    except (Broken, subprocess.TimeoutExpired) as e:
        r['error'] = str(e)[:300]
    return r


if __name__ == '__main__':
    import sys, tempfile
    w = tempfile.mkdtemp(prefix='pmx-ded-')
    try:
        d = run(sys.argv[1], 'quick', w, os.environ.get('PMX_REPO', '/repo'))
        d['functions'] = d['functions'][:400]
        print(json.dumps(d, indent=1, ensure_ascii=False))
    finally:
        shutil.rmtree(w, ignore_errors=True)
