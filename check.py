#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo by contract-based deductive verification.

1. extract: the functions named in contracts/<unit>.ov are read from /repo's working tree and
   translated mechanically into the Verus dialect with their contracts attached (extract/).
2. verify: Verus discharges every obligation of every function (caller against callee contract).
3. bounded stand-in: the harness runs the real code against an independent oracle; it supplies
   failing inputs for failed obligations and covers (labelled bounded) what the verifier
   cannot reach.
Exit 0 = held on everything explored, 1 = VIOLATION line printed.
"""
import json, os, re, subprocess, sys, time, hashlib, glob, shutil, tempfile
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
from props import PROPS
from harness import run_harness

T0 = time.time()

def sh(cmd, timeout=600, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'

def build_extract():
    d = os.path.join(V, 'extract')
    b = os.path.join(d, 'target/release/extract')
    h = hashlib.sha256()
    for f in sorted(glob.glob(d + '/src/*.rs')) + [d + '/Cargo.toml', d + '/Cargo.lock']:
        h.update(open(f, 'rb').read())
    stamp = os.path.join(d, 'target/stamp')
    if os.path.exists(b) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return b
    rc, o, e = sh(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=d, timeout=800)
    if rc != 0:
        # a stale-mtime artefact is the only way this fails on committed sources: rebuild from scratch once
        shutil.rmtree(os.path.join(d, 'target'), ignore_errors=True)
        rc, o, e = sh(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=d, timeout=800)
        if rc != 0:
            sys.stderr.write(e); return None
    open(stamp, 'w').write(h.hexdigest())
    return b

def fn_name_in_breakdown(n):
    # "render::StyleContext::is_open" -> "StyleContext::is_open"
    return n.split('::', 1)[1] if '::' in n else n

class Unit:
    """Result of extracting and verifying one contract unit."""
    def __init__(self, name):
        self.name = name
        self.failed = {}       # function -> [diagnostic text]
        self.undecided = {}    # function -> reason   (degraded to the bounded stand-in)
        self.ok = False        # the verifier ran to completion
        self.reason = ''
        self.fns, self.proved, self.lemmas, self.trusted = [], [], [], []
        self.solver_ms = 0
        self.stderr = ''
        self.obligations = self.discharged = 0
        self.inlined = []
        self.vacuous = []

def assemble(u, body, path):
    vl = open(os.path.join(V, 'contracts/vl.rs')).read()
    head = '#![allow(unused, non_snake_case)]\nuse vstd::prelude::*;\nverus! {\n' + vl
    txt = head + body + '\n} fn main(){}\n'
    open(path, 'w').write(txt)
    return head.count('\n'), txt

def fn_at(lines, ln):
    for i in range(min(ln, len(lines)) - 1, -1, -1):
        m = re.search(r'\bfn\s+(\w+)', lines[i])
        if m and not lines[i].lstrip().startswith('//'):
            return m.group(1)
    return None

def diagnostics(stderr, src, off, fns, txt):
    """[(kind, message, function-or-None, block text)]"""
    out = []
    lines = txt.split('\n')
    for b in re.split(r'\n(?=error|note: |warning)', '\n' + stderr):
        b = b.strip('\n')
        m = re.match(r'error(\[E\d+\])?: (.*)', b)
        if not m or m.group(2).startswith('aborting due to'):
            continue
        lm = re.search(r'-->\s+\S+?:(\d+):\d+', b)
        fn = None
        if lm:
            ln = int(lm.group(1))
            for f in fns:
                if f['line'] + off <= ln < f['line'] + off + f['lines']:
                    fn = f['name']
            if fn is None:
                fn = fn_at(lines, ln)
        out.append((m.group(1) or '', m.group(2), fn, b))
    return out

COMPILE_HINTS = ('cannot find', 'mismatched types', 'no method', 'not supported', 'unsupported', 'The verifier does not yet support', 'expected', 'unresolved', 'borrow')
FAIL_MSGS = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'assertion might fail', 'invariant not satisfied', 'loop invariant', 'possible arithmetic',
             'decreases not satisfied', 'unreachable', 'possible division', 'recommendation not met', 'could not prove termination', 'constructed value may fail', 'unable to prove', 'assert_by', 'possible')

def verify_unit(name, tier, scratch):
    u = Unit(name)
    ex = build_extract()
    if ex is None:
        u.reason = 'extractor does not build'; return u
    ov = os.path.join(V, 'contracts', name + '.ov')
    trust, src, off, txt, info = [], '', 0, '', {}
    rlimit = '40' if tier == 'thorough' else '20'
    for attempt in range(12):
        body, js = os.path.join(scratch, name + '.body'), os.path.join(scratch, name + '.json')
        for p in (body, js):
            if os.path.exists(p): os.remove(p)
        rc, o, e = sh([ex, REPO, ov, body, js] + (['--trust=' + ','.join(trust)] if trust else []), timeout=120)
        if rc not in (0, 3) or not os.path.exists(js):
            u.reason = 'extraction failed: ' + (e.strip()[-600:] or str(rc)); return u
        info = json.load(open(js))
        for f, why in info['degraded']:
            u.undecided.setdefault(f, why)
        if info['errors']:
            u.reason = 'extraction: ' + '; '.join(info['errors'])[:800]; return u
        src = os.path.join(scratch, name + '.rs')
        off, txt = assemble(u, open(body).read(), src)
        rc, o, e = sh(['verus', src, '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--multiple-errors', '4', '--rlimit', rlimit, '--no-report-long-running'], timeout=700, cwd=scratch)
        u.stderr = e
        try: j = json.loads(o[o.index('{'):])
        except Exception:
            j = None
        ds = diagnostics(e, src, off, info['functions'], txt)
        vr = (j or {}).get('verification-results', {})
        if j is None or vr.get('encountered-vir-error') or 'verified' not in vr or (vr.get('errors', 0) == 0 and ds):
            # the verifier could not accept the text: hand the functions it names to the bounded stand-in
            bad = [d for d in ds if d[2] and any(f['name'] == d[2] and not f['trusted'] for f in info['functions'])]
            names = sorted({d[2] for d in bad} - set(trust))
            if names and rc != 124:
                for d in bad: u.undecided[d[2]] = 'verifier does not accept the text: ' + d[1][:200]
                trust += names
                continue
            u.reason = ('verifier timed out' if rc == 124 else 'verifier did not accept the unit: ' + '; '.join(d[1][:160] for d in ds[:3])); return u
        break
    else:
        u.reason = 'verifier did not accept the unit'; return u
    u.ok = True
    u.inlined = info['inlined']
    u.fns = [f for f in info['functions']]
    bd = []
    for m in j['times-ms']['smt'].get('smt-run-module-times', []):
        bd += m.get('function-breakdown', [])
    u.solver_ms = j['times-ms']['smt'].get('total', 0)
    bad_names = set()
    for kind, msg, fn, block in ds:
        if 'rlimit' in msg.lower() or 'resource limit' in block.lower():
            u.undecided[fn or '?'] = 'solver resource limit'
        else:
            u.failed.setdefault(fn or '?', []).append(block)
    # an obligation the solver gave up on is undecided, not violated
    for f in list(u.undecided):
        u.failed.pop(f, None)
    cnames = {f['name'] for f in u.fns if not f['trusted']}
    for x in bd:
        n = fn_name_in_breakdown(x['function'])
        if x.get('mode:') == 'spec': continue
        u.obligations += 1
        if x['success']: u.discharged += 1
        elif n not in u.failed and n.split('::')[-1] not in u.failed and n not in u.undecided and n.split('::')[-1] not in u.undecided:
            u.undecided[n] = 'no diagnostic'
        if n in cnames and x['success']: u.proved.append(n)
        elif x.get('mode:') == 'proof' and x['success']: u.lemmas.append(n)
    u.proved = sorted(set(u.proved))
    # mechanical scan for everything taken on trust
    code = re.sub(r'//[^\n]*', '', txt)
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?((?:broadcast\s+)?(?:proof\s+|exec\s+|spec\s+)?(?:fn|struct|enum|type)\s+\w+)', code):
        u.trusted.append('external_body ' + m.group(1))
    for m in re.finditer(r'assume_specification(?:<[^\[]*>)?\s*\[([^\]]*)\]', code):
        u.trusted.append('assume_specification ' + m.group(1).strip())
    for w in ('assume(', 'admit('):
        if re.search(r'\b' + re.escape(w), code): u.trusted.append('USES ' + w)
    # vacuity: an assertion of `false` behind every precondition must fail
    rc, o, e = sh([ex, REPO, ov, body + 'v', js + 'v', '--vacuity'] + (['--trust=' + ','.join(trust)] if trust else []), timeout=120)
    if os.path.exists(js + 'v'):
        inf = json.load(open(js + 'v'))
        sv = os.path.join(scratch, name + '_vac.rs')
        offv, txtv = assemble(u, open(body + 'v').read(), sv)
        rc, o, e = sh(['verus', sv, '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--multiple-errors', '0', '--no-report-long-running'], timeout=700, cwd=scratch)
        try:
            jv = json.loads(o[o.index('{'):])
            ok = set(); bad = set()
            for m in jv['times-ms']['smt'].get('smt-run-module-times', []):
                for x in m.get('function-breakdown', []):
                    (ok if x['success'] else bad).add(fn_name_in_breakdown(x['function']))
            u.vacuous = sorted(f for f in set(u.proved) & ok - bad)
            u.vac_checked = len(set(u.proved) & bad)
        except Exception as ex2:
            u.vac_checked = 0
    return u

def clause_match(fn, blocks, pats):
    """A pattern `f#word` only claims the postconditions of f that mention `word` (other failures in f count for everyone)."""
    out = []
    for b in blocks:
        for p in pats:
            f, _, w = p.partition('#')
            if not match(fn, [f]): continue
            lines = b.split('\n')
            post = [lines[i - 1] for i, l in enumerate(lines) if 'failed this postcondition' in l and i] + [l for l in lines if 'failed this postcondition' in l]
            if not w or not post or w in ' '.join(post) : out.append(b); break
    return out

def match(fn, pats):
    short = fn
    pats = [p.partition('#')[0] for p in pats]
    return any(p == '*' or short == p or short.endswith('::' + p) or (p.endswith('*') and short.startswith(p[:-1])) for p in pats)

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    known = []
    kf = os.path.join(V, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: known.append((m.group(2), m.group(3)))
    try:
        units = []
        for un, pats, excl in P.get('units', []):
            u = verify_unit(un, tier, scratch)
            u.pats, u.excl = pats, excl
            units.append(u)
        failed, undecided = {}, {}
        for u in units:
            rel = lambda f: match(f, u.pats) and not match(f, u.excl)
            if not u.ok:
                undecided[u.name + ' (whole unit)'] = u.reason
                continue
            for f, b in u.failed.items():
                if any(x['name'] == f for x in u.fns):
                    if rel(f) and clause_match(f, b, u.pats): failed[(u.name, f)] = clause_match(f, b, u.pats)
                else:
                    undecided[u.name + '::' + f] = 'lemma or helper no longer discharged: ' + b[0].split('\n')[0]
            for f, why in u.undecided.items():
                if rel(f) or not any(x['name'] == f for x in u.fns): undecided[u.name + '::' + f] = why
        # bounded stand-in / failing-input search
        secs = P.get('secs', {}).get(tier, 60 if tier == 'thorough' else 8)
        if failed or undecided: secs = max(secs, 3 * secs if tier == 'quick' else secs)
        H = run_harness(V, REPO, P.get('harness', []), seed, secs, scratch, tier)
        viols, known_hit = [], []
        for v in H['violations']:
            k = [x for x in known if x[0] == v['id']]
            if k: known_hit.append(k[0])
            else: viols.append(v)
        for k in sorted(set(known_hit)):
            print(f'KNOWN-FINDING: property={pid} {k[1]}')
        nviol = 1 if (failed or viols) else 0
        replay = os.path.join(V, 'evidence', f'{pid}.replay.json')
        if nviol:
            json.dump({'property': pid,
                       'failed_obligations': [{'unit': a, 'function': b, 'verifier_output': c} for (a, b), c in failed.items()],
                       'failing_inputs': viols,
                       'rerun': f'VERIF_SEED={seed} VERIF_TIER={tier} python3 {V}/check.py {pid}'}, open(replay, 'w'), indent=1)
        elif os.path.exists(replay): os.remove(replay)
        obligations = sum(u.obligations for u in units)
        discharged = sum(u.discharged for u in units)
        proved = sorted({f'{u.name}::{f}' for u in units for f in u.proved if match(f, u.pats) and not match(f, u.excl)})
        level = P.get('level', 'proof')
        if not units: pass
        trusted = sorted({t for u in units for t in u.trusted})
        cov = {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': 'extract /repo contracts/<unit>.ov | verus (Z3), units: ' + ', '.join(u.name for u in units),
            'trusted_base': trusted,
            'functions_under_contract': [f"{x['name']} ({x['source']}:{x.get('src_line', '?')})" for u in units for x in u.fns if match(x['name'], u.pats) and not match(x['name'], u.excl)],
            'functions_proved': proved,
            'lemmas_proved': sorted({l for u in units for l in u.lemmas}).__len__(),
            'back_end': 'Verus 0.2026.09.13 / Z3',
            'solver_ms': sum(u.solver_ms for u in units),
            'helpers_inlined': sorted({i for u in units for i in u.inlined}),
            'vacuity': {'functions_whose_precondition_is_reachable': sum(getattr(u, 'vac_checked', 0) for u in units), 'vacuous': [f for u in units for f in u.vacuous]},
            'not_proved_bounded_only': undecided,
            'failed_obligations': [f'{a}::{b}' for a, b in failed],
            'bounded_standin': {'what': P.get('bounded', ''), 'note': 'bounded: never counted as proved', **{k: H[k] for k in ('evaluations', 'distinct_nontrivial', 'samples', 'runs')}},
            'evaluations': H['evaluations'], 'distinct_nontrivial': H['distinct_nontrivial'], 'samples': H['samples'] or ['none'],
            'rule': P.get('rule', ''),
            'known_findings': [k[1] for k in sorted(set(known_hit))],
        }
        if level != 'proof': cov['explanation'] = P.get('explanation', '')
        evidence = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
                    'assumptions': P.get('assumptions', []) + (['this run: bounded stand-in only for: ' + ', '.join(sorted(undecided))] if undecided else []),
                    'wall_s': round(time.time() - T0, 2), 'violations': nviol}
        json.dump(evidence, open(os.path.join(V, 'evidence', f'{pid}.json'), 'w'), indent=1, ensure_ascii=False)
        for f, why in sorted(undecided.items()):
            print(f'UNDECIDED (bounded stand-in only): {f}: {why}')
        for r in H['runs']: print('bounded:', r)
        print(f'{pid}: {discharged}/{obligations} obligations discharged, {len(proved)} functions proved, bounded evaluations {H["evaluations"]}, {time.time()-T0:.1f} s')
        if nviol:
            for (a, b) in failed: print(f'failed obligation: {a}::{b}: {failed[(a, b)][0].splitlines()[0]}')
            for v in viols[:1]: print('failing input:', v['input'][:500]); print(' expected:', v['expected'][:500]); print(' actual:  ', v['actual'][:500])
            print(f'VIOLATION property={pid} replay={replay}' + ('' if viols else ' no-failing-input-found'))
            return 1
        return 0
    finally:
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(scratch, ignore_errors=True)

sys.exit(main())
