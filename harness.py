"""Builds and runs the bounded stand-ins (real code against an independent oracle)."""
import glob, hashlib, json, os, subprocess, sys

def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout'

def repo_hash(repo, d):
    h = hashlib.sha256()
    fs = glob.glob(repo + '/packages/*/src/**/*.rs', recursive=True) + glob.glob(repo + '/packages/*/Cargo.toml')
    fs += glob.glob(d + '/src/**/*.rs', recursive=True) + glob.glob(d + '/../core/src/*.rs') + [d + '/Cargo.toml']
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

def build(V, repo, crate):
    d = os.path.join(V, 'harness', crate)
    tgt = os.path.join(d, 'target')
    stamp = os.path.join(tgt, 'vstamp')
    h = repo_hash(repo, d)
    env = dict(os.environ, CARGO_TARGET_DIR=tgt)
    if os.path.exists(tgt) and (not os.path.exists(stamp) or open(stamp).read() != h):
        # never trust file times: the crates of /repo are rebuilt whenever their text differs
        for p in ('stylist-core', 'stylist-macros', 'stylist', 'h' + crate):
            sh(['cargo', 'clean', '--offline', '-p', p], 120, d, env)
    rc, o, e = sh(['cargo', 'build', '--offline', '--quiet'], 800, d, env)
    if rc == 0:
        open(stamp, 'w').write(h)
        return os.path.join(tgt, 'debug', 'h' + crate), ''
    return None, e[-3000:]

def run_harness(V, repo, specs, seed, secs, scratch, tier):
    out = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'violations': [], 'runs': []}
    for crate, arg in specs:
        b, err = build(V, repo, crate)
        if b is None:
            out['runs'].append(f'{crate} {arg}: does not build: {err[-300:]}')
            continue
        env = dict(os.environ, HARNESS_SCRATCH=scratch, VERIF_TIER=tier, VERIF_REPO=repo, VERIF_DIR=V, RUST_BACKTRACE='0', RUST_MIN_STACK=str(256 << 20))
        rc, o, e = sh([b, arg, str(seed), str(secs)], secs * 4 + 300, scratch, env)
        got = None
        for l in o.split("\n"):
            if l.startswith('HARNESS '): got = json.loads(l[8:])
        if got is None:
            # the process died: the real code aborted (e.g. stack overflow) or the harness did
            out['runs'].append(f'{crate} {arg}: exit {rc}, no report: {e[-300:]}')
            last = os.path.join(scratch, 'last_case')
            what = open(last, errors='replace').read()[:2000] if os.path.exists(last) else f'the run {arg} {seed}'
            if rc in (-6, -11, -4, 134, 139, 132):
                out['violations'].append({'id': 'abort', 'input': what, 'expected': 'the process survives', 'actual': f'killed by signal ({rc}): {e[-300:]}'})
            elif rc == 124 and os.path.exists(last):
                out['violations'].append({'id': 'hang', 'input': what, 'expected': 'an answer', 'actual': 'no answer within the time limit'})
            continue
        out['evaluations'] += got['evaluations']; out['distinct_nontrivial'] += got['distinct_nontrivial']
        out['samples'] += got['samples'][:6]; out['violations'] += got['violations']
        out['runs'].append(f"{crate} {arg}: {got['evaluations']} evaluations, {got['distinct_nontrivial']} distinct, {len(got['violations'])} violations")
    return out
