#!/usr/bin/env python3
"""Decide one property: check.py ID   (tier from VERIF_TIER, seed from VERIF_SEED)

1. compiles the harness crate together with /repo's current sources into one LLVM
   module (rustc -C lto=fat) and, in parallel, into a native replay binary;
2. runs the symbolic executor (engine/) on every harness entry of the property;
3. replays sampled explored paths natively and compares every observation;
4. replays every counterexample natively and reports only what reproduces.
exit 0: held within the bounds; 1: VIOLATION; 2: no answer (error)."""
import fcntl, resource, sys, os, json, subprocess, time, hashlib, shutil, glob, tempfile, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS
REPO = '/repo'
BUILD = os.environ.get('VERIF_BUILD', V + '/build')
DEV = os.environ.get('VERIF_DEV') == '1'
SYMFLAGS = '-C target-cpu=x86-64 -C save-temps -C no-vectorize-loops -C no-vectorize-slp'
NPROC = int(os.environ.get('VERIF_PROCS', '8'))

def log(*a): print(*a, flush=True)
def die(msg): log('ERROR (no answer): ' + msg); sys.exit(2)

def env(flags=None):
    e = dict(os.environ); e['RUSTUP_TOOLCHAIN'] = '1.70'; e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'): e.pop(k, None)
    if flags: e['RUSTFLAGS'] = flags
    return e

def hashtree(paths):
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if '/target' not in d)
        for f in fs:
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def build_engine():
    key = hashtree([V + '/engine']); out = f'{BUILD}/symx-{key}'
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True); tmp = out + f'.tmp{os.getpid()}'
        r = subprocess.run(['bash', V + '/engine/build.sh', tmp], capture_output=True, text=True)
        if r.returncode: die('engine build failed:\n' + r.stderr[-3000:])
        os.rename(tmp, out)
    return out

def cargo_cmd(kind, feats):
    d = f'{V}/harness/{kind}'
    c = ['cargo', 'build', '--release', '--features', ','.join(feats), '--target-dir', f'{BUILD}/{kind}']
    if kind == 'sym': c.append('--lib')
    return c, d, env(SYMFLAGS if kind == 'sym' else None)

def stale(kind):
    # the repository's crate and the harness are always rebuilt from the current sources
    for pat in ('ruler-*', 'harness-*'):
        for f in glob.glob(f'{BUILD}/{kind}/release/.fingerprint/{pat}'): shutil.rmtree(f, ignore_errors=True)
    for f in glob.glob(f'{BUILD}/{kind}/release/deps/harness-*'): os.unlink(f)

def build(prop, thorough):
    feats = [prop.lower()] + (['thorough'] if thorough else [])
    if DEV:
        key = hashtree([REPO + '/src', REPO + '/Cargo.toml', V + '/harness']); bc = f'{BUILD}/cache/{"-".join(feats)}-{key}.bc'; rp = bc[:-3] + '.replay'
        if os.path.exists(bc) and os.path.exists(rp): return bc, rp
    procs = []
    for kind in ('sym', 'nat'):
        stale(kind); c, d, e = cargo_cmd(kind, feats); os.makedirs(f'{BUILD}/{kind}', exist_ok=True)
        lf = open(f'{BUILD}/{kind}/build.log', 'w'); procs.append((kind, subprocess.Popen(c, cwd=d, env=e, stdout=lf, stderr=lf)))
    for kind, p in procs:
        if p.wait():
            log(open(f'{BUILD}/{kind}/build.log').read()[-4000:]); die(f'{kind} build failed')
    cand = [f for f in glob.glob(f'{BUILD}/sym/release/deps/harness-*.harness.*-cgu.0.rcgu.bc')]
    if not cand: die('no LLVM module was produced')
    bc0 = max(cand, key=os.path.getsize); rp0 = f'{BUILD}/nat/release/replay'
    if DEV:
        os.makedirs(f'{BUILD}/cache', exist_ok=True)
        for f in glob.glob(f'{BUILD}/cache/{"-".join(feats)}-*'): os.unlink(f)
        shutil.copy(bc0, bc); shutil.copy(rp0, rp); return bc, rp
    return bc0, rp0

def limits(): resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

def replay(rp, entry, model, timeout=60):
    d = tempfile.mkdtemp(prefix='symreplay')
    try:
        with open(d + '/vals', 'w') as f:
            for k, v in model.items(): f.write(f'{k} {v}\n')
        os.mkdir(d + '/cwd')
        try: r = subprocess.run([rp, entry, d + '/vals'], cwd=d + '/cwd', capture_output=True, timeout=timeout, env=env(), preexec_fn=limits)
        except subprocess.TimeoutExpired: return 124, [], 'replay timed out'
        out = r.stdout.decode('utf8', 'replace') + r.stderr.decode('utf8', 'replace')[-2000:]
        obs = [[int(x) for x in l.split()[1:3]] for l in out.splitlines() if l.startswith('OBS ')]
        return r.returncode, obs, out
    finally: shutil.rmtree(d, ignore_errors=True)

def known_findings():
    p = V + '/known-findings.jsonl'; out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l: out.append(json.loads(l))
    return out

def main():
    os.makedirs(BUILD, exist_ok=True); lock = open(BUILD + '/.lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)  # one check at a time per build folder
    if '--setup' in sys.argv: build_engine(); build('p01', False); log('setup done'); return
    prop = sys.argv[1]; cfg = PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    if '--quick' in sys.argv: tier = 'quick'
    thorough = tier == 'thorough'; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); os.makedirs(V + '/evidence', exist_ok=True)
    symx = build_engine(); bc, rp = build(prop, thorough); tb = time.time() - t0
    log(f'{prop} [{tier}] built from {REPO} in {tb:.1f}s')
    tot = {}; samples = []; fns = set(); lines = {}; viols = []; incon = []; validated = 0; bad_replay = []; ents = []; qsample = []
    only = [a[8:] for a in sys.argv if a.startswith('--entry=')]
    for e in cfg['entries']:
        name = e['name']
        if only and name not in only: continue
        tl = e.get('time_t', 3000) if thorough else e.get('time', 400)
        out = f'{BUILD}/{prop}-{name}.jsonl'
        args = [symx, bc, f'--entry={name}', f'--out={out}', f'--procs={e.get("procs", NPROC)}', f'--time={tl}', f'--seed={seed}', f'--srcroot={REPO}/src', f'--maxsteps={e.get("steps", 400000000)}']
        ee = env(); ee['LD_LIBRARY_PATH'] = ''
        p = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=ee, start_new_session=True)
        try: _, err = p.communicate(timeout=tl + 200)
        except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.communicate(); incon.append(f'{name}: time limit'); continue
        finally:
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
        end = None; paths = []; ev = []
        for l in open(out):
            try: j = json.loads(l)
            except ValueError: incon.append(f'{name}: unreadable engine record'); continue
            t = j['t']
            if t == 'end': end = j
            elif t == 'path': paths.append(j)
            elif t == 'viol': ev.append(j)
            elif t == 'inconclusive': incon.append(f'{name}: {j["why"][:600]}')
            elif t == 'cov':
                fns.update(j['fns'])
                for f, ls in j['lines'].items(): lines.setdefault(f, set()).update(ls)
        if p.returncode or end is None: incon.append(f'{name}: engine exit {p.returncode} {err[-500:]}'); continue
        for k, v in end.items():
            if isinstance(v, (int, float)) and k != 't': tot[k] = max(tot.get(k, 0), v) if k in ('maxpc', 'slowest_us', 'vars') else tot.get(k, 0) + v
        ents.append({'entry': name, 'bound': e.get('bound_t' if thorough and 'bound_t' in e else 'bound', ''), **{k: end[k] for k in ('paths', 'infeasible', 'forks', 'insts', 'queries', 'qsat', 'qunsat', 'asserts', 'assertq', 'assertc', 'solver_us', 'wall_s', 'maxpc', 'panics')}})
        log(f'  {name}: {end["paths"]} paths, {end["insts"]} instructions, {end["asserts"]} assertions ({end["assertq"]} by solver query), {end["queries"]} queries, solver {end["solver_us"]/1e6:.1f}s, wall {end["wall_s"]:.1f}s')
        # vacuity: the assertions must have been reached, and every named region of the harness
        if not ev:
            if end['paths'] == 0 or (end['asserts'] == 0): incon.append(f'{name}: vacuous (no path reached an assertion)')
            for k in e.get('reach', []):
                if end['reach'][k] == 0: incon.append(f'{name}: vacuous (region {k} of the harness never reached)')
        # paths against the real code
        for p in paths[:60]:
            if p['outcome'] != 'ok': continue
            rc, obs, o = replay(rp, name, p['model'])
            want = [[x[0], int(x[1])] for x in p['obs']]
            if rc == 0 and obs == want: validated += 1
            elif rc in (10, 11) : ev.append({'kind': 'replay', 'msg': 'native run of an explored path fails: ' + o.strip().splitlines()[-1][:300] if o.strip() else '?', 'model': p['model'], 'bt': ''})
            else: bad_replay.append(f'{name}: explored path and native run disagree (exit {rc}) model={p["model"]} engine={want[:12]} native={obs[:12]} {o[-300:]}')
            if len(samples) < 6: samples.append({'entry': name, 'inputs': p['model'], 'observed': p['obs'][:16], 'path_constraints': p['pc']})
        for x in ev: x['entry'] = name; viols.append(x)
    kf = [k for k in known_findings() if k['property'] == prop and k.get('status') == 'known']
    real = []; seen_kf = set(); unrepro = []
    for i, x in enumerate(viols):
        if len(real) >= 3: break
        rc, obs, o = replay(rp, x['entry'], x['model'])
        if rc in (10, 11, 124) or rc < 0 or rc == 134:
            m = next((l for l in o.splitlines() if l.startswith('REPLAY-VIOLATION') or l.startswith('REPLAY-PANIC')), f'exit {rc}')
            k = next((k for k in kf if k['entry'] == x['entry'] and re.search(k['match'], m)), None)
            if k: seen_kf.add(k['what']); continue
            f = f'{V}/evidence/{prop}.replay{len(real)}.json'
            json.dump({'property': prop, 'entry': x['entry'], 'tier': tier, 'message': x['msg'], 'native': m, 'inputs': x['model'], 'where': x.get('bt', ''), 'rerun': f'build harness/nat with --features {prop.lower()}; replay {x["entry"]} FILE, where FILE has one "name value" line per input'}, open(f, 'w'), indent=1)
            real.append((f, x, m))
        else: unrepro.append(f'{x["entry"]}: {x["msg"]} {x["model"]} native exit {rc}: {o[-200:]}')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'violations': len(real), 'wall_s': round(time.time() - t0, 2),
          'assumptions': cfg.get('assumptions', []) + ['LLVM IR semantics as implemented by the executor (checked on every run by replaying sampled paths natively)', 'constant hash functions replace Fx/ahash in the encoded module (map contents unaffected; iteration order is one fixed order)'],
          'coverage': {'states': int(tot.get('paths', 0)), 'transitions': int(tot.get('forks', 0)), 'traces_validated_against_impl': validated, 'samples': samples,
                       'bounds': ents, 'exhaustive': not incon and not viols,
                       'instructions_executed_symbolically': int(tot.get('insts', 0)), 'infeasible_paths': int(tot.get('infeasible', 0)), 'queries': int(tot.get('queries', 0)), 'queries_sat': int(tot.get('qsat', 0)), 'queries_unsat': int(tot.get('qunsat', 0)), 'queries_unknown': int(tot.get('qunknown', 0)), 'cache_hits': int(tot.get('cachehit', 0)),
                       'assertions': int(tot.get('asserts', 0)), 'assertions_by_solver_query': int(tot.get('assertq', 0)), 'assertions_by_constant_folding': int(tot.get('assertc', 0)), 'solver_s': round(tot.get('solver_us', 0) / 1e6, 3), 'slowest_query_s': round(tot.get('slowest_us', 0) / 1e6, 3), 'max_path_constraints': int(tot.get('maxpc', 0)), 'input_variables_max': int(tot.get('vars', 0)),
                       'functions_encoded': sorted(f.replace('$LT$', '<').replace('$GT$', '>').replace('$u20$', ' ').replace('..', '::').replace('$u7b$', '{').replace('$u7d$', '}').replace('$C$', ',').replace('$RF$', '&') for f in fns), 'lines_encoded': {f: len(l) for f, l in sorted(lines.items())}, 'build_s': round(tb, 1), 'inconclusive': incon[:10] + bad_replay[:5] + unrepro[:5]}}
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for w in sorted(seen_kf): log(f'KNOWN-FINDING: property={prop} {w}')
    if real:
        for f, x, m in real: log(f'  counterexample: {x["msg"]}\n    inputs {x["model"]}\n    native: {m}\n    at {x.get("bt","")[:400]}')
        log(f'VIOLATION property={prop} replay={real[0][0]}'); sys.exit(1)
    if unrepro or bad_replay or incon:
        for w in (unrepro + bad_replay + incon)[:8]: log('  inconclusive: ' + w)
        die('inconclusive')
    log(f'{prop}: holds within the stated bounds ({ev["coverage"]["states"]} paths, {validated} replayed natively)'); sys.exit(0)
if __name__ == '__main__': main()
