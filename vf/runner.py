"""vf.runner PROP [--tier quick|thorough]   decide one property (see DESIGN.md)."""
import argparse, importlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vf import build as B
PY = '/opt/veriftools/pyvenv/bin/python'
if not os.path.exists(PY):
    PY = shutil.which('python3-vt') or sys.executable


def asan_env(e):
    lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so'], text=True).strip()
    ub = subprocess.check_output(['gcc', '-print-file-name=libubsan.so'], text=True).strip()
    stdcxx = subprocess.check_output(['gcc', '-print-file-name=libstdc++.so.6'], text=True).strip()
    e['LD_PRELOAD'] = lib + ' ' + ub + ' ' + stdcxx
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:max_allocation_size_mb=2048'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'


def worker_env(out, variant, meta):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('PYTHON', 'LD_PRELOAD', 'VIRTUAL_ENV')):
            e.pop(k)
    e['PYTHONPATH'] = VERIF + ':' + os.path.join(out, 'site')
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e['PYTHONMALLOC'] = 'malloc' if variant == 'asan' else 'pymalloc'
    e['OMP_NUM_THREADS'] = e['OPENBLAS_NUM_THREADS'] = '1'
    e['VF_OUT'] = out
    e['HOME'] = meta['scratch']
    e['TMPDIR'] = meta['scratch']
    e['MALLOC_PERTURB_'] = '165'
    e['LANG'] = 'C.UTF-8'
    if variant == 'asan':
        asan_env(e)
    e['LD_PRELOAD'] = (e.get('LD_PRELOAD', '') + ' ' + os.path.join(out, 'libvfsched.so')).strip()
    return e


def read_json(p):
    try:
        with open(p) as f:
            return json.load(f)
    except Exception:
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop.upper()
    conf = json.load(open(os.path.join(VERIF, 'vf', 'conf.json')))[prop]
    variant = conf.get('variant', 'rel')
    comps = conf.get('comps', ['core', 'filters', 'pyext', 'harness'])
    out = B.build(variant, comps, True)
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix='vf_' + prop + '_')
    meta = dict(scratch=scratch)
    try:
        rc = drive(a, prop, conf, variant, out, meta, t0, tb)
    finally:
        if not a.keep and scratch.startswith(tempfile.gettempdir()):
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def replay_once(prop, path, env, timeout):
    p = subprocess.Popen([PY, '-m', 'vf.worker', prop, '--replay', path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=VERIF,
                         start_new_session=True, errors='replace')
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return 'timeout', o


def drive(a, prop, conf, variant, out, meta, t0, tb):
    env = worker_env(out, variant, meta)
    if a.replay:
        rc, o = replay_once(prop, os.path.abspath(a.replay), env, 300)
        print(o[-30000:])
        if rc != 0:
            print(f'VIOLATION property={prop} replay={a.replay}')
            return 1
        print('replay: property held')
        return 0
    nw = a.workers or conf.get('workers', {}).get(a.tier) or min(8, os.cpu_count() or 4)
    cap = conf.get('cap', {}).get(a.tier, 75 if a.tier == 'quick' else 780)
    case_timeout = conf.get('case_timeout', 90)
    rdir = os.path.join(VERIF, 'evidence', 'replays', prop)
    os.makedirs(rdir, exist_ok=True)
    # known findings: run their witnesses first
    kf = [k for k in json.load(open(os.path.join(VERIF, 'KNOWN_FINDINGS.json')))['findings'] if k['property'] == prop and k['status'] == 'known']
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
    procs = []
    for i in range(nw):
        o = os.path.join(meta['scratch'], f'w{i}.json')
        j = os.path.join(meta['scratch'], f'w{i}.journal')
        cmd = [PY, '-m', 'vf.worker', prop, '--worker', str(i), '--nworkers', str(nw), '--seed', str(a.seed), '--tier', a.tier, '--cap', str(cap),
               '--out', o, '--journal', j, '--scale', str(a.scale)]
        if a.only:
            cmd += ['--only', a.only]
        log = open(os.path.join(meta['scratch'], f'w{i}.log'), 'wb')
        p = subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=VERIF, start_new_session=True)
        procs.append(dict(p=p, o=o, j=j, log=log.name, start=time.time()))
    pending = list(procs)
    problem = None
    while pending and not problem:
        time.sleep(0.1)
        for w in list(pending):
            rc = w['p'].poll()
            if rc is None:
                try:
                    age = time.time() - max(os.path.getmtime(w['j']), w['start'])
                except OSError:
                    age = time.time() - w['start']
                # ticks: evidence that this machine was running normally while the case was not
                w['ticks'] = w.get('ticks', 0) + 1 if age > 1 else 0
                if age > case_timeout:
                    # one case has been running too long: hang candidate
                    problem = ('hang', w)
                    break
                continue
            pending.remove(w)
            if rc == 0:
                continue
            problem = ({3: 'fail', 4: 'harness'}.get(rc, 'crash'), w)
            break
    for w in procs:
        if w['p'].poll() is None:
            if problem and problem[1] is w and problem[0] == 'hang':
                try:
                    if os.environ.get('VF_GDB'):
                        subprocess.run(['gdb', '-p', str(w['p'].pid), '-batch', '-ex', 'thread apply all bt 25'], stdout=open('/tmp/vf_gdb.txt', 'w'), stderr=subprocess.STDOUT, timeout=60)
                    subprocess.run(['kill', '-ABRT', str(w['p'].pid)])
                    time.sleep(0.5)
                except Exception:
                    pass
            try:
                os.killpg(w['p'].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            w['p'].wait()
    violation = None
    note = None
    if problem:
        kind, w = problem
        tail = open(w['log'], 'rb').read()[-6000:].decode('utf8', 'replace')
        if kind == 'harness':
            print(tail)
            print(f'{prop}: harness error (no verdict)')
            return 2
        violation, note = confirm(a, prop, kind, w, env, meta, rdir, tail, conf, case_timeout, out)
        if violation is None:
            try:
                j = open(w['j'], 'r', errors='replace').read()[:3000]
                ft = open(w['j'] + '.fault', 'r', errors='replace').read()[:6000]
            except OSError:
                j = ft = ''
            print(f'{prop}: unconfirmed {kind}: {note}\n{j}\n{ft}')
    # evidence
    agg = dict(evaluations=0, labels={}, per_check={}, samples=[], known={}, skipped_rounds=0, rounds=0)
    hashes = set()
    for w in procs:
        d = read_json(w['o'])
        if not d:
            continue
        agg['evaluations'] += d['evaluations']
        agg['skipped_rounds'] += d['skipped_rounds']
        agg['rounds'] += d['rounds']
        hashes.update(d['distinct_hashes'])
        for f in ('labels', 'per_check', 'known'):
            for k, v in d[f].items():
                agg[f][k] = agg[f].get(k, 0) + v
        for n, s in d['samples'].items():
            for x in s[:1]:
                if sum(1 for y in agg['samples'] if y['check'] == n) < 2:
                    agg['samples'].append(dict(check=n, case=x))
    if violation is None and not agg['evaluations']:
        print(f'{prop}: no case ran (no verdict)')
        return 2
    ev = dict(property=prop, tier='thorough' if a.tier == 'thorough' else 'quick', seed=a.seed, level='exploration',
              coverage=dict(evaluations=agg['evaluations'], distinct_nontrivial=len(hashes), rule=conf['rule'], samples=agg['samples'][:24],
                            per_check=agg['per_check'], class_counts=dict(sorted(agg['labels'].items())), known_finding_hits=agg['known'],
                            rounds_run=agg['rounds'], rounds_skipped_by_time_cap=agg['skipped_rounds'], workers=nw, build_s=round(tb, 1),
                            unconfirmed=note if (problem and not violation) else None),
              assumptions=conf.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)
    if violation:
        return 1
    print(f"{prop}: held on {agg['evaluations']} cases ({len(hashes)} distinct non-trivial), {agg['skipped_rounds']} of {agg['skipped_rounds']+agg['rounds']} rounds skipped by cap, {time.time()-t0:.1f}s")
    return 0


def confirm(a, prop, kind, w, env, meta, rdir, tail, conf, case_timeout, out):
    """Replay before reporting. Returns (path, None) after printing VIOLATION, or (None, note)."""
    import hashlib
    cands = []
    if kind == 'fail':
        f = read_json(w['o'])['fail']
        cands.append((dict(check=f['check'], case=f['case']), f['message']))
        if f['first'] != f['case']:
            cands.append((dict(check=f['check'], case=f['first']), f['first_message']))
        rnd, chk = f['round'], f['check']
    else:
        try:
            j = json.loads(open(w['j'], 'rb').read())
        except Exception:
            return None, f'{kind} before any case: {tail[-1500:]}'
        rnd, chk = j['round'], j['check']
        msg = f'{kind} (worker status {w["p"].returncode}); log tail: ' + tail[-1500:]
        if kind == 'crash':
            small = shrink_crash(a, prop, chk, rnd, env, meta)
            if small:
                cands.append((dict(check=chk, case=small['case']), small['message']))
        cands.append((dict(check=chk, case=j['case']), msg))
    racy = chk in conf.get('racy', [])
    for c, msg in cands:
        h = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(rdir, h + '.json')
        with open(path, 'w') as fo:
            json.dump(dict(property=prop, **c, message=msg, seed=a.seed), fo, indent=1)
        bad, known, last = 0, 0, ''
        for k in range(12 if racy and kind != 'hang' else 3):
            rc, o = replay_once(prop, path, env, case_timeout + 30)
            if rc != 0:
                if 'REPLAY-FAIL known=' in o:
                    known += 1
                    continue
                bad += 1
                last = o
                if bad >= (1 if kind == 'hang' else 2):
                    break
        if bad:
            print(f'{prop}: {msg[:3000]}')
            print('replay output: ' + last[-2500:])
            print('case: ' + json.dumps(c)[:3000])
            print(f'VIOLATION property={prop} replay={path}', flush=True)
            return path, None
    # whole round with the same seed, in a fresh process
    path = os.path.join(rdir, f'round_{chk}_{rnd}_{a.seed}.json')
    with open(path, 'w') as fo:
        json.dump(dict(property=prop, kind='round', check=chk, round=rnd, seed=a.seed, message=cands[-1][1]), fo, indent=1)
    for k in range(0 if racy and kind == 'hang' else 2):
        rc, o = replay_once(prop, path, env, case_timeout + 120)
        if rc not in (0, 4):
            print(f'{prop}: {cands[-1][1][:3000]}')
            print('replay (round) output: ' + o[-2500:])
            print(f'VIOLATION property={prop} replay={path}', flush=True)
            return path, None
    if racy and (kind != 'hang' or w.get('ticks', 0) > 4 * case_timeout):
        c, msg = cands[-1]
        path = os.path.join(rdir, 'unreproduced.json')
        with open(path, 'w') as fo:
            json.dump(dict(property=prop, **c, message=msg, seed=a.seed), fo, indent=1)
        print(f'{prop}: (schedule-dependent, did not repeat) {msg[:3000]}')
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        return path, None
    return None, cands[0][1][:1500]


def shrink_crash(a, prop, chk, rnd, env, meta):
    o = os.path.join(meta['scratch'], 'shrink.json')
    try:
        subprocess.run([PY, '-m', 'vf.worker', prop, '--isolate-round', f'{chk}:{rnd}', '--seed', str(a.seed), '--tier', a.tier, '--out', o, '--cap', '60'],
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=VERIF, timeout=120)
    except subprocess.TimeoutExpired:
        return None
    d = read_json(o)
    if d and d.get('fail'):
        return d['fail']
    return None


if __name__ == '__main__':
    main()
