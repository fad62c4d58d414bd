"""Generates and runs cases of one property. Run by vf.runner, or with --replay."""
import argparse, collections, faulthandler, importlib, json, os, sys, time, traceback, random, signal

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--worker', type=int, default=0)
    ap.add_argument('--nworkers', type=int, default=1)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--cap', type=float, default=60)
    ap.add_argument('--out', default='/dev/null')
    ap.add_argument('--journal')
    ap.add_argument('--replay')
    ap.add_argument('--times', type=int, default=1)
    ap.add_argument('--isolate-round', help='check:round (fork per case; shrink a crash)')
    ap.add_argument('--only', help='only this sub-check')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    faulthandler.enable(open((a.journal or '/dev/null') + '.fault', 'w') if a.journal else sys.stderr)
    mod = importlib.import_module('vf.props.' + a.prop.lower())
    from vf.core import Violation, dumps, case_hash, brief
    subs = mod.CHECKS
    known = getattr(mod, 'KNOWN', {})

    def known_match(case, e):
        for kid, pred in known.items():
            try:
                if pred(case, str(e)):
                    return kid
            except Exception:
                pass
        return None

    if a.replay:
        r = json.load(open(a.replay))
        if r.get('kind') == 'round':
            return run_rounds(a, mod, only=(r['check'], r['round']), seed=r['seed'])
        bad = 0
        for _ in range(a.times):
            try:
                subs[r['check']].run(r['case'])
            except Exception as e:
                bad += 1
                kid = known_match(r['case'], e)
                print('REPLAY-FAIL', ('known=' + kid) if kid else '', type(e).__name__, str(e)[:2000], flush=True)
                if not isinstance(e, Violation):
                    traceback.print_exc()
        sys.stdout.flush()
        os._exit(3 if bad else 0)
    return run_rounds(a, mod)


def run_rounds(a, mod, only=None, seed=None):
    from hypothesis import given, settings, seed as hseed, Phase, HealthCheck, Verbosity
    from hypothesis.errors import HypothesisException
    import hypothesis
    from vf.core import Violation, dumps, case_hash, brief
    seed = a.seed if seed is None else seed
    subs = mod.CHECKS
    known = getattr(mod, 'KNOWN', {})
    t0 = time.time()
    stats = dict(evaluations=0, nontrivial=0, labels=collections.Counter(), per_check=collections.Counter(), samples={}, known=collections.Counter(),
                 skipped_rounds=0, rounds=0)
    seen = set()
    journal = open(a.journal, 'wb', buffering=0) if a.journal else None
    fail = None

    def save(status):
        d = dict(stats, labels=dict(stats['labels']), per_check=dict(stats['per_check']), known=dict(stats['known']), status=status, fail=fail,
                 wall=time.time() - t0, distinct_hashes=[h.hex() for h in seen])
        tmp = a.out + '.tmp'
        with open(tmp, 'w') as f:
            f.write(json.dumps(d, allow_nan=True))
        os.replace(tmp, a.out) if a.out != '/dev/null' else None

    rounds = []
    for name, s in subs.items():
        if a.only and name not in a.only.split(','):
            continue
        n = int((s.quick if a.tier == 'quick' else s.thorough) * a.scale)
        k = max(1, (n + s.batch - 1) // s.batch)
        for r in range(k):
            rounds.append((r / k, name, r))
    rounds.sort()
    mine = [x for i, x in enumerate(rounds) if i % a.nworkers == a.worker]
    if only:
        mine = [(0, only[0], only[1])]
    iso = None
    if a.isolate_round:
        c, r = a.isolate_round.rsplit(':', 1)
        mine, iso = [(0, c, int(r))], True

    for _, name, r in mine:
        if time.time() - t0 > a.cap:
            stats['skipped_rounds'] += 1
            continue
        sub = subs[name]
        stats['rounds'] += 1
        state = dict(best=None, msg=None, deadline=None, first=None)

        def exec_case(case):
            if iso or sub.isolate:
                return run_forked(sub, case)
            return sub.run(case)

        def body(case):
            if state['deadline'] is not None and time.time() > state['deadline']:
                return
            stats['evaluations'] += 1
            stats['per_check'][name] += 1
            if journal:
                js = dumps(dict(check=name, round=r, case=case)).encode()
                journal.seek(0)
                journal.write(js + b'\n')
                journal.truncate()
            try:
                labels, nontriv = exec_case(case)
            except HypothesisException:
                raise
            except Exception as e:
                kid = None
                for k, pred in known.items():
                    try:
                        if pred(case, str(e)):
                            kid = k
                            break
                    except Exception:
                        pass
                if kid:
                    stats['known'][kid] += 1
                    return
                js = dumps(case)
                msg = f'{type(e).__name__}: {e}'
                if not isinstance(e, Violation):
                    tb = traceback.extract_tb(e.__traceback__)
                    msg += ' @ ' + '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-4:])
                if state['first'] is None:
                    state['first'] = (case, msg)
                    state['deadline'] = time.time() + 20
                if state['best'] is None or len(js) <= len(dumps(state['best'])):
                    state['best'], state['msg'] = case, msg
                raise
            for l in labels:
                stats['labels'][f'{name}:{l}'] += 1
            h = case_hash([name, case])
            if nontriv and h not in seen:
                stats['nontrivial'] += 1
                seen.add(h)
                sm = stats['samples'].setdefault(name, [])
                if len(sm) < 2 or (stats['evaluations'] % 997 == 0 and len(sm) < 4):
                    sm.append(brief(case))

        h = (seed * 1000003 + hash_str(name) * 7919 + r) & 0x7fffffffffff
        f = settings(max_examples=sub.batch, database=None, deadline=None, report_multiple_bugs=False, verbosity=Verbosity.quiet,
                     print_blob=False, phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))(hseed(h)(given(sub.strategy)(body)))
        try:
            f()
        except BaseException as e:
            if state['best'] is None:
                if isinstance(e, KeyboardInterrupt):
                    raise
                # a failure of the generator itself: harness error
                traceback.print_exc()
                save('harness-error: ' + repr(e)[:500])
                os._exit(4)
            fail = dict(check=name, round=r, case=state['best'], message=state['msg'][:4000], first=state['first'][0], first_message=state['first'][1][:4000])
            save('fail')
            print('FAIL', name, state['msg'][:1500], flush=True)
            print('CASE', dumps(state['best'])[:3000], flush=True)
            sys.stdout.flush()
            os._exit(3)
        if stats['rounds'] % 10 == 0:
            pass
    save('ok')
    sys.stdout.flush()
    os._exit(0)


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def run_forked(sub, case):
    from vf.core import Violation
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(int(sub.timeout))
        try:
            out = dict(ok=list(sub.run(case)))
            out['ok'][0] = list(out['ok'][0])
        except BaseException as e:
            out = dict(err=f'{type(e).__name__}: {e}')
        try:
            os.write(w, json.dumps(out).encode()[:60000])
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data:
        raise Violation(f'process ended by signal {os.WTERMSIG(st)}' if os.WIFSIGNALED(st) else f'process exited with status {os.WEXITSTATUS(st)}')
    d = json.loads(data)
    if 'err' in d:
        raise Violation(d['err'])
    return d['ok'][0], d['ok'][1]


if __name__ == '__main__':
    main()
