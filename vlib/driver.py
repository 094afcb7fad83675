"""CPython side: Hypothesis generation, sharding, verdict and evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue as queue_mod
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

from vlib import build as vbuild
from vlib.common import VERIF, dumps

SHRINK_S = 25          # wall time for shrinking one failure
CASE_WALL_S = 150      # a worker that does not answer for this long is dead
MAX_HISTORY = 4000


class StopRun(BaseException):
    """Leave Hypothesis at once."""


class WorkerError(Exception):
    """Harness trouble (never a verdict)."""


class Worker:

    """A PyPy process which runs cases of one property in one mode."""

    def __init__(self, prop, mode, build_dir):
        self.args = (prop, mode, build_dir)
        self.proc = None
        self.buf = b''
        self.served = 0

    def start(self):
        prop, mode, build_dir = self.args
        self.proc = subprocess.Popen(
            [vbuild.PYPY, VERIF + '/vlib/worker.py', prop, mode, build_dir],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL if not os.environ.get('VERIF_DEBUG')
            else None,
            env=vbuild.worker_env(mode), cwd=os.environ['VERIF_SCRATCH'],
            start_new_session=True)
        self.buf = b''
        self.served = 0
        msg = self.read(CASE_WALL_S)
        if msg is None or msg.get('s') != 'ready':
            self.kill()
            raise WorkerError('worker did not start: %s' % (
                (msg or {}).get('msg', 'no answer')) + '\n'
                + (msg or {}).get('tb', ''))

    def read(self, timeout):
        fd = self.proc.stdout.fileno()
        end = time.monotonic() + timeout
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return {'s': 'hang', 'msg': 'no answer for %d s' % timeout}
            ready, _, _ = select.select([fd], [], [], left)
            if ready:
                data = os.read(fd, 1 << 16)
                if not data:
                    return None
                self.buf += data
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def run(self, test, case):
        if self.proc is None:
            self.start()
        line = json.dumps({'test': test, 'case': case}) + '\n'
        try:
            self.proc.stdin.write(line.encode())
            self.proc.stdin.flush()
            res = self.read(CASE_WALL_S)
        except BrokenPipeError:
            res = None
        self.served += 1
        if res is None:
            rc = self.proc.wait()
            asan = self.asan_report()
            self.kill()
            if rc in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT):
                return {'s': 'err', 'msg': 'worker was killed (%d)' % rc}
            return {'s': 'fail', 'crash': True, 'msg':
                    'interpreter crashed (exit status %s)' % rc + asan}
        if res['s'] == 'hang':
            self.kill()
        return res

    def asan_report(self):
        path = '%s/asan.%d' % (os.environ['VERIF_SCRATCH'], self.proc.pid)
        try:
            with open(path, errors='replace') as fh:
                return ': ' + fh.read()[:1500]
        except OSError:
            return ''

    def kill(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            self.proc.wait()
            for fh in (self.proc.stdin, self.proc.stdout):
                try:
                    fh.close()
                except OSError:
                    pass
            self.proc = None


def load_prop(prop):
    return importlib.import_module('props.' + prop.lower())


def case_key(case):
    return hashlib.blake2b(dumps(case).encode(), digest_size=8).hexdigest()


class Stats:

    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.invalid = 0

    def add(self, case, res):
        self.evaluations += 1
        for label in res.get('labels', ()):
            self.labels[label] = self.labels.get(label, 0) + 1
        if res.get('nt'):
            key = case_key(case)
            if key not in self.keys:
                self.keys.add(key)
                if len(self.samples) < 3 and (
                        len(self.keys) % 37 == 1 or len(self.keys) < 3):
                    text = dumps(case)
                    if len(text) < 1500:
                        self.samples.append(case)


def run_test(test, n, seed, worker, stop_at, stats):
    """Run n generated cases. Returns failure record or None."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    failing = {}
    history = []
    state = {'first': None, 'err': None, 'timeout': False}

    def body(case):
        now = time.monotonic()
        if state['first'] is None and now > stop_at:
            state['timeout'] = True
            raise StopRun
        if state['first'] is not None and now - state['first'] > SHRINK_S:
            raise StopRun
        if worker.proc is None:
            history.clear()
        res = worker.run(test.name, case)
        if state['first'] is None:
            stats.add(case, res)
        if res['s'] in ('fail', 'hang'):
            if state['first'] is None:
                state['first'] = now
                state['history'] = list(history)
            text = dumps(case)
            if not failing or len(text) <= failing['size']:
                failing.update(size=len(text), case=case, msg=res['msg'],
                               tb=res.get('tb', ''))
            if 'first_case' not in failing:
                failing['first_case'] = case
            if res['s'] == 'hang':
                raise StopRun
            raise AssertionError('property violated')
        if res['s'] == 'err':
            state['err'] = res['msg'] + '\n' + res.get('tb', '')
            raise StopRun
        if state['first'] is None and len(history) < MAX_HISTORY:
            history.append(case)

    func = hypothesis.given(test.strategy())(lambda case: body(case))
    func = settings(
        max_examples=n, deadline=None, database=None,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False, print_blob=False)(func)
    func = hypothesis.seed(seed)(func)
    try:
        func()
    except StopRun:
        pass
    except Exception:
        if not failing:
            raise
    if state['err'] and not failing:
        raise WorkerError(state['err'])
    if failing:
        failing['history'] = state['history']
        return failing
    return None


def shard_main(prop, tier, seed, shard, shards, build_dirs, stop_at, out):
    """One shard: all tests of a property, its part of the cases."""
    os.setpgid(0, 0)
    results = {}
    try:
        mod = load_prop(prop)
        workers = {}
        for test in mod.TESTS:
            total = test.thorough if tier == 'thorough' else test.quick
            use = min(shards, test.shards or shards)
            if shard >= use:
                continue
            n = total // use + (1 if shard < total % use else 0)
            if not n:
                continue
            mode = test.mode
            if mode not in workers:
                workers[mode] = Worker(prop, mode, build_dirs[mode])
            stats = Stats()
            sub = zlib.crc32(('%d/%s/%s/%d' % (
                seed, prop, test.name, shard)).encode())
            t0 = time.monotonic()
            fail = run_test(test, n, sub, workers[mode], stop_at, stats)
            results[test.name] = {
                'evaluations': stats.evaluations, 'keys': stats.keys,
                'labels': stats.labels, 'samples': stats.samples,
                'wall': time.monotonic() - t0, 'planned': n}
            if fail:
                out.put(('fail', shard, test.name, fail, results))
                break
        else:
            out.put(('ok', shard, results))
        for worker in workers.values():
            worker.kill()
    except BaseException as err:
        out.put(('err', shard, '%r\n%s' % (err, traceback.format_exc())))


def known_findings():
    path = VERIF + '/known_findings.json'
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return json.load(fh).get('findings', [])


def corpus(prop):
    path = '%s/corpus/%s.json' % (VERIF, prop)
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return json.load(fh)


def write_replay(prop, test, rec):
    folder = VERIF + '/evidence/replays'
    os.makedirs(folder, exist_ok=True)
    path = '%s/%s-%s-%s.json' % (folder, prop, test.name,
                                 case_key(rec['case']))
    with open(path, 'w') as fh:
        json.dump({'property': prop, 'test': test.name, 'mode': test.mode,
                   'case': rec['case'], 'history': rec.get('history_used'),
                   'message': rec['msg'], 'traceback': rec.get('tb', '')},
                  fh, indent=1)
    return path


def confirm(prop, test, rec, build_dirs):
    """Does the failure show in a fresh interpreter?"""
    tries = [([], rec['case'])]
    if 'first_case' in rec:
        tries.append(([], rec['first_case']))
        tries.append((rec.get('history') or [], rec['first_case']))
    for history, case in tries:
        worker = Worker(prop, test.mode, build_dirs[test.mode])
        try:
            for old in history:
                worker.run(test.name, old)
            res = worker.run(test.name, case)
        finally:
            worker.kill()
        if res['s'] in ('fail', 'hang'):
            out = dict(rec, case=case, msg=res['msg'], tb=res.get('tb', ''))
            out['history_used'] = history or None
            return out
    return None


def check(prop, tier, seed):
    """Run the check of a property. Returns exit status."""
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop.lower())
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        return _check(prop, tier, seed, scratch, t0)
    except vbuild.BuildError as err:
        print('ERROR: %s' % err)
        return 2
    except WorkerError as err:
        print('ERROR: %s' % err)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, tier, seed, scratch, t0):
    mod = load_prop(prop)
    tests = {t.name: t for t in mod.TESTS}
    build_dirs = {}
    for mode in sorted({t.mode for t in mod.TESTS}):
        build_dirs[mode] = '%s/build-%s' % (scratch, mode)
        vbuild.build(mode, build_dirs[mode])

    violations = []
    # 1. Known findings and the regression corpus.
    workers = {}

    def get(mode):
        if mode not in workers:
            workers[mode] = Worker(prop, mode, build_dirs[mode])
        return workers[mode]

    n_corpus = n_known = 0
    for item in known_findings():
        if item.get('property') != prop or item.get('status') == 'fixed':
            continue
        test = tests[item['test']]
        res = get(test.mode).run(test.name, item['case'])
        n_known += 1
        if res['s'] in ('fail', 'hang'):
            print('KNOWN-FINDING: property=%s %s' % (prop, item['what']))
        elif res['s'] == 'err':
            raise WorkerError(res['msg'])
    corpus_keys = set()
    for item in corpus(prop):
        test = tests[item['test']]
        res = get(test.mode).run(test.name, item['case'])
        n_corpus += 1
        if res.get('nt'):
            corpus_keys.add(case_key([item['test'], item['case']]))
        if res['s'] in ('fail', 'hang'):
            violations.append((test, {'case': item['case'],
                                      'msg': res['msg'],
                                      'tb': res.get('tb', '')}))
        elif res['s'] == 'err':
            raise WorkerError(res['msg'] + '\n' + res.get('tb', ''))
    for worker in workers.values():
        worker.kill()

    # 2. Generated search, in parallel shards.
    shards = int(os.environ.get('VERIF_JOBS') or (
        8 if tier == 'thorough' else 4))
    limit = 6 * 3600 if tier == 'thorough' else 420
    limit = float(os.environ.get('VERIF_LIMIT') or limit)
    stop_at = time.monotonic() + limit
    merged = {}
    errors = []
    if not violations:
        ctx = mp.get_context('fork')
        out = ctx.Queue()
        procs = [ctx.Process(target=shard_main, args=(
            prop, tier, seed, i, shards, build_dirs, stop_at, out))
            for i in range(shards)]
        for proc in procs:
            proc.start()
        pending = set(range(shards))
        fails = []
        while pending:
            try:
                msg = out.get(timeout=5)
            except queue_mod.Empty:
                dead = [i for i in pending if not procs[i].is_alive()]
                if dead:
                    time.sleep(1)
                    try:
                        msg = out.get(timeout=2)
                    except queue_mod.Empty:
                        errors.append('shard %s died' % dead)
                        pending -= set(dead)
                        continue
                else:
                    continue
            kind, shard = msg[0], msg[1]
            pending.discard(shard)
            if kind == 'err':
                errors.append(msg[2])
                continue
            results = msg[-1]
            for name, res in results.items():
                acc = merged.setdefault(name, {
                    'evaluations': 0, 'keys': set(), 'labels': {},
                    'samples': [], 'wall': 0., 'planned': 0})
                acc['evaluations'] += res['evaluations']
                acc['planned'] += res['planned']
                acc['keys'] |= res['keys']
                acc['samples'] += res['samples']
                acc['wall'] = max(acc['wall'], res['wall'])
                for key, val in res['labels'].items():
                    acc['labels'][key] = acc['labels'].get(key, 0) + val
            if kind == 'fail':
                fails.append((tests[msg[2]], msg[3]))
                break
        for proc in procs:
            if proc.is_alive():
                try:
                    os.kill(proc.pid, signal.SIGTERM)
                except ProcessLookupError:
                    pass
        reap_children(procs)
        for test, rec in fails:
            good = confirm(prop, test, rec, build_dirs)
            if good:
                violations.append((test, good))
            else:
                errors.append('failure of %s did not reproduce: %s\n%s' % (
                    test.name, rec['msg'], dumps(rec['case'])[:3000]))

    # 3. Evidence and verdict.
    wall = time.monotonic() - t0
    evaluations = sum(m['evaluations'] for m in merged.values())
    keys = set()
    for name, res in merged.items():
        keys |= {(name, k) for k in res['keys']}
    samples = []
    for name, res in sorted(merged.items()):
        for case in res['samples'][:2]:
            samples.append({'test': name, 'case': case})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations + n_corpus + n_known,
            'distinct_nontrivial': len(keys) + len(corpus_keys),
            'rule': mod.RULE,
            'samples': samples or [
                {'test': t.name, 'case': r['case']} for t, r in violations],
            'regression_corpus_cases': n_corpus,
            'known_finding_cases': n_known,
            'tests': {name: {
                'mode': tests[name].mode,
                'evaluations': res['evaluations'],
                'planned': res['planned'],
                'distinct_nontrivial': len(res['keys']),
                'labels': dict(sorted(res['labels'].items())),
                'wall_s': round(res['wall'], 2),
            } for name, res in sorted(merged.items())},
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    for test, rec in violations:
        path = write_replay(prop, test, rec)
        print('%s/%s: %s' % (prop, test.name, rec['msg']))
        print('case: %s' % dumps(rec['case'])[:2000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if violations:
        return 1
    if errors:
        for err in errors:
            print('ERROR: %s' % err)
        return 2
    if not keys:
        print('ERROR: no non-trivial case was generated')
        return 2
    short = [n for n, r in merged.items() if r['evaluations'] < r['planned']]
    print('%s held: %d cases, %d distinct non-trivial, %.1f s%s' % (
        prop, evaluations + n_corpus, len(keys), wall,
        (' (fewer distinct cases than planned: %s)' % ', '.join(short))
        if short else ''))
    return 0


def reap_children(procs):
    """End shard processes and the PyPy workers they own."""
    for proc in procs:
        proc.join(timeout=0.2)
    me = os.getpid()
    # Workers are session leaders; they end when their stdin closes, which
    # happens once the owning shard is gone.
    for proc in procs:
        if proc.is_alive():
            try:
                os.kill(proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        proc.join(timeout=5)
    return me


def replay(path):
    with open(path) as fh:
        rec = json.load(fh)
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        mode = rec.get('mode', 'native')
        bdir = scratch + '/build'
        vbuild.build(mode, bdir)
        return subprocess.call(
            [vbuild.PYPY, VERIF + '/vlib/worker.py', '--replay',
             os.path.abspath(path), mode, bdir],
            env=vbuild.worker_env(mode), cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    if argv[:1] == ['replay']:
        return replay(argv[1])
    prop = argv[1] if argv[0] == 'check' else argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    return check(prop.upper(), tier, seed)
