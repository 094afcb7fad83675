"""PyPy side: runs the cases against the klang of /repo.

    pypy3 worker.py PROP MODE BUILD_DIR          persistent, JSON lines on fds
    pypy3 worker.py --replay FILE MODE BUILD_DIR  one replay file
"""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import random
import signal
import sys
import traceback
import warnings
import zlib

import numpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = '/repo'
if REPO not in sys.path:
    sys.path.insert(1, REPO)

from vlib.common import Ctx, Fail  # noqa: E402

EXTS = ('klang.audio._envelope', 'klang.audio._filters')


class ExtFinder(importlib.abc.MetaPathFinder):

    """Serve the C extensions from the scratch build (never /repo's .so)."""

    def __init__(self, mode, build):
        self.mode = mode
        self.build = build

    def find_spec(self, name, path=None, target=None):
        if name not in EXTS:
            return None
        if self.mode == 'fallback':
            raise ImportError('C extension %s disabled (fallback mode)' % name)
        short = name.rsplit('.', 1)[1]
        for fn in sorted(os.listdir(self.build)):
            if fn.startswith(short + '.') and fn.endswith('.so'):
                full = os.path.join(self.build, fn)
                loader = importlib.machinery.ExtensionFileLoader(name, full)
                return importlib.util.spec_from_file_location(
                    name, full, loader=loader)
        raise ImportError('no scratch build of %s' % name)


class CaseTimeout(BaseException):
    pass


def on_alarm(signum, frame):
    raise CaseTimeout()


def in_repo(tb):
    """Does the traceback run through klang code?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def short_tb(exc):
    out = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return ''.join(out)[-2500:]


HARNESS_ERRORS = (AttributeError, ImportError, NameError, TypeError,
                  MemoryError, OSError, AssertionError)


def harness_error(err):
    """If an exception raised by check code tells of the check (e.g. a name it
    needs is gone) and not of a result it can not make sense of.
    """
    if isinstance(err, AttributeError):
        return 'NoneType' not in str(err)
    if isinstance(err, TypeError):
        return any(s in str(err) for s in (
            'argument', 'callable', 'instantiate', 'takes', 'subclass'))
    return isinstance(err, HARNESS_ERRORS)


def run_case(test, case):
    ctx = Ctx()
    res = {'s': 'ok'}
    # Random choices of the library are the same whenever a case is run
    seed = zlib.crc32(json.dumps(case, sort_keys=True).encode())
    random.seed(seed)
    numpy.random.seed(seed)
    signal.setitimer(signal.ITIMER_VIRTUAL, test.cpu)
    try:
        try:
            test.check(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            for func, args in reversed(ctx.cleanups):
                func(*args)
    except CaseTimeout:
        res = {'s': 'hang',
               'msg': 'no result after %s s of CPU time' % test.cpu}
    except Fail as err:
        res = {'s': 'fail', 'msg': str(err)[:2000], 'tb': short_tb(err)}
    except Exception as err:
        tb = short_tb(err)
        if in_repo(err.__traceback__):
            res = {'s': 'fail', 'msg': 'unexpected %s: %s' % (
                type(err).__name__, str(err)[:1000]), 'tb': tb}
        elif harness_error(err):
            res = {'s': 'err', 'msg': '%s: %s' % (
                type(err).__name__, str(err)[:1000]), 'tb': tb}
        else:
            res = {'s': 'fail', 'msg': 'unusable result (%s: %s)' % (
                type(err).__name__, str(err)[:1000]), 'tb': tb}
    res['nt'] = ctx.nontrivial
    res['labels'] = ctx.labels
    return res


def setup(mode, build):
    warnings.simplefilter('ignore')
    sys.meta_path.insert(0, ExtFinder(mode, build))
    signal.signal(signal.SIGVTALRM, on_alarm)
    sys.setrecursionlimit(3000)


def load(prop):
    mod = importlib.import_module('props.' + prop.lower())
    return {t.name: t for t in mod.TESTS}


def serve(prop, mode, build):
    rfd = os.dup(0)
    wfd = os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    rx = os.fdopen(rfd, 'r', encoding='utf-8')
    tx = os.fdopen(wfd, 'w', encoding='utf-8')

    def send(obj):
        tx.write(json.dumps(obj) + '\n')
        tx.flush()

    try:
        setup(mode, build)
        tests = load(prop)
        import klang
        where = os.path.abspath(klang.__file__)
        if not where.startswith(REPO + '/'):
            raise RuntimeError('klang imported from ' + where)
    except BaseException as err:
        send({'s': 'err', 'msg': 'worker setup: %r' % err,
              'tb': short_tb(err)})
        return
    send({'s': 'ready'})
    for line in rx:
        msg = json.loads(line)
        try:
            res = run_case(tests[msg['test']], msg['case'])
        except KeyError as err:
            res = {'s': 'err', 'msg': repr(err)}
        send(res)


def replay(path, mode, build):
    with open(path) as fh:
        rec = json.load(fh)
    setup(mode, build)
    tests = load(rec['property'])
    test = tests[rec['test']]
    res = None
    for case in rec.get('history') or []:
        run_case(test, case)
    res = run_case(test, rec['case'])
    print('property', rec['property'], 'test', rec['test'], 'mode', mode)
    print('case', json.dumps(rec['case'])[:4000])
    print('result', res['s'], res.get('msg', ''))
    if res.get('tb'):
        print(res['tb'])
    return {'ok': 0, 'fail': 1, 'hang': 1}.get(res['s'], 2)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(*sys.argv[2:5]))
    serve(*sys.argv[1:4])
