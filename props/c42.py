"""Clocks and the main loop."""
from vlib.common import Test, Fail, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Clock pulses, the clock time and the silent main loop keep time',
    'statement': (
        'The clock block is high during the duty part of each period (low '
        'if falling) at every sample, without a jump or drift at buffer '
        'borders, also when its frequency (Hertz or a note value) changes. Without audio the main '
        'loop runs every block once per cycle in execution order, wakes up '
        'at the next multiple of the buffer interval, never earlier and '
        'never a cycle too late however long the blocks took, and every '
        'block sees that time as clock. Blocks which are executed more than '
        'once per cycle because of shared composites are reported.'),
    'over': ['inputs', 'histories', 'schedules'],
    'quant': 'All frequencies, duty cycles, edges, histories of frequency '
             'changes; all schedules of block run times and late wake-ups.',
    'why': 'Tests do not cover the clock block nor the main loop.',
    'files': ['klang/audio/sync.py', 'klang/klang.py', 'klang/clock.py'],
    'mechanism': [
        {'name': 'Clock.update', 'where': 'klang/audio/sync.py'},
        {'name': 'run_klang, sleep_until_next_cycle, unravel, '
                 'validate_global_execution_order',
         'where': 'klang/klang.py'},
        {'name': 'ClockMixin', 'where': 'klang/clock.py'}],
    'observe': ['output of the clock block', 'time and order of updates'],
    'oracle': 'phase model; simulated time',
}
RULE = ('Cases are clock histories, loop schedules and execution orders. '
        'Non-trivial: pulses in at least two buffers; a cycle whose blocks '
        'took longer than the interval; an order with nested composites.')
ASSUMPTIONS = ['time.perf_counter and time.sleep are simulated; sleep may '
               'return late but not early.',
               'Samples within 1e-7 of a pulse edge are not judged.']


def s_clock():
    from hypothesis import strategies as st
    freq = st.one_of(st.floats(.5, 400), st.floats(400, 5000),
                     st.sampled_from([1., 172.265625, 344.53125, 441., 2.]),
                     # Note values
                     st.tuples(st.sampled_from([1, 1, 3]),
                               st.sampled_from([1, 4, 8, 64, 256])).map(list))
    return st.fixed_dictionaries({
        'freq': freq, 'duty': st.one_of(st.none(), st.floats(.02, .98)),
        'edge': st.sampled_from(['rising', 'falling', None]),
        'ops': st.lists(st.one_of(st.none(), st.none(), freq), min_size=1,
                        max_size=20)})


def c_clock(case, ctx):
    from fractions import Fraction
    import numpy as np
    from vlib.orc import BUF, FS
    from klang.audio.sync import Clock

    def number(freq):
        return Fraction(*freq) if isinstance(freq, list) else freq

    def hertz(freq):
        # Quarters at 120 BPM
        return freq[1] / (2. * freq[0]) if isinstance(freq, list) else freq
    kw = {}
    if case['duty'] is not None:
        kw['dutyCycle'] = case['duty']
    if case['edge']:
        kw['edge'] = case['edge']
    clock = Clock(number(case['freq']), **kw)
    for bad in ({'dutyCycle': 0.}, {'dutyCycle': 1.}, {'edge': 'up'}):
        try:
            Clock(1., **bad)
        except AssertionError:
            continue
        raise Fail('%s is accepted' % bad)
    require(not np.any(clock.output.value), 'not silent at the beginning')
    value, duty, phase = case['freq'], case['duty'] or .1, 0.
    pulses = 0
    for k, op in enumerate(case['ops']):
        if op is not None:
            value = op
            clock.phasor.frequency.set_value(number(value))
        freq = hertz(value)
        clock.update()
        got = np.asarray(clock.output.value)
        require(got.shape == (BUF,), 'shape %s', got.shape)
        require(clock.frequency == number(value), 'frequency %s', clock.frequency)
        cycle = (phase + freq * np.arange(BUF) / FS) % 1.
        high = cycle < duty
        if case['edge'] == 'falling':
            high = ~high
        sure = ((np.abs(cycle - duty) > 1e-7) & (cycle > 1e-7)
                & (cycle < 1 - 1e-7))
        bad = np.nonzero(sure & (got != high))[0]
        require(not len(bad), 'buffer %d, sample %s: clock is %s at %s of its '
                'period (%d samples)', k, bad[:1], got[bad[:1]],
                cycle[bad[:1]], len(bad))
        require(set(np.unique(got)) <= {0, 1}, 'values %s', np.unique(got))
        phase = (phase + freq * BUF / FS) % 1.
        pulses += bool(high.any() and not high.all())
    if pulses > 1:
        ctx.hit(case['edge'])


def s_loop():
    from hypothesis import strategies as st
    cost = st.one_of(st.floats(1e-5, .004), st.floats(1e-5, .004),
                     st.floats(.004, .05))
    return st.fixed_dictionaries({
        'start': st.one_of(
            st.floats(.01, 1000), st.floats(.01, 1000),
            # (the counter may count from the start of the computer)
            st.floats(1000, 200000), st.sampled_from([3600., 86400.]),
            # Right after a multiple
            st.tuples(st.integers(1, 5000), st.sampled_from([
                1e-10, 1e-9, 1e-8, 1e-7])).map(
                    lambda t: t[0] * 256. / 44100. + t[1]),
            st.sampled_from([0.] + [256. / 44100. * 2 ** k
                                    for k in range(8)])),
        'cycles': st.lists(st.tuples(
            st.lists(cost, min_size=3, max_size=3),
            st.one_of(st.floats(1e-6, 1e-3), st.floats(1e-6, .03))),
            min_size=1, max_size=20)})


class Done(Exception):
    pass


def c_loop(case, ctx):
    import logging
    import math
    import time
    from vlib.orc import BUF, FS
    from klang.block import Block
    from klang.clock import ClockMixin
    from klang.klang import run_klang
    logging.disable(logging.CRITICAL)
    interval = BUF / FS
    now, log, sleeps = case['start'], [], []
    cycles = case['cycles']

    class Tick(Block, ClockMixin):

        def __init__(self, nr, **kw):
            super().__init__(**kw)
            self.nr = nr

        def update(self):
            nonlocal now
            cycle = len(log) // 3
            if cycle == len(cycles):
                raise Done
            log.append((self.nr, self.clock(), now))
            now += cycles[cycle][0][self.nr]

    def sleep(seconds):
        nonlocal now
        require(seconds >= 0, 'sleep %s', seconds)
        require(seconds <= interval * (1 + 1e-9), 'sleeps %s s', seconds)
        cycle = min(len(log) // 3, len(cycles) - 1)
        sleeps.append((now, seconds))
        now += seconds + cycles[cycle][1]

    a, b, c = Tick(0, nOutputs=1), Tick(1, nInputs=1, nOutputs=1), Tick(
        2, nInputs=1)
    a.output.connect(b.input)
    b.output.connect(c.input)
    ctx.swap(time, 'perf_counter', lambda: now)
    ctx.swap(time, 'monotonic', lambda: now)
    ctx.swap(time, 'sleep', sleep)
    try:
        run_klang(c, b) if len(cycles) % 2 else run_klang(a)
    except Done:
        pass
    finally:
        ClockMixin.set_current_time(0.)
    require([e[0] for e in log] == [0, 1, 2] * len(cycles),
            'order of updates %s', [e[0] for e in log])
    ready = case['start']
    for k in range(len(cycles)):
        times = set(e[1] for e in log[3 * k:3 * k + 3])
        require(len(times) == 1, 'clock changes during a cycle: %s', times)
        t, = times
        start = log[3 * k][2]
        require(abs(t / interval - round(t / interval)) < 1e-6,
                'time %s is not a multiple of the interval', t)
        if ready == 0 or math.frexp(ready / interval)[0] == .5:
            require(abs(t - ready) < 1e-9, 'cycle %d could start right away '
                    'at %s and starts at %s', k, ready, t)
            ctx.label('on time')
        require(t >= ready - 2e-11 and t < ready + interval + 1e-9,
                'cycle %d is at %s, ready since %s', k, t, ready)
        require(t <= start + 1e-9 and abs(start - t - cycles[k][1]) < 1e-9,
                'cycle %d starts at %s instead of %s', k, start,
                t + cycles[k][1])
        if k and ready - prev > interval:
            ctx.hit('late')
        prev = t
        ready = log[3 * k + 2][2] + cycles[k][0][2]
        if k:
            require(t > log[3 * k - 1][1], 'time does not advance')
    try:
        run_klang()
    except ValueError:
        return
    raise Fail('runs without any blocks')


def s_order():
    from hypothesis import strategies as st
    node = st.integers(0, 5)
    tree = st.recursive(node, lambda ch: st.lists(ch, max_size=4),
                        max_leaves=12)
    return st.lists(tree, max_size=6)


def c_order(case, ctx):
    import logging
    from klang.block import Block
    from klang.composite import Composite
    from klang.klang import unravel, validate_global_execution_order
    blocks = {}

    def build(tree):
        if isinstance(tree, int):
            return blocks.setdefault(tree, Block())
        comp = Composite()
        comp.execOrder = [build(t) for t in tree]
        return comp

    def flat(trees):
        out = []
        for t in trees:
            out.extend([t] if isinstance(t, int) else flat(t))
        return out

    order = [build(t) for t in case]
    leaves = flat(case)
    got = list(unravel(order))
    require(len(got) == len(leaves) and all(
        g is blocks[i] for g, i in zip(got, leaves)), 'flattened order of %s '
            'is %s', case, got)
    records = []
    handler = logging.Handler()
    handler.emit = records.append
    logger = logging.Logger('test')
    logger.addHandler(handler)
    logging.disable(logging.NOTSET)
    validate_global_execution_order(order, logger)
    double = len(set(leaves)) < len(leaves)
    require(bool(records) == double, '%d warnings for %s', len(records), case)
    if records:
        require(records[0].levelno >= logging.WARNING, 'not a warning')
        text = records[0].getMessage()
        require(all('%dx' % leaves.count(i) in text for i in set(leaves)
                    if leaves.count(i) > 1), 'warning %s', text)
    if any(isinstance(t, list) and t for t in case):
        ctx.hit('shared' if double else 'nested')


TESTS = [
    Test('clock', s_clock, c_clock, quick=400, thorough=12000),
    Test('loop', s_loop, c_loop, quick=300, thorough=10000),
    Test('order', s_order, c_order, quick=400, thorough=10000),
]
TESTS.append(together('C42'))
RULE += PAIRS
