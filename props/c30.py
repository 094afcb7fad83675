"""Micro rhythm."""
from vlib.common import Test, Fail, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Micro rhythm moves steps within a beat, never across beats',
    'statement': (
        'A micro rhythm warps the phase so that the i-th of the N notes of '
        'every beat starts where the output reaches i / N of that beat, '
        'linearly (or as the chosen interpolation has it) in between, fixes all beats themselves and is strictly '
        'increasing over the whole circle up to its last representable '
        'phase; phrasing blends linearly between the straight and the warped '
        'phase. A sequence with a micro rhythm patched in plays the same '
        'steps, each once and in order, one buffer after the warped times, while '
        'the other channels stay as they are (they refuse a rhythm which is in use). Removing it restores straight timing.'),
    'over': ['inputs', 'configurations', 'histories'],
    'quant': 'All note value patterns, beat values, phrasings and phases.',
    'why': 'No test covers micro rhythms apart from the execution order.',
    'files': ['klang/music/rhythm.py', 'klang/sequencer.py',
              'klang/music/note_formatting.py'],
    'mechanism': [
        {'name': 'MicroRhyhtm.warp, create_phase_interpolator, harmonize, '
                 'phrase', 'where': 'klang/music/rhythm.py'},
        {'name': 'Sequence.apply_micro_rhythm, reset_micro_rhythm',
         'where': 'klang/sequencer.py'}],
    'observe': ['MicroRhyhtm.warp()', 'MicroRhyhtm.output',
                'messages at the sequencer outputs'],
}
RULE = ('Cases are note patterns with phases, or sequences with micro rhythms '
        'applied and removed. Non-trivial: an uneven pattern with phrasing '
        'above 0; for sequences at least one completed cycle.')
ASSUMPTIONS = ['steps within 1e-9 of a buffer border are not judged',
               'the two buffers after patching a rhythm in or out are not '
               'judged for its channel']


def notes():
    from hypothesis import strategies as st
    value = st.sampled_from([[1, 4], [1, 8], [3, 16], [1, 16], [1, 12],
                             [3, 8], [1, 24], [5, 16], [1, 3], [7, 64]])
    return st.one_of(*[st.lists(value, min_size=1, max_size=7)] * 8,
                     st.lists(value, min_size=8, max_size=24))


def strat():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'notes': notes(), 'phrasing': st.one_of(
            st.none(), st.sampled_from([0., 1., .5]), st.floats(0., 1.)),
        'beat': st.sampled_from([None, 4, 2, 8, 1, 3]),
        'n': st.one_of(st.none(), st.integers(1, 9), st.integers(10, 64)),
        'phases': st.lists(st.one_of(
            st.floats(0., 1., exclude_max=True),
            st.tuples(st.integers(0, 48), st.integers(-2, 2)).map(list)),
            min_size=1, max_size=30)})


def model(notes, n, phrasing, turn):
    """Warped turn, both in [0, 1)."""
    total = sum(notes)
    beat = int(turn * n)
    beat = min(beat, n - 1)
    rest = turn * n - beat
    start, out = 0., 1.
    for i, note in enumerate(notes):
        width = float(note / total)
        if rest < start + width:
            out = (i + (rest - start) / width) / len(notes)
            break
        start += width
    groove = (beat + out) / n
    return (1. - phrasing) * turn + phrasing * groove


def check(case, ctx):
    import math
    from fractions import Fraction
    import numpy as np
    from klang.music.rhythm import MicroRhyhtm
    tau = 2 * math.pi
    pattern = [Fraction(*v) for v in case['notes']]
    kwargs = {}
    if case['phrasing'] is not None:
        kwargs['phrasing'] = case['phrasing']
    if case['beat']:
        kwargs['beatValue'] = Fraction(1, case['beat'])
    n = case['n'] or case['beat'] or 4
    amount = 1. if case['phrasing'] is None else case['phrasing']
    rhythm = MicroRhyhtm(pattern, **kwargs)
    phases = []
    for p in case['phases']:
        if isinstance(p, list):
            # Around the beats and their subdivisions
            val = p[0] / 48. * tau
            for _ in range(abs(p[1])):
                val = float(np.nextafter(val, 1e9 if p[1] > 0 else -1e9))
            p = val
        else:
            p *= tau
        if 0. <= p < tau:
            phases.append(p)
    # Last representable phases of each beat
    for k in range(n):
        val = (k + 1) * tau / n
        for _ in range(8):
            val = float(np.nextafter(val, 0.))
            if val < tau:
                phases.append(val)
    last = None
    for p in sorted(phases):
        got = float(rhythm.warp(p, case['n']) if case['n'] else
                    rhythm.warp(p))
        exp = model(pattern, n, amount, p / tau) * tau
        require(abs(got - exp) < 1e-9, 'warp of %r (turn %r) is %r instead of '
                '%r (notes %s, n %d, phrasing %r)', p, p / tau, got, exp,
                [str(v) for v in pattern], n, amount)
        require(last is None or got >= last - 1e-12, 'phase moves back from '
                '%r to %r', last, got)
        if not case['n']:
            rhythm.input.set_value(p)
            rhythm.update()
            require(rhythm.output.value == got, 'block output %r instead of '
                    '%r', rhythm.output.value, got)
        last = got
    for k in range(n):
        got = float(rhythm.warp(k * tau / n, n))
        require(abs(got - k * tau / n) < 1e-9, 'beat %d of %d moved to %r', k,
                n, got)
        total, start = sum(pattern), Fraction(0)
        for i, note in enumerate(pattern):
            turn = (k + float(start / total)) / n
            got = float(rhythm.warp(turn * tau, n)) / tau
            exp = (1 - amount) * turn + amount * (k + i / len(pattern)) / n
            require(abs(got - exp) < 1e-9, 'note %d of beat %d warped to %r '
                    'instead of %r', i, k, got, exp)
            start += note
    require(pattern == [Fraction(*v) for v in case['notes']],
            'notes changed to %s', pattern)
    if len(set(pattern)) > 1 and amount > 0:
        ctx.hit()


def strat_seq():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'rows': st.lists(st.lists(st.integers(1, 127), min_size=2,
                                  max_size=9), min_size=1, max_size=3),
        'notes': notes(), 'phrasing': st.one_of(
            st.just(1.), st.floats(0., 1.)),
        'tempo': st.floats(60., 900.), 'chan': st.integers(0, 2),
        'straight': st.integers(0, 40), 'warped': st.integers(20, 250),
        'after': st.integers(0, 60), 'split': st.booleans(),
        'refused': st.lists(st.tuples(st.integers(0, 300),
                                      st.integers(0, 2)).map(list),
                            max_size=3)})


def check_seq(case, ctx):
    from fractions import Fraction
    from klang.clock import ClockMixin
    from klang.connections import InputAlreadyConnected, MessageInput
    from klang.music.rhythm import MicroRhyhtm
    from klang.sequencer import Sequencer
    rows = [list(r) for r in case['rows']]
    pattern = [Fraction(*v) for v in case['notes']]
    chan = case['chan'] % len(rows)
    seq = Sequencer(rows, tempo=case['tempo'], absNoteLength=1e9,
                    splitOutputs=case['split'])
    ctx.defer(ClockMixin.set_current_time, 0.)
    recvs = []
    for out in seq.outputs:
        recvs.append(MessageInput())
        out.connect(recvs[-1])
    sec = 15. / case['tempo']
    rhythm = MicroRhyhtm(pattern, phrasing=case['phrasing'])
    state = [-1] * len(rows)
    turns, jump = 0, 0
    plan = [False] * case['straight'] + [True] * case['warped'] \
        + [False] * case['after']
    on = False
    for k, want in enumerate(plan):
        if want and not on:
            seq.apply_micro_rhythm(rhythm, chan)
        if on and not want:
            seq.reset_micro_rhythm(chan)
        if want != on:
            # Not judged: phase jumps and the rhythm block has no phase yet
            jump = k + 2
        on = want
        for when, other in case.get('refused', []):
            other %= len(rows)
            if when == k and on and other != chan:
                # The rhythm is in use
                try:
                    seq.apply_micro_rhythm(rhythm, other)
                except InputAlreadyConnected:
                    ctx.hit('refused')
                else:
                    raise Fail('micro rhythm of channel %d applied to channel '
                               '%d, too', chan, other)
        now = k * 256 / 44100.
        ClockMixin.set_current_time(now)
        seq.update()
        got = [[m.pitch for m in r.receive()] for r in recvs]
        exps = []
        for i, row in enumerate(rows):
            turn = now / sec / len(row)
            turns = max(turns, turn)
            turn %= 1.
            if on and i == chan:
                # The rhythm block follows the sequence: one buffer behind
                turn = model(pattern, 4, case['phrasing'],
                             (k - 1) * 256 / 44100. / sec / len(row) % 1.)
            x = turn * len(row)
            if x and abs(x - round(x)) < 1e-9:
                ctx.label('border')
                return
            idx = int(x)
            missing = (idx - state[i]) % len(row)
            exps.append([row[(state[i] + 1 + j) % len(row)]
                         for j in range(missing)])
            state[i] = idx
        if not case['split']:
            exps = [sum(exps, [])]
        if k < jump:
            if not case['split']:
                continue
            got[chan] = exps[chan]
        require(got == exps, 'buffer %d, micro rhythm %s on channel %d: sent '
                '%s instead of %s', k, on, chan, got, exps)
    if turns > 1 and len(set(pattern)) > 1:
        ctx.hit()


KINDS = ['linear', 'slinear', 'quadratic', 'cubic', 'nearest', 'previous',
         'next', 'zero']


def strat_kinds():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'notes': notes(), 'kinds': st.lists(st.sampled_from(KINDS),
                                            min_size=2, max_size=4),
        'n': st.integers(1, 8),
        'turns': st.lists(st.floats(0., .999), min_size=1, max_size=8)})


def check_kinds(case, ctx):
    """Rhythms with other kinds of interpolation."""
    import math
    from fractions import Fraction
    import numpy as np
    import scipy.interpolate
    from klang.music.rhythm import MicroRhyhtm
    tau = 2 * math.pi
    pattern = [Fraction(*v) for v in case['notes']]
    total, n = sum(pattern), case['n']
    starts = [float(sum(pattern[:i]) / total) for i in range(len(pattern) + 1)]
    levels = [i / len(pattern) for i in range(len(pattern) + 1)]
    need = {'quadratic': 3, 'cubic': 4}
    used = [k for k in case['kinds'] if need.get(k, 2) <= len(starts)]
    rhythms = [MicroRhyhtm(pattern, kind=k) for k in used]
    for kind, rhythm in zip(used, rhythms):
        oracle = scipy.interpolate.interp1d(starts, levels, kind)
        for turn in case['turns']:
            beat = int(turn * n)
            rest = turn * n - beat
            edges = starts + [(a + b) / 2. for a, b in zip(starts, starts[1:])]
            if min(abs(rest - e) for e in edges) < 1e-9:
                continue
            exp = (beat + float(oracle(rest))) / n
            got = float(rhythm.warp(turn * tau, n)) / tau
            require(abs(got - exp) < 1e-9, '%s interpolation of notes %s: turn '
                    '%r (n = %d) is %r instead of %r', kind,
                    [str(v) for v in pattern], turn, n, got, exp)
    if len(set(used)) > 1 and len(set(pattern)) > 1:
        ctx.hit('kinds')


TESTS = [
    Test('warp', strat, check, quick=500, thorough=30000),
    Test('kinds', strat_kinds, check_kinds, quick=150, thorough=6000),
    Test('sequence', strat_seq, check_seq, quick=300, thorough=10000),
]
TESTS.append(together('C30'))
RULE += PAIRS
