"""Step sequencer."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Sequencer plays every step of every pattern once, at its time',
    'statement': (
        'Each channel cycles through its pattern, one step per grid value at '
        'the tempo, and sends for every non-zero pitch (or every pitch of a '
        'chord) exactly one note-on in the first buffer which reaches the '
        'step, and one note-off when the note length is over. This holds for '
        'patterns of any length, for step durations shorter than a buffer (no '
        'step is skipped) and over any running time without drift, '
        'independently for every one of its (nChannels) channels, on separate '
        'outputs or merged into one. A phase slicer reports every slice passed exactly once and in '
        'order for any forward movement by less than a turn minus one '
        'slice (half a turn for a single slice).'),
    'over': ['histories', 'configurations', 'inputs'],
    'quant': ('All patterns, tempos, grids, note lengths, channel layouts and '
              'running times.'),
    'why': 'Tests set a constant phase and three points of one pattern.',
    'files': ['klang/sequencer.py', 'klang/note_effects.py',
              'klang/audio/oscillators.py', 'klang/music/tempo.py',
              'klang/composite.py'],
    'state': ['PizzaSlicer.currentIdx', 'Phasor.currentPhase',
              'NoteLengthener.activeNotes'],
    'mechanism': [
        {'name': 'PizzaSlicer.update, PatternLookup.update, Sequence, '
                 'Sequencer.add_new_channel', 'where': 'klang/sequencer.py'}],
    'observe': ['messages at the outputs of the sequencer'],
    'oracle': 'a timeline computed from tempo and grid',
}
RULE = ('Cases are patterns with tempo, grid and note length, and a running '
        'time. Non-trivial: a pattern cycle is completed and notes of at least '
        'two steps are played.')
ASSUMPTIONS = ['events within 1e-7 of a buffer border may fall on either '
               'side']


def strat():
    from hypothesis import strategies as st
    cell = st.one_of(st.integers(1, 127), st.just(0), st.integers(1, 127),
                     st.lists(st.one_of(st.integers(1, 127), st.just(0)),
                              min_size=1, max_size=3))
    from vlib.gens import weighted
    row = st.lists(cell, min_size=1, max_size=8)
    short = st.lists(st.integers(0, 127), min_size=2, max_size=3)
    return st.fixed_dictionaries({
        'rows': weighted((12, st.lists(row, min_size=1, max_size=3)),
                         (2, st.lists(short, min_size=4, max_size=20)),
                         # Everything at once still fits into the queue of
                         # the merged output
                         (1, st.lists(st.lists(
                             st.integers(0, 127), min_size=1, max_size=2),
                             min_size=12, max_size=24)),
                         (1, st.lists(st.lists(
                             st.integers(0, 127), min_size=60, max_size=130),
                             min_size=1, max_size=1))),
        'numpy': st.booleans(), 'flat': st.booleans(),
        'tempo': st.one_of(st.just(120.), st.floats(30., 400.),
                           st.floats(400., 60000.)),
        'beat': st.sampled_from([None, 4, 8, 2]),
        'grid': st.sampled_from([None, 16, 8, 4, 12]),
        'rel': st.one_of(st.none(), st.floats(.01, 1.5)),
        'abs': st.one_of(st.none(), st.none(), st.floats(0., .4)),
        'split': st.sampled_from([None, True, False]),
        'late': st.booleans(),
        'cycles': st.floats(.5, 4.)})


def check(case, ctx):
    from fractions import Fraction
    import numpy as np
    from klang.clock import ClockMixin
    from klang.connections import MessageInput
    from klang.sequencer import Sequencer
    rows = [list(r) for r in case['rows']]
    if case['cycles'] > 2.:
        # Chords are any sequences
        rows = [[tuple(c) if isinstance(c, list) else c for c in r]
                for r in rows]
    kwargs, tempo = {'tempo': case['tempo']}, case['tempo']
    beat, grid, rel = Fraction(1, 4), Fraction(1, 16), .5
    if case['beat']:
        beat = kwargs['beatValue'] = Fraction(1, case['beat'])
    if case['grid']:
        grid = kwargs['grid'] = Fraction(1, case['grid'])
    if case['rel'] is not None:
        rel = kwargs['relNoteLength'] = case['rel']
    sec = float(grid / beat) * 60. / tempo
    length = rel * sec
    if case['abs'] is not None:
        length = kwargs['absNoteLength'] = case['abs']
    split = True if case['split'] is None else case['split']
    # Chords may start only rows of explicit two dimensional patterns
    plain = all(isinstance(c, int) for r in rows for c in r)
    pattern = rows
    if case['flat'] and len(rows) == 1 and isinstance(rows[0][0], int):
        pattern = rows[0]
    elif case['numpy'] and plain and len(set(map(len, rows))) == 1:
        pattern = np.array(rows)
    if case['split'] is not None:
        kwargs['splitOutputs'] = split
    late = rows[-1] if case['late'] and len(rows) > 1 and pattern is rows \
        else None
    seq = Sequencer(pattern[:-1] if late else pattern, **kwargs)
    if late:
        kwargs.pop('splitOutputs', None)
        seq.add_new_channel(late, **kwargs)
    require(seq.nChannels == len(rows), '%r channels counted instead of %d',
            seq.nChannels, len(rows))
    for one, row in zip(getattr(seq, 'sequences', []), rows):
        dur = getattr(one, 'duration', len(row) * sec)
        require(abs(dur - len(row) * sec) <= 1e-12 * len(row) * sec,
                'pattern of %d steps of %r s lasts %r s', len(row), sec, dur)
    ctx.defer(ClockMixin.set_current_time, 0.)
    require(len(seq.outputs) == (len(rows) if split else 1), '%d outputs',
            len(seq.outputs))
    recvs = []
    for out in seq.outputs:
        recvs.append(MessageInput())
        out.connect(recvs[-1])
    dt = 256 / 44100.
    total = max(len(r) for r in rows) * sec * case['cycles']
    count = max(3, min(500, int(total / dt)))
    eps = 1e-7
    if dt / sec * max(len(r) for r in rows) > min(len(r) for r in rows) * .9:
        # Faster than one turn per buffer
        ctx.label('too fast')
        return
    if dt / sec * 3 * sum(len(r) for r in rows) > 40:
        ctx.label('queue too small')
        return
    if any(len(r) == 1 and dt / sec > .45 for r in rows):
        return
    done = [0] * len(rows)
    active = [[] for _ in rows]
    played = [0] * len(rows)
    unsure = [None] * len(rows)
    for k in range(count):
        now = k * dt
        ClockMixin.set_current_time(now)
        seq.update()
        got = [[tuple(m) for m in r.receive()] for r in recvs]
        sure = [0] * len(rows)
        exps = []
        for i, row in enumerate(rows):
            exp = []
            x = now / sec
            if abs(x - round(x)) < eps * max(1., x) and k:
                ctx.label('border')
                return
            for end, pitch in list(active[i]):
                if abs(end - now) < eps:
                    ctx.label('border')
                    return
            # FIFO
            while active[i] and active[i][0][0] <= now:
                exp.append((active[i].pop(0)[1], 0.))
            while done[i] <= x:
                cell = row[done[i] % len(row)]
                for pitch in [cell] if isinstance(cell, int) else cell:
                    if pitch:
                        exp.append((pitch, 1.))
                        active[i].append((now + length, pitch))
                        played[i] += 1
                done[i] += 1
            exps.append(exp)
        if not split:
            exps = [sum(exps, [])]
        for i, (g, e) in enumerate(zip(got, exps)):
            require([m[:2] for m in g] == e, 'output %d, buffer %d (step %.6f '
                    'of %s): sent %s instead of %s', i, k, now / sec, rows, g,
                    e)
            for m in g:
                require(abs(m[2] - 440. * 2 ** ((m[0] - 69) / 12.)) < 1e-6
                        * m[2], 'frequency %r of pitch %d', m[2], m[0])
    if len(rows) > 8 and max(played) > 1:
        ctx.label('many channels')
    if any(d > len(r) and p >= 2 for d, r, p in zip(done, rows, played)):
        ctx.hit('split' if split else 'merged')
        if dt > sec:
            ctx.label('several steps per buffer')
        if any(len(r) == 1 for r in rows):
            ctx.label('one step')


def strat_pizza():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist
    return st.fixed_dictionaries({
        'n': st.one_of(st.integers(1, 20), st.integers(1, 20),
                       st.integers(21, 300)),
        'steps': oplist(st.one_of(
            st.floats(0., .9), st.just(0.), st.floats(0., .1),
            st.sampled_from([.25, .5, .125])), 60),
        'wrap': st.booleans()})


def check_pizza(case, ctx):
    import math
    from klang.connections import MessageInput
    from klang.sequencer import PizzaSlicer, pizza_slice_number
    n, tau = case['n'], 2 * math.pi
    pizza = PizzaSlicer(n)
    recv = MessageInput()
    pizza.output.connect(recv)
    pos, seen, moved = 0., 0, 0
    for i, d in enumerate(case['steps']):
        if i:
            # Beyond this a turn is indistinguishable from no movement
            d = min(d, .45 if n == 1 else .95 * (1. - 1. / n))
            d = min(d, 40. / n)  # Message queues hold 50 messages
            pos += d
            moved += d > 0
        near = pos * n
        if i and d and abs(near - round(near)) < 1e-9 or \
                abs(pos - round(pos)) < 1e-12 and i and d:
            return
        pizza.input.set_value(pos % 1. * tau)
        pizza.update()
        got = list(recv.receive())
        exp = []
        while seen <= near:
            exp.append(seen % n)
            seen += 1
        require(got == exp, '%d slices, turn %r: sent %s instead of %s', n,
                pos, got, exp)
        idx = pizza_slice_number(pos * tau, n)
        require(idx == math.floor(pos * n) % n, 'slice %r at turn %r', idx,
                pos)
    for angle in (-1e-17, -1e-300, tau, -tau, -.1, 0., 1e6, -tau / 3.1):
        idx = pizza_slice_number(angle, n)
        require(0 <= idx < n and isinstance(idx, int), 'slice %r of %d at %r',
                idx, n, angle)
    if seen > n and moved > 3:
        ctx.hit()


def strat_random():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'length': st.integers(0, 40), 'period': st.one_of(
            st.none(), st.integers(1, 45)),
        'lo': st.integers(0, 60), 'span': st.integers(0, 60)})


def check_random(case, ctx):
    from klang.sequencer import random_pattern
    n, period = case['length'], case['period']
    lo, hi = case['lo'], case['lo'] + case['span']
    got = random_pattern(n, period, lo, hi) if period else \
        random_pattern(n, minVal=lo, maxVal=hi) if n else []
    require(len(got) == n, 'length %d instead of %d', len(got), n)
    require(all(lo <= v <= hi for v in got), 'values %s not in [%d, %d]', got,
            lo, hi)
    if period:
        require(all(a == b for a, b in zip(got, got[period:])),
                'pattern %s does not repeat after %d', got, period)
        if n > period:
            ctx.hit()


TESTS = [
    Test('sequencer', strat, check, quick=1600, thorough=20000),
    Test('pizza', strat_pizza, check_pizza, quick=500, thorough=40000),
    Test('pattern', strat_random, check_random, quick=200, thorough=5000),
]
TESTS.append(together('C29'))
RULE += PAIRS
