"""Tempo, metre and note values."""
from vlib.common import Test, Fail, require

META = {
    'title': 'Durations of beats, notes, tuplets, bars fit together at any tempo',
    'statement': (
        'A note lasts its value divided by the beat value times the beat '
        'period of 60 / tempo seconds, so durations are additive over notes, '
        'a bar lasts as long as the notes filling it, and doubling the tempo '
        'halves them; plain numbers pass through as seconds or Hertz and the '
        'rate of a note value is one over its duration. Dotting a note n '
        'times adds the next n halvings exactly and dedotting is its inverse; '
        'a tuplet lasts den / num of its notes. Metres keep their written '
        'form, are classified by their numerator, and the default beat is '
        'three units if compound, two if complex and one otherwise.'),
    'over': ['inputs'],
    'quant': 'All tempi, metres, beat values, note values, dots and tuplets.',
    'why': 'Tests check a few metres at few tempi.',
    'files': ['klang/music/tempo.py', 'klang/music/metre.py',
              'klang/music/note_values.py'],
    'mechanism': [
        {'name': 'note_duration, bar_period, compute_duration, compute_rate',
         'where': 'klang/music/tempo.py'},
        {'name': 'create_metre, is_*, default_beat_value, number_of_beats',
         'where': 'klang/music/metre.py'},
        {'name': 'dot_note, dedot_note, Tuplet',
         'where': 'klang/music/note_values.py'}],
    'observe': ['the functions named above'],
    'oracle': 'exact rational arithmetic',
}
RULE = ('Cases are a tempo, a metre, an optional beat value and notes. '
        'Non-trivial: the metre is compound, complex or a beat value is '
        'given; at least one dot; a tuplet of several different notes.')


def s_tempo():
    from hypothesis import strategies as st
    frac = st.tuples(st.integers(1, 16),
                     st.sampled_from([1, 2, 4, 8, 16, 32, 3, 6, 12, 64, 128,
                                      256, 1024, 5, 7, 24, 100]))
    frac = frac.map(list)
    return st.fixed_dictionaries({
        'tempo': st.one_of(st.sampled_from([120., 60., 90, 200]),
                           st.floats(1., 1000.), st.floats(1., 1000.),
                           st.floats(.001, 1.), st.floats(1000., 1e6)),
        'metre': st.tuples(st.one_of(st.integers(1, 24), st.integers(1, 24),
                                     st.integers(25, 300)),
                           st.sampled_from([1, 2, 4, 8, 16, 32])).map(list),
        'beat': st.one_of(st.none(), frac),
        'notes': st.lists(frac, min_size=1, max_size=6),
        'number': st.one_of(st.floats(1e-3, 1e4), st.integers(1, 1000))})


def c_tempo(case, ctx):
    from fractions import Fraction
    from vlib.orc import close
    from klang.music import metre as me, tempo as te
    tempo, (num, den) = case['tempo'], case['metre']
    metre = me.create_metre(num, den)
    require((metre.numerator, metre.denominator) == (num, den),
            'metre %d/%d is %r', num, den, metre)
    for name, exp in [('FOUR_FOUR', (4, 4)), ('THREE_FOUR', (3, 4)),
                      ('WALTZ', (3, 4)), ('TWO_FOUR', (2, 4)),
                      ('TWO_TWO', (2, 2)), ('SIX_EIGHT', (6, 8)),
                      ('SEVEN_EIGHT', (7, 8)), ('NINE_EIGHT', (9, 8))]:
        named = getattr(me, name + '_METRE')
        require((named.numerator, named.denominator) == exp, '%s metre is %r',
                name, named)
    compound = num >= 6 and num % 3 == 0
    complex_ = num % 2 != 0 and num % 3 != 0
    for name, exp in [('is_compound', compound), ('is_complex', complex_),
                      ('is_simple', num in (2, 3, 4)),
                      ('is_irrational', False), ('is_fractional', False)]:
        require(bool(getattr(me, name)(metre)) == exp, '%s of %d/%d', name,
                num, den)
    require(me.is_irrational(Fraction(num, 3 * den)) == (
        Fraction(num, 3 * den).denominator % 3 == 0), 'is_irrational')
    unit = 3 if compound else 2 if complex_ else 1
    default = me.default_beat_value(metre)
    require((default.numerator, default.denominator) == (unit, den),
            'beat of %d/%d is %r instead of %d/%d', num, den, default, unit, den)
    beat = Fraction(*case['beat']) if case['beat'] else None
    eff = beat or Fraction(unit, den)
    beats = (me.number_of_beats(metre, beat) if beat
             else me.number_of_beats(metre))
    require(Fraction(beats.numerator, beats.denominator)
            == Fraction(num, den) / eff, '%s beats in %d/%d of %s',
            beats, num, den, eff)
    period = 60. / tempo
    close(te.tempo_2_frequency(tempo), tempo / 60., 'beat frequency')
    close(te.tempo_2_period(tempo), period, 'beat period')

    def dur(note, **kw):
        args = dict(tempo=tempo, metre=metre, beatValue=beat)
        args.update(kw)
        return te.note_duration(note, **args)

    from klang.music.note_values import Tuplet
    total = Fraction(0)
    for a, b in case['notes']:
        note = Fraction(a, b)
        total += note
        exp = float(note / eff) * period
        close(dur(note), exp, 'duration of %s' % note, 0, 1e-12)
        close(te.note_duration(note, tempo, metre, beat), exp, 'positional',
              0, 1e-12)
        close(te.compute_duration(note, tempo, metre, beat), exp,
              'compute_duration', 0, 1e-12)
        close(te.compute_duration(note, tempo=tempo, metre=metre,
                                  beatValue=beat), exp, 'keywords', 0, 1e-12)
        close(te.compute_rate(note, tempo, metre, beat), 1 / exp,
              'compute_rate', 0, 1e-12)
        close(te.compute_rate(note, tempo=tempo, metre=metre,
                              beatValue=beat), 1 / exp,
              'compute_rate with keywords', 0, 1e-12)
        # A number equal to the note value is a time
        seconds = float(note)
        for pos in ((), (tempo, metre, beat)):
            require(te.compute_duration(seconds, *pos) == seconds
                    and te.compute_rate(seconds, *pos) == seconds,
                    'number %s is changed', seconds)
        close(te.compute_duration(note), float(note) * 2.,
              'compute_duration at 120 bpm', 0, 1e-12)
        close(te.compute_rate(note), .5 / float(note),
              'compute_rate at 120 bpm', 0, 1e-12)
        # Three in the time of two
        triplet = Tuplet(3, [note] * 3)
        for two in (2 * note, triplet):
            close(te.compute_duration(two, tempo, metre, beat), 2 * exp,
                  'compute_duration of %s' % two, 0, 1e-12)
            close(te.compute_rate(two, tempo, metre, beat), .5 / exp,
                  'compute_rate of %s' % two, 0, 1e-12)
            close(dur(two), 2 * exp, 'duration of %s' % two, 0, 1e-12)
        close(dur(note, tempo=2 * tempo), exp / 2, 'double tempo', 0, 1e-12)
        # Defaults: tempo 120 and 4/4
        close(te.note_duration(note), float(note) * 2., 'at 120 bpm', 0,
              1e-12)
        close(te.note_duration(note, tempo), float(note * 4) * period,
              'in 4/4', 0, 1e-12)
    close(sum(dur(Fraction(*n)) for n in case['notes']), dur(total),
          'additive', 0, 1e-9)
    bar = te.bar_period(tempo, metre, beat)
    close(bar, float(Fraction(num, den) / eff) * period, 'bar period', 0,
          1e-12)
    close(bar, dur(metre), 'bar is not as long as its notes', 0, 1e-12)
    close(te.bar_period(tempo), 4 * period, 'bar period of 4/4', 0, 1e-12)
    close(te.angular_velocity(tempo, metre, beat) * bar, 6.283185307179586,
          'angular velocity', 0, 1e-12)
    x = case['number']
    require(te.compute_duration(x, tempo, metre) == x
            and te.compute_rate(x, tempo, metre) == x
            and te.compute_duration(x) == x and te.compute_rate(x) == x,
            'number %s is changed', x)
    if compound or complex_ or beat:
        ctx.hit('compound' if compound else 'complex' if complex_ else 'beat')


def s_dot():
    from hypothesis import strategies as st
    frac = st.tuples(st.integers(1, 64), st.integers(1, 64)).map(list)
    return st.fixed_dictionaries({
        'note': st.one_of(frac, st.tuples(st.just(1), st.sampled_from(
            [1, 2, 4, 8, 16, 256])).map(list)),
        'dots': st.one_of(st.integers(0, 12), st.integers(0, 80)),
        'num': st.integers(2, 16), 'den': st.one_of(st.none(),
                                                    st.integers(1, 16)),
        'notes': st.one_of(st.lists(frac, min_size=1, max_size=6),
                           st.lists(frac, min_size=1, max_size=40))})


NAMES = ['LARGE', 'LONG', 'DOUBLE_WHOLE', 'WHOLE', 'HALF', 'QUARTER', 'EIGHT',
         'SIXTEENTH', 'THIRTY_SECOND', 'SIXTY_FOURTH', 'HUNDRED_TWENTY',
         'TWO_HUNDRED_FIFTY_SIXTH']
DOTS = ['', 'DOTTED_', 'DOUBLE_DOTTED_', 'TRIPLE_DOTTED_']


def c_dot(case, ctx):
    from fractions import Fraction
    from klang.music import note_values as nv
    note, n = Fraction(*case['note']), case['dots']
    exp = sum(note / 2 ** i for i in range(n + 1))
    got = nv.dot_note(note, n)
    require(isinstance(got, Fraction) and got == exp, '%s with %d dots is %s '
            'instead of %s', note, n, got, exp)
    require(nv.dedot_note(got, n) == note, 'dedotting %s %d times gives %s',
            got, n, nv.dedot_note(got, n))
    require(nv.dot_note(nv.dedot_note(note, n), n) == note, 'inverse')
    require(nv.dot_note(note, -n) == nv.dedot_note(note, n)
            and nv.dedot_note(note, -n) == got, 'negative dots')
    require(nv.dot_note(note) == note * 3 / 2
            and nv.dedot_note(note) == note * 2 / 3, 'default is one dot')
    for i, name in enumerate(NAMES):
        for j, dots in enumerate(DOTS):
            const = getattr(nv, dots + name + '_NOTE')
            require(const == sum(Fraction(8) / 2 ** (i + k)
                                 for k in range(j + 1)),
                    '%s%s_NOTE is %s', dots, name, const)
    notes = [Fraction(*f) for f in case['notes']]
    den = case['den']
    if den is None:
        tup, den = nv.Tuplet(case['num'], notes), case['num'] - 1
    else:
        tup = nv.Tuplet(case['num'], notes, den)
    require(isinstance(tup, Fraction)
            and tup == sum(notes) * den / case['num'],
            'tuplet %d:%s of %s is %r', case['num'], den, notes, tup)
    require((tup.num, tup.den, list(tup.notes)) == (case['num'], den, notes),
            'attributes of the tuplet')
    require(str(tup).endswith('(%d:%d)' % (case['num'], den)), 'str %s', tup)
    if case['num'] in LATIN:
        require(str(tup).startswith(LATIN[case['num']]), 'str %s', tup)
    # Tuplets nest and add up like any other note value.
    outer = nv.Tuplet(3, [tup, tup, note])
    require(outer == (2 * tup + note) * 2 / 3, 'nested tuplet %r', outer)
    if n and len(set(notes)) > 1:
        ctx.hit('dots %d' % min(n, 4))


LATIN = {2: 'Duplet', 3: 'Triplet', 4: 'Quadruplet', 5: 'Quintuplet',
         6: 'Sextuplet', 7: 'Septuplet', 8: 'Octuplet'}

TESTS = [
    Test('tempo', s_tempo, c_tempo, quick=1000, thorough=40000),
    Test('values', s_dot, c_dot, quick=1000, thorough=40000),
]
