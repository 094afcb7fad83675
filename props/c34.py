"""Scales, chords and intervals."""
from vlib.common import Test, Fail, require

META = {
    'title': 'Scales, chords, intervals: conversions and look-ups lose nothing',
    'statement': (
        'Interval pattern, pitches and binary code of a scale are converted '
        'into each other without loss: the pitches start at zero and are the '
        'running sum of the intervals, and the code has a bit per pitch. '
        'Inverting a chord n times moves its n lowest pitches up an octave '
        '(down for negative n), keeping the pitch classes, and inverting back '
        'returns the chord. Every entry of the data base is found by its '
        'name and has the values of its table, and rotating a mode of the '
        'major scale gives the neighbouring mode.'),
    'over': ['inputs'],
    'quant': 'All 2048 rooted scales, pitch lists in any order, octave and '
             'with repetitions of the octave, all chords and inversions, all '
             'names of the shipped tables.',
    'why': 'Tests check one scale and one chord.',
    'files': ['klang/music/scales.py', 'klang/music/chords.py',
              'klang/music/intervals.py', 'klang/music/data/scales.csv',
              'klang/music/data/chords.csv', 'klang/music/data/intervals.csv'],
    'mechanism': [
        {'name': 'scale_2_pitches, pitches_2_scale, scale_2_code, '
                 'code_2_scale, find_scale', 'where': 'klang/music/scales.py'},
        {'name': 'invert_chord, find_chord', 'where': 'klang/music/chords.py'},
        {'name': 'find_interval', 'where': 'klang/music/intervals.py'}],
    'observe': ['the functions named above'],
    'oracle': 'sets of pitch classes, index arithmetic, own table reader',
}
RULE = ('Cases are subsets of pitch classes, chords with an inversion, and '
        'table rows. Non-trivial: a scale of 2 to 11 pitches given out of '
        'order or in several octaves; an inversion by at least one and a '
        'chord of at least two pitches; every table row.')


def s_scale():
    from hypothesis import strategies as st
    return st.builds(
        lambda code, seed: {'code': 2 * code + 1, 'seed': seed},
        st.integers(0, 2047), st.integers(0, 10**6))


def c_scale(case, ctx):
    import random
    import numpy as np
    from klang.music import scales as sc
    code = case['code']
    pitches = [p for p in range(12) if code >> p & 1]
    scale = [b - a for a, b in zip(pitches, pitches[1:] + [12])]
    got = sc.pitches_2_scale(pitches)
    require(list(got) == scale, 'scale of %s is %s', pitches, got)
    rnd = random.Random(case['seed'])
    other = [p + 12 * rnd.randint(-3, 5) for p in pitches]
    rnd.shuffle(other)
    for form in (list, tuple, np.array):
        arg = form(other)
        require(list(sc.pitches_2_scale(arg)) == scale,
                'scale of %s is %s instead of %s', other,
                sc.pitches_2_scale(form(other)), scale)
        require(list(arg) == other, 'pitches changed from %s to %s', other,
                arg)
        arg = form(scale)
        require(list(sc.scale_2_pitches(arg)) == pitches,
                'pitches of %s are %s', scale, sc.scale_2_pitches(form(scale)))
        require(sc.scale_2_code(arg) == code, 'code of %s is %s '
                'instead of %d', scale, sc.scale_2_code(form(scale)), code)
        require(list(arg) == scale, 'scale changed from %s to %s', scale, arg)
    require(list(sc.code_2_scale(code)) == scale, 'scale of code %d is %s',
            code, sc.code_2_scale(code))
    require(list(sc.ALL_POSSIBLE_SCALES[code]) == scale, 'entry %d is %s',
            code, sc.ALL_POSSIBLE_SCALES[code])
    require(len(sc.ALL_POSSIBLE_SCALES) == 4096, 'number of scales')
    # Repeated pitches (e.g. an interval of zero) are the same scale.
    i = rnd.randint(0, len(scale) - 1)
    twice = scale[:i] + [0] + scale[i:]
    require(sc.scale_2_code(twice) == code, 'code of %s is %s', twice,
            sc.scale_2_code(twice))
    if len(pitches) > 1:
        ctx.hit('%d notes' % len(pitches))


def s_chord():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'chord': st.lists(st.integers(-24, 48), min_size=1, max_size=8),
        'sort': st.booleans(), 'n': st.integers(-20, 20),
        'form': st.sampled_from(['list', 'tuple', 'array'])})


def c_chord(case, ctx):
    import numpy as np
    from klang.music.chords import invert_chord
    chord, n = case['chord'], case['n']
    if case['sort']:
        chord = sorted(chord)
    k = len(chord)
    arg = {'list': list, 'tuple': tuple, 'array': np.array}[case['form']](chord)
    got = [int(v) for v in invert_chord(arg, n)]
    exp = [chord[(i + n) % k] + 12 * ((i + n) // k) for i in range(k)]
    require(got == exp, 'inversion %d of %s is %s instead of %s', n, chord,
            got, exp)
    require(list(arg) == chord, 'argument changed')
    require(sorted(v % 12 for v in got) == sorted(v % 12 for v in chord),
            'pitch classes changed')
    back = [int(v) for v in invert_chord(invert_chord(arg, n), -n)]
    require(back == chord, 'inverted by %d and back: %s instead of %s', n,
            back, chord)
    if case['sort'] and chord[-1] - chord[0] <= 12:
        require(got == sorted(got), '%s not ascending', got)
    if n and k > 1:
        ctx.hit('up' if n > 0 else 'down')


def s_db():
    from hypothesis import strategies as st
    return st.integers(0, 100000)


def rows(name):
    import os
    from vlib.common import REPO
    with open(os.path.join(REPO, 'klang/music/data', name + '.csv'),
              encoding='utf-8') as f:
        lines = [line.split(',') for line in f.read().splitlines()]
    return dict((line[0], line[1:]) for line in lines)


MODES = ['ionian', 'dorian', 'phrygian', 'lydian', 'mixolydian', 'aeolian',
         'locrian']
FACTS = {'octave': (2, 1), 'perfect fifth': (3, 2), 'perfect fourth': (4, 3),
         'unison': (1, 1)}
CHORDS = {'major chord': [0, 4, 7], 'minor chord': [0, 3, 7],
          'dominant seventh chord': [0, 4, 7, 10],
          'dominant eleventh chord': [0, 4, 7, 10, 14, 17],
          'dominant thirteenth chord': [0, 4, 7, 10, 14, 17, 21],
          'minor thirteenth chord': [0, 3, 7, 10, 14, 17, 21],
          'so what chord': [0, 5, 10, 15, 19],
          'mystic chord': [0, 6, 10, 16, 21, 26],
          'elektra chord': [0, 7, 9, 13, 16]}


def c_db(case, ctx):
    from fractions import Fraction
    from klang.music import scales as sc, chords as ch, intervals as iv
    sca, cho, ivl = rows('scales'), rows('chords'), rows('intervals')
    for known, table in ((sc.KNOWN_SCALES, sca), (ch.CHORDS, cho),
                         (iv.INTERVALS, ivl)):
        require(set(known) == set(table), 'names %s',
                sorted(set(known) ^ set(table)))
    name = sorted(sca)[case % len(sca)]
    exp = [int(v) for v in sca[name] if int(v)]
    got = list(sc.find_scale(name))
    require(got == exp, '%s is %s instead of %s', name, got, exp)
    require(sum(got) == 12, '%s spans %d semitones', name, sum(got))
    name = sorted(cho)[case % len(cho)]
    require(list(ch.find_chord(name)) == [int(v) for v in cho[name]],
            '%s is %s', name, ch.find_chord(name))
    # Chords, scales and pitches are transposed and added up like numbers
    require((5 + ch.find_chord(name)).tolist()
            == [5 + int(v) for v in cho[name]], '%s does not transpose', name)
    for name, pitches in CHORDS.items():
        require(list(ch.find_chord(name)) == pitches, '%s is %s', name,
                ch.find_chord(name))
    name = sorted(ivl)[case % len(ivl)]
    got = iv.find_interval(name)
    require(isinstance(got, Fraction) and got == Fraction(ivl[name][0]),
            '%s is %s', name, got)
    num, _, den = ivl[name][0].partition('/')
    require(got.numerator * int(den or 1) == got.denominator * int(num),
            '%s is %s', name, got)
    for name, (a, b) in FACTS.items():
        require(iv.find_interval(name) == Fraction(a, b), name)
    i = case % 7
    a, b = (list(sc.find_scale(MODES[j % 7] + ' mode')) for j in (i, i + 1))
    require(a[1:] + a[:1] == b, 'mode after %s is not %s', a, b)
    require(list(sc.find_scale('ionian mode')) == [2, 2, 1, 2, 2, 2, 1]
            and list(sc.find_scale('major scale')) == [2, 2, 1, 2, 2, 2, 1]
            and list(sc.find_scale('minor')) == [2, 1, 2, 2, 1, 2, 2],
            'major or minor scale')
    ctx.hit()


TESTS = [
    Test('scales', s_scale, c_scale, quick=1500, thorough=20000),
    Test('chords', s_chord, c_chord, quick=1000, thorough=40000),
    Test('tables', s_db, c_db, quick=800, thorough=4000),
]
