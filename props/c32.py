"""Pitch naming and tunings."""
from vlib.common import Test, Fail, require

META = {
    'title': 'Pitch names, frequencies and tunings are mutually consistent',
    'statement': (
        'Every pitch number has a name in scientific pitch notation which is '
        'read back as that number, any spelling with accidentals and any '
        'letter case counts semitones from C4 = 60, and a text which is not '
        'such a name raises ValueError. A temperament tunes A4 (pitch 69) to '
        'its concert pitch, doubles the frequency per octave and spaces the '
        'twelve pitches of an octave by its cents; arrays of pitches are '
        'converted element-wise, and every temperament of the data base is '
        'tuned as its table says. Cents and frequency ratios are inverses of '
        'each other with 1200 cents per octave.'),
    'over': ['inputs'],
    'quant': 'All integer pitches, all strings (grammar based and mutated), '
             'all cents tables, concert pitches and shipped temperaments.',
    'why': 'Tests check a few names and the equal temperament only.',
    'files': ['klang/music/pitch.py', 'klang/music/tunings.py',
              'klang/music/data/tunings.csv'],
    'mechanism': [
        {'name': 'note_name_2_pitch, pitch_2_note_name',
         'where': 'klang/music/pitch.py'},
        {'name': 'Temperament.pitch_2_frequency, cent_2_ratio, ratio_2_cent',
         'where': 'klang/music/tunings.py'}],
    'observe': ['note_name_2_pitch()', 'pitch_2_note_name()',
                'Temperament.pitch_2_frequency()'],
    'oracle': 'arithmetic definition of pitch numbers and cents',
}
RULE = ('Cases are note names (valid and mutated), pitches and cents tables. '
        'Non-trivial: a name with accidentals, other letter case, negative '
        'octave or one character too many; an unequal temperament over more '
        'than one octave.')

BASE = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}


def s_name():
    from hypothesis import strategies as st
    from vlib.gens import weighted
    valid = st.builds(
        lambda c, a, o, up: (c.upper() if up & 1 else c.lower())
        + (a.upper() if up & 2 else a) + str(o),
        st.sampled_from('CDEFGAB'),
        st.sampled_from(['', '#', '##', 'b', 'bb']),
        st.one_of(st.integers(-2, 9), st.integers(-1000, 1000)),
        st.integers(0, 3))
    mutated = st.builds(
        lambda s, i, c, k: s[:i % (len(s) + 1)] + c + s[i % (len(s) + 1) + k:],
        valid, st.integers(0, 9),
        st.sampled_from(['', '#', 'b', '-', '4', '.', ' ', 'x', 'H', 'C',
                         'foo', '\n', '+', '_', '\u0664', '##', 'bb']),
        st.integers(0, 1))
    return st.builds(lambda s, p: {'name': s, 'pitch': p},
                     weighted((3, valid), (3, mutated),
                              (1, st.text(max_size=6))),
                     st.one_of(st.integers(-200, 200),
                               st.integers(-10**6, 10**6)))


def parse(name):
    """Reference reader. None if not a note name."""
    if not name or name[0].upper() not in BASE or ord(name[0]) > 127:
        return None
    i, acc = 1, ''
    while i < len(name) and name[i] in '#bB' and len(acc) < 2:
        acc += name[i].lower()
        i += 1
    if acc not in ('', '#', '##', 'b', 'bb'):
        return None
    num = name[i:]
    digits = num[1:] if num.startswith('-') else num
    if not digits or any(c not in '0123456789' for c in digits):
        return None
    shift = len(acc) * (1 if acc.startswith('#') else -1)
    return BASE[name[0].upper()] + shift + 12 * (int(num) + 1)


def c_name(case, ctx):
    from klang.music.pitch import note_name_2_pitch, pitch_2_note_name
    name, exp = case['name'], parse(case['name'])
    try:
        got = note_name_2_pitch(name)
    except ValueError:
        got = None
    require(got == exp, 'note name %r is %s, expected %s', name, got, exp)
    if exp is not None:
        require(note_name_2_pitch(pitch_2_note_name(exp)) == exp,
                'pitch %s of %r is lost', exp, name)
    p = case['pitch']
    back = pitch_2_note_name(p)
    require(parse(back) == p, 'pitch %d is named %r', p, back)
    require(note_name_2_pitch(back) == p, 'name %r of pitch %d is read as %s',
            back, p, note_name_2_pitch(back))
    require('b' not in back and back == back.upper(), 'name %r', back)
    if exp is not None and (len(name) > 2 or name[0].islower()):
        ctx.hit('valid')
    if exp is None and any(parse(name[:i]) is not None
                           for i in range(len(name))):
        ctx.hit('trailing text')
    elif exp is None and len(name) > 1:
        ctx.hit('invalid')


def s_temper():
    from hypothesis import strategies as st
    cent = st.floats(0, 1199.99).map(lambda v: round(v, 3))
    tables = st.lists(cent, min_size=12, max_size=12)
    return st.fixed_dictionaries({
        'cents': st.one_of(tables.map(sorted), tables,
                           st.just([100 * i for i in range(12)])),
        'kammer': st.one_of(st.sampled_from([440., 415., 432.]),
                            st.floats(50, 5000)),
        'pitches': st.lists(st.one_of(st.integers(0, 127),
                                      st.integers(-30, 160)),
                            min_size=1, max_size=12),
        'ints': st.booleans(),
        'dtype': st.sampled_from(['int64', 'uint8', 'int8', 'int16', 'uint16',
                                  'int32', 'uint32']),
        'ratio': st.floats(1e-6, 1e6)})


def c_temper(case, ctx):
    import numpy as np
    from vlib.orc import close
    from klang.music.tunings import Temperament, ratio_2_cent, cent_2_ratio
    cents, kammer = case['cents'], case['kammer']
    if not all(isinstance(c, int) for c in cents):
        cents = [float(c) for c in cents]
    t = Temperament(list(cents), kammerton=kammer, name='test')

    def exp(p):
        return kammer * 2. ** ((cents[p % 12] - cents[9]) / 1200.
                               + (p // 12 - 5))

    for p in case['pitches']:
        close(t.pitch_2_frequency(p), exp(p), 'frequency of pitch %d' % p,
              0, 1e-11)
        close(t.pitch_2_frequency(p + 12) / t.pitch_2_frequency(p), 2.,
              'octave of %d' % p, 0, 1e-12)
    close(t.pitch_2_frequency(69), kammer, 'concert pitch', 0, 1e-12)
    arr = np.array(case['pitches'])
    close(t.pitch_2_frequency(arr), [exp(p) for p in case['pitches']],
          'frequencies of %s' % case['pitches'], 0, 1e-11)
    dtype = np.dtype(case.get('dtype', 'int64'))
    fit = [p for p in case['pitches'] if np.iinfo(dtype).min <= p
           <= np.iinfo(dtype).max]
    if fit:
        close(t.pitch_2_frequency(np.array(fit, dtype)), [exp(p) for p in fit],
              'frequencies of %s as %s' % (fit, dtype), 0, 1e-11)
    require('%.1f' % kammer in str(t) and 'test' in str(t), 'str %s', t)
    if cents == sorted(cents):
        f = [t.pitch_2_frequency(p) for p in range(36)]
        require(all(a <= b * (1 + 1e-12) for a, b in zip(f, f[1:])),
                'not ascending')
    r = case['ratio']
    close(cent_2_ratio(ratio_2_cent(r)), r, 'ratio', 0, 1e-11)
    close(ratio_2_cent(2 * r) - ratio_2_cent(r), 1200., 'octave in cents',
          1e-8)
    for c in cents:
        close(ratio_2_cent(cent_2_ratio(c)), c, 'cents', 1e-8)
    close(ratio_2_cent(cent_2_ratio(np.array(cents))), cents, 'cents', 1e-8)
    close(cent_2_ratio(np.array([1200, 0, -1200])), [2, 1, .5], 'octaves')
    if len(set((c - 100. * i) for i, c in enumerate(cents))) > 1:
        ctx.hit('unequal')
    bad = list(cents)[:11]
    try:
        Temperament(bad)
    except Exception:
        return
    raise Fail('accepted a table of 11 cents')


def s_known():
    from hypothesis import strategies as st
    return st.tuples(st.integers(0, 200), st.integers(-24, 150)).map(list)


def c_known(case, ctx):
    import os
    import numpy as np
    from vlib.orc import close
    from vlib.common import REPO
    from klang.music import tunings as tn
    just = [(1, 1), (16, 15), (9, 8), (6, 5), (5, 4), (4, 3), (45, 32), (3, 2),
            (8, 5), (5, 3), (9, 5), (15, 8)]
    tables = {'Just': [1200 * np.log2(a / b) for a, b in just],
              'Equal': [100 * i for i in range(12)]}
    pythagorean = [(1, 1), (12, 11), (9, 8), (6, 5), (5, 4), (4, 3), (7, 5),
                   (3, 2), (8, 5), (5, 3), (7, 4), (11, 6)]
    tables['Pythagorean'] = [1200 * np.log2(a / b) for a, b in pythagorean]
    with open(os.path.join(REPO, 'klang/music/data/tunings.csv')) as f:
        for line in f.read().splitlines():
            name, *vals = line.split(',')
            tables[name.strip().title()] = [float(v) for v in vals]
    young = [1., 1.055730636, 1.119771437, 1.187696971, 1.253888072,
             1.334745462, 1.407640848, 1.496510232, 1.583595961, 1.675749414,
             1.781545449, 1.878842233]
    tables['Young'] = [1200 * np.log2(r) for r in young]
    tables['Random'] = None
    require(set(tables) == set(tn.TEMPERAMENTS), 'temperaments %s instead of '
            '%s', sorted(tn.TEMPERAMENTS), sorted(tables))
    require(tn.EQUAL_TEMPERAMENT is tn.TEMPERAMENTS['Equal'], 'two equals')
    name = sorted(tables)[case[0] % len(tables)]
    temper, cents = tn.TEMPERAMENTS[name], tables[name]
    require(tn.find_temperament(name) is temper, '%s not found', name)
    close(temper.pitch_2_frequency(69), 440., '%s: A4' % name, 0, 1e-12)
    for p in range(case[1], case[1] + 12):
        f = temper.pitch_2_frequency(p)
        close(temper.pitch_2_frequency(p + 12), 2 * f, '%s: octave' % name, 0,
              1e-12)
        require(temper.pitch_2_frequency(p + 1) >= f, '%s: descends at %d',
                name, p)
        if cents is not None:
            close(f, 440 * 2. ** ((cents[p % 12] - cents[9]) / 1200
                                  + (p // 12 - 5)),
                  '%s: frequency of %d' % (name, p), 0, 1e-9)
        if name != 'Random':
            # All shipped tunings stay closer to equal temperament than 70
            # cents.
            dev = 1200 * np.log2(f / (440. * 2 ** ((p - 69) / 12.)))
            require(abs(dev) < 70, '%s: pitch %d is off by %.0f cents', name,
                    p, dev)
    if case[1] % 12 != 9:
        ctx.hit(name)


TESTS = [
    Test('names', s_name, c_name, quick=2500, thorough=100000),
    Test('temperaments', s_temper, c_temper, quick=500, thorough=20000),
    Test('known', s_known, c_known, quick=400, thorough=6000),
]
