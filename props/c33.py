"""Notes."""
from vlib.common import Test, Fail, require

META = {
    'title': 'Notes are validated, immutable values which survive serialization',
    'statement': (
        'A note is made exactly of pitches in [0, 128), velocities in [0, 1] '
        'and frequencies >= 0, anything else raises ValueError, and without '
        'frequency it sounds at the frequency its temperament gives to the '
        'pitch. It is a note-off exactly if its velocity is zero, silencing '
        'it changes nothing but the velocity, and notes compare by pitch, '
        'velocity, then frequency. Dictionary, JSON, copy and pickle round '
        'trips return an equal note and leave their input as it was, and '
        'other types of dictionaries are refused.'),
    'over': ['inputs'],
    'quant': 'All pitches, velocities, frequencies and temperaments, in and '
             'out of range.',
    'why': 'Tests build a handful of notes.',
    'files': ['klang/messages.py'],
    'mechanism': [{'name': 'Note', 'where': 'klang/messages.py'}],
    'observe': ['Note fields, on, off, silence(), to_json(), from_json()'],
    'oracle': 'range checks and field equality',
}
RULE = ('Cases are two candidate notes. Non-trivial: one lies at or beyond a '
        'limit, or is valid with own frequency or temperament.')


# Notes come from arrays as well, e.g. patterns
PITCHES = ['', 'int64', 'int32', 'uint8', 'int8', 'int16', 'uint16']
FLOATS = ['', 'float64', 'float32', 'float16']


def convert(case):
    """Numbers of the case as numpy scalars."""
    import numpy as np
    for name, dtype in zip(('pitch', 'velocity', 'frequency'),
                           case.get('types') or ()):
        num = case[name]
        if dtype and num is not None and (
                name != 'pitch' or isinstance(num, int) and 0 <= num < 128):
            case[name] = getattr(np, dtype)(num)


def strat():
    from hypothesis import strategies as st
    from vlib.gens import weighted
    note = st.fixed_dictionaries({
        'pitch': weighted((4, st.integers(0, 127)),
                          (1, st.sampled_from([-1, 128, 0, 127, 127.5, 60.5,
                                               -.001, 300])),
                          (1, st.floats(-10, 140))),
        'velocity': weighted((4, st.floats(0, 1)),
                             (2, st.sampled_from([0, 0., 1, 1., 1e-300,
                                                  5e-324, -0., -1e-300,
                                                  1.0000001, -1, 2, .5]))),
        'frequency': weighted((3, st.none()), (3, st.floats(0, 2e4)),
                              (1, st.sampled_from([0, 0., -1e-9, -440., 440]))),
        'temper': st.integers(0, 20),
        'types': weighted((3, st.none()), (1, st.tuples(
            st.sampled_from(PITCHES), st.sampled_from(FLOATS),
            st.sampled_from(FLOATS)).map(list)))})
    odd = st.fixed_dictionaries({'odd': st.tuples(
        st.sampled_from(['pitch', 'velocity', 'frequency']),
        st.sampled_from(['nan', '-inf', '-1']))})
    return st.lists(weighted((15, note), (1, odd)), min_size=2, max_size=2)


def make(case, tempers):
    from klang.messages import Note
    kwargs = {}
    if 'odd' in case:
        field, value = case['odd']
        try:
            note = Note(**dict({'pitch': 60, 'velocity': .5, 'frequency': 1.},
                               **{field: float(value)}))
        except ValueError:
            return None, False, None
        raise Fail('accepted %s %s as %r' % (field, value, tuple(note)))
    if case['frequency'] is not None:
        kwargs['frequency'] = case['frequency']
    if case['temper']:
        kwargs['temperament'] = tempers[case['temper'] % len(tempers)]
    valid = (0 <= case['pitch'] < 128 and 0 <= case['velocity'] <= 1
             and (case['frequency'] is None or case['frequency'] >= 0))
    whole = case['pitch'] == int(case['pitch'])
    if not whole and case['frequency'] is None:
        return None, valid, None  # Tables are for whole pitches
    try:
        note = Note(case['pitch'], case['velocity'], **kwargs)
    except ValueError:
        require(not valid, 'refused %s', case)
        return None, valid, None
    require(valid, 'accepted %s as %r', case, tuple(note))
    if case['frequency'] is None:
        exp = kwargs.get('temperament', tempers[0]).pitch_2_frequency(
            case['pitch'])
    else:
        exp = case['frequency']
    return note, valid, exp


def check(case, ctx):
    import copy
    import json
    import pickle
    from klang.messages import Note
    from klang.music.tunings import EQUAL_TEMPERAMENT, TEMPERAMENTS
    tempers = [EQUAL_TEMPERAMENT] + [TEMPERAMENTS[k]
                                     for k in sorted(TEMPERAMENTS)]
    case = [dict(c) for c in case]
    for c in case:  # Floats of JSON
        if 'odd' in c:
            continue
        if c['pitch'] == int(c['pitch']) and c['frequency'] is None:
            c['pitch'] = int(c['pitch'])
        convert(c)
    notes = []
    for c in case:
        note, valid, freq = make(c, tempers)
        if not valid:
            ctx.hit('invalid')
        if note is None:
            continue
        if any(c.get('types') or ()):
            ctx.hit('numpy')
        p, v = c['pitch'], c['velocity']
        notes.append((note, (p, v, freq)))
        require((note.pitch, note.velocity, note.frequency) == (p, v, freq),
                'fields %r of %s (frequency %s)', tuple(note), c, freq)
        require(note.on == (v > 0) and note.off == (v == 0)
                and note.on != note.off, 'on %s, off %s of velocity %s',
                note.on, note.off, v)
        silent = note.silence()
        require(type(silent) is Note and silent.off and not silent.on
                and tuple(silent) == (p, 0, freq), 'silenced %r is %r',
                tuple(note), tuple(silent))
        require(tuple(note) == (p, v, freq), 'silence changed the note')
        for field in ('pitch', 'velocity', 'frequency'):
            try:
                setattr(note, field, 0)
            except AttributeError:
                continue
            raise Fail('%s can be assigned' % field)
        dct = note.to_dict()
        before = dict(dct)
        for back in (Note.from_dict(dct), Note.from_dict(dct),
                     Note.from_json(note.to_json()), copy.copy(note),
                     copy.deepcopy(note), pickle.loads(pickle.dumps(note)),
                     note._replace()):
            require(type(back) is Note and back == note
                    and hash(back) == hash(note), 'round trip of %r is %r',
                    tuple(note), tuple(back))
        require(dct == before, 'dictionary changed from %s to %s', before, dct)
        require(json.loads(note.to_json()) == dct, 'JSON %s', note.to_json())
        try:
            Note.from_dict(dict(dct, type='Chord'))
        except ValueError:
            pass
        else:
            raise Fail('dictionary of another type accepted')
        require(str(note) == 'Note(pitch=%d, velocity=%.1f, frequency=%.1f Hz)'
                % (p, v, freq), 'str %s', note)
        if c['frequency'] is not None or c['temper']:
            ctx.hit('custom')
        if v in (0, 1) or p in (0, 127):
            ctx.hit('limit')
    if len(notes) == 2:
        (a, x), (b, y) = notes
        require((a < b) == (x < y) and (a == b) == (x == y)
                and (a > b) == (x > y), 'order of %r and %r', x, y)


TESTS = [Test('note', strat, check, quick=1500, thorough=60000)]
