"""Monophonic synthesizer."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Mono synth plays the one held note its policy selects, else none',
    'statement': (
        'At every moment the note that sounds is the newest, oldest, lowest or '
        'highest of the notes held down, depending on the policy, with its own '
        'frequency and velocity, whatever the order of presses and releases. '
        'Releasing a note that does not sound changes nothing, releasing the '
        'sounding one falls back to the next held note, and when nothing is '
        'held any more the synthesizer becomes silent. Releases of notes that '
        'were never pressed are harmless and several events within one buffer '
        'end in the state of the last one.'),
    'over': ['histories', 'configurations'],
    'quant': ('All policies and all histories of note-ons and note-offs with '
              'any distribution over buffers.'),
    'why': 'Tests run four hand written melodies of three notes each.',
    'files': ['klang/audio/synthesizer.py', 'klang/audio/voices.py',
              'klang/messages.py'],
    'state': ['NoteScheduler.notes', 'Voice.amplitude', 'Voice.currentPitch'],
    'mechanism': [
        {'name': 'NoteScheduler.get_next_note, add_note, remove_note',
         'where': 'klang/audio/synthesizer.py'},
        {'name': 'MonophonicSynthesizer.update, Voice.process_incoming_notes',
         'where': 'klang/audio/synthesizer.py'}],
    'observe': ['synthesizer output', 'NoteScheduler.get_next_note()'],
    'oracle': 'a model of the set of held notes',
}
RULE = ('Cases are a policy and a history of key events. Non-trivial: at least '
        'three notes held at once and at least two releases, or a hidden '
        'note released while the voice has a retriggering envelope.')
ASSUMPTIONS = ['a key which is held is not pressed again before its release']


def strat_many():
    """Many keys held before, during and after the operations."""
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted
    vel = st.floats(.01, 1.)
    op = weighted(
        (2, st.tuples(st.just('on'), st.integers(0, 127), vel)),
        (3, st.tuples(st.just('off'), st.integers(0, 60),
                      st.just(0)))).map(list)
    return st.fixed_dictionaries({
        'policy': st.sampled_from(['newest', 'oldest', 'lowest', 'highest',
                                   None]),
        'tuning': st.sampled_from(['equal', 'inverse', 'any']),
        'ops': st.tuples(
            st.one_of(*[st.lists(st.tuples(
                st.just('on'), st.integers(0, 127), vel).map(list),
                min_size=n, max_size=m) for n, m in [(6, 18), (6, 18),
                                                     (30, 60)]]),
            oplist(op, 30),
            # Now and then all of them are released
            st.one_of(*[st.lists(st.tuples(
                st.just('off'), st.integers(0, 60), st.just(0)).map(list),
                min_size=n, max_size=60) for n in (0, 58)])).map(
                lambda t: t[0] + t[1] + t[2])})


def strat(lo=1):
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted
    pitch = st.one_of(st.integers(57, 64), st.integers(57, 64),
                      st.sampled_from([0, 127, 1, 60.5, 60.25, 61.5]))
    op = weighted(
        (4, st.tuples(st.just('on'), pitch, st.floats(.01, 1.))),
        (3, st.tuples(st.just('off'), st.integers(0, 12), st.just(0))),
        (1, st.tuples(st.just('stray'), pitch, st.just(0))),
        (3, st.tuples(st.just('update'), st.just(1), st.just(0)))).map(list)
    # The same key pressed and released over and over
    taps = st.tuples(st.just('taps'), pitch, st.sampled_from(
        [3, 17, 100, 130, 300])).map(list)
    op = weighted((60, op), (1, taps))
    return st.fixed_dictionaries({
        'policy': st.sampled_from(['newest', 'oldest', 'lowest', 'highest',
                                   None]),
        'detune': st.floats(.5, 2.),
        'tuning': st.sampled_from(['equal', 'equal', 'inverse', 'any']),
        'ops': oplist(op, 60, lo=lo)})


def events(case):
    """Resolve operations to well formed events."""
    held = []
    for op, a, b in case['ops']:
        if op == 'on':
            if a in [h for h in held]:
                continue
            held.append(a)
            yield 'on', a, b
        elif op == 'off':
            if held:
                yield 'off', held.pop(a % len(held)), 0.
        elif op == 'stray':
            if a not in held:
                yield 'off', a, 0.
        elif op == 'taps':
            for _ in range(0 if a in held else b):
                yield 'on', a, .5
                yield 'off', a, 0.
                yield 'update', 0, 0.
        else:
            yield 'update', 0, 0.


def select(held, policy):
    if not held:
        return None
    if policy in (None, 'newest'):
        return held[-1]
    if policy == 'oldest':
        return held[0]
    return (min if policy == 'lowest' else max)(held, key=lambda x: x[0])


def make_voice(*adsr):
    """Voice which plays its frequency as a constant."""
    import numpy as np
    from klang.audio.envelopes import ADSR
    from klang.audio.voices import Voice
    from klang.block import Block

    class Osc(Block):
        def __init__(self):
            super().__init__(nInputs=1, nOutputs=1)
            self.frequency, = self.inputs
            self.frequency.set_value(0.)
            self.output.set_value(np.zeros(256))

        def update(self):
            self.output.set_value(np.full(256, float(self.frequency.value)))

        def __deepcopy__(self, memo):
            return Osc()

    return Voice(Osc(), ADSR(*(adsr or (0., 0., 1., 0.))))


def tune(case, pitch):
    """Frequency of a note, which need not follow its pitch."""
    tuning = case.get('tuning')
    if tuning == 'any':
        return 100. + 37. * pitch % 101
    if tuning == 'inverse':
        pitch = 127 - pitch
    return 440. * 2 ** ((pitch - 69) / 12.) * case.get('detune', 1.)


def check_synth(case, ctx):
    import numpy as np
    from klang.audio.synthesizer import MonophonicSynthesizer
    from klang.messages import Note
    from vlib.orc import close
    policy = case['policy']
    args = (policy,) if policy else ()
    synth = MonophonicSynthesizer(make_voice(), *args)
    held, most, offs, count = [], 0, 0, 0
    for op, pitch, vel in list(events(case)) + [('update', 0, 0.)]:
        count += 1
        if op == 'update':
            synth.update()
            note = select(held, policy)
            exp = note[1] * note[2] if note else 0.
            close(synth.output.value, np.full(256, exp),
                  'policy %s, held %s' % (policy, held))
            continue
        freq = tune(case, pitch)
        # Releases carry another frequency
        note = Note(pitch, vel, freq if op == 'on' else 1.5 * freq)
        if op == 'on':
            held.append((pitch, vel, freq))
        else:
            offs += any(h[0] == pitch for h in held)
            held = [h for h in held if h[0] != pitch]
        if count % 3:
            synth.input.push(note)
        else:
            # Keeps the order only if nothing waits
            if getattr(synth.input, 'queue', True):
                synth.input.push(note)
            else:
                synth.play_note(note)
        most = max(most, len(held))
    if most >= 3 and offs >= 2:
        ctx.hit(policy or 'default')


def check_sched(case, ctx):
    from klang.audio.synthesizer import NoteScheduler
    from klang.messages import Note
    policy = case['policy']
    sched = NoteScheduler(policy) if policy else NoteScheduler()
    held, most, offs = [], 0, 0
    for op, pitch, vel in events(case):
        if op == 'update':
            continue
        note = Note(pitch, vel, tune(case, pitch))
        if op == 'on':
            held.append((pitch, vel))
        else:
            offs += any(h[0] == pitch for h in held)
            held = [h for h in held if h[0] != pitch]
        got = sched.get_next_note(note)
        exp = select(held, policy)
        if exp:
            require((got.pitch, got.velocity) == exp and got.on, 'plays %s '
                    'instead of %s (policy %s, held %s)', got, exp, policy,
                    held)
        else:
            require(got.off and got.pitch == pitch, 'got %s though nothing is '
                    'held', got)
        most = max(most, len(held))
    if most >= 3 and offs >= 2:
        ctx.hit(policy or 'default')


def strat_voice():
    from hypothesis import strategies as st
    time = st.sampled_from([0., .003, .01, .02, .05])
    return st.fixed_dictionaries({
        'adsr': st.tuples(time, time, st.sampled_from([0., .3, .7, 1.]), time),
        'retrigger': st.sampled_from([True, True, False]),
        'case': strat(lo=5)})


def check_voice(case, ctx):
    """The voice of the synthesizer does what a voice does which only learns
    when another note begins to sound and when no note sounds any more.
    """
    from klang.audio.envelopes import ADSR
    from klang.audio.synthesizer import MonophonicSynthesizer
    from klang.audio.voices import Voice
    from klang.messages import Note
    from vlib.orc import close

    def voice():
        return Voice(make_voice().oscillator,
                     ADSR(*case['adsr'], retrigger=case['retrigger']))

    policy = case['case']['policy']
    synth = MonophonicSynthesizer(voice(), *((policy,) if policy else ()))
    ref = voice()
    held, hidden, strays = [], 0, 0
    for op, pitch, vel in list(events(case['case'])) + [('update', 0, 0.)]:
        if op == 'update':
            # A stage of some length is needed to see when it began
            for _ in range(3):
                synth.update()
                ref.update()
                close(synth.output.value, ref.output.value,
                      'policy %s, held %s' % (policy, held))
            continue
        before = select(held, policy)
        note = Note(pitch, vel, tune(case['case'], pitch))
        if op == 'on':
            held.append((pitch, vel, note))
        else:
            strays += not any(h[0] == pitch for h in held)
            held = [h for h in held if h[0] != pitch]
        synth.input.push(note)
        after = select(held, policy)
        if after is None:
            if before:
                ref.input.push(note)
        elif after is not before:
            ref.input.push(after[2])
        elif op == 'off':
            hidden += 1
    if hidden and case['retrigger']:
        ctx.hit('hidden notes released' + (', strays' if strays else ''))


TESTS = [
    Test('voice', strat_voice, check_voice, quick=400, thorough=20000),
    Test('synth', strat, check_synth, quick=500, thorough=30000),
    Test('scheduler', strat, check_sched, quick=800, thorough=60000),
    Test('many', strat_many, check_sched, quick=400, thorough=20000),
]
TESTS.append(together('C24'))
RULE += PAIRS
