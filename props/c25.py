"""Polyphonic synthesizer and drums."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Poly synth: no stuck or lost notes; drums follow their triggers',
    'statement': (
        'The polyphonic synthesizer sounds each of the 24 newest notes until it '
        'is released, each with its own frequency and velocity, summed and '
        'divided by 24; every release ends all notes of its pitch and no '
        'other, even if press and release arrive within the same buffer, so '
        'that nothing sounds once all is released. Voices never influence each '
        'other and decay with their own envelope. Hi-hat and kick restart with '
        'every trigger, the hi-hat as noise below its decay envelope and '
        'silent before, the kick as a sine without jumps whose pitch settles '
        'to its frequency below an exponentially decaying level.'),
    'over': ['histories', 'configurations'],
    'quant': 'All histories of note events with any distribution over buffers.',
    'why': 'No test covers the polyphonic synthesizer or the drums.',
    'files': ['klang/audio/synthesizer.py', 'klang/audio/voices.py',
              'klang/audio/envelopes.py'],
    'state': ['PolyphonicSynthesizer.freeVoice', 'Voice.currentPitch',
              'Kick.currentTime', 'Kick.currentPhase'],
    'mechanism': [
        {'name': 'PolyphonicSynthesizer.process_note, update, duplicate_voice',
         'where': 'klang/audio/synthesizer.py'},
        {'name': 'Voice.process_incoming_notes, Voice.__deepcopy__',
         'where': 'klang/audio/voices.py'},
        {'name': 'HiHat.update, Kick.update',
         'where': 'klang/audio/synthesizer.py'}],
    'observe': ['synthesizer output'],
}
RULE = ('Cases are a history of note events. Non-trivial: at least three '
        'notes at once and two releases; three triggers for drums.')


def strat_poly():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted
    pitch = st.one_of(st.integers(55, 66), st.integers(1, 127),
                      st.integers(55, 66), st.sampled_from([60.5, 60.25]))
    op = weighted(
        (4, st.tuples(st.just('on'), pitch, st.floats(.01, 1.))),
        (2, st.tuples(st.just('off'), st.integers(0, 30), st.just(0))),
        (1, st.tuples(st.just('stray'), pitch, st.just(0))),
        (1, st.tuples(st.just('chord'), pitch, st.integers(2, 12))),
        (3, st.tuples(st.just('update'), st.just(1), st.just(0)))).map(list)
    return st.fixed_dictionaries({
        'release': st.sampled_from([0., 0., 0., .05]),
        'twin': st.sampled_from([0, 0, 1, 2]),
        'ops': oplist(op, 60)})


def check_poly(case, ctx):
    import numpy as np
    from klang.audio.envelopes import ADSR
    from klang.audio.synthesizer import PolyphonicSynthesizer
    from klang.messages import Note
    from props.c24 import make_voice
    from vlib.orc import close
    soft = case['release'] > 0
    voice = make_voice(*((.01, .01, .5, case['release']) if soft else ()))
    synth = PolyphonicSynthesizer(voice)
    # Another one made of the same voice, before or after
    twin = case.get('twin') and PolyphonicSynthesizer(voice)
    if case.get('twin') == 1:
        synth, twin = twin, synth
    slots, nxt, most, offs = [None] * 24, 0, 0, 0
    sounds = []  # Envelope and level of the first 24 notes

    def push(pitch, vel):
        nonlocal nxt, offs
        freq = 440. * 2 ** ((pitch - 69) / 12.)
        synth.input.push(Note(pitch, vel, freq))
        if vel:
            slots[nxt] = (pitch, vel, freq)
            nxt = (nxt + 1) % 24
            env = ADSR(.01, .01, .5, case['release'])
            env.gate(True)
            sounds.append((pitch, vel * freq, env))
        else:
            for i, slot in enumerate(slots):
                if slot and slot[0] == pitch:
                    slots[i] = None
                    offs += 1
            for was, _, env in sounds:
                if was == pitch:
                    env.gate(False)

    def update():
        synth.update()
        if twin:
            twin.update()
            voice.update()
            require(not np.any(twin.output.value) and not np.any(
                voice.output.value), 'sounds in another synthesizer of the '
                'same voice')
        out = np.asarray(synth.output.value)
        exp = sum(s[1] * s[2] for s in slots if s) / 24.
        if not soft:
            close(out, np.full(256, exp), 'sounding %s' % [
                s[0] for s in slots if s], tol=1e-7)
        else:
            require(out.shape == (256,), 'output of shape %s', out.shape)
            if len(sounds) <= 24:
                exp = np.zeros(256)
                for _, level, env in sounds:
                    env.update()
                    exp += level * env.output.value / 24.
                close(out, exp, 'soft notes %s' % [s[0] for s in sounds],
                      tol=1e-7)
        return out

    for op, a, b in case['ops']:
        if op == 'on':
            push(a, b)
        elif op == 'chord':
            for i in range(b):
                push((a + i * 5) % 126 + 1, .5)
        elif op == 'off':
            sounding = [s for s in slots if s]
            if sounding:
                push(sounding[a % len(sounding)][0], 0.)
        elif op == 'stray':
            push(a, 0.)
        else:
            update()
        most = max(most, sum(s is not None for s in slots))
    if soft:
        # Settle, then it is the sustained chord; silent after all releases
        for _ in range(24):
            out = update()
        close(out, np.full(256, .5 * sum(s[1] * s[2] for s in slots if s)
                           / 24.), 'sustained %s' % [
                               s[0] for s in slots if s], tol=1e-2, rtol=1e-2)
    for slot in list(slots):
        if slot:
            push(slot[0], 0.)
    for _ in range(24 if soft else 1):
        out = update()
    require(np.abs(out).max() <= (1e-9 if not soft else 1e-3) * 24,
            'still sounds at %r after everything was released',
            float(np.abs(out).max()))
    if most >= 3 and offs >= 2:
        ctx.hit('soft' if soft else 'gate')
        if most == 24:
            ctx.label('all voices')


def strat_drum():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted
    op = weighted((2, st.just('on')), (1, st.just('off')),
                  (1, st.just('onon')), (4, st.just('update')))
    return st.fixed_dictionaries({
        'drum': st.sampled_from(['hihat', 'loop', 'kick', 'kick']),
        'decay': st.floats(.005, 1.), 'freq': st.floats(20., 200.),
        'intensity': st.floats(0., 5.), 'pdecay': st.floats(.01, 1.),
        'ops': oplist(op, 30, lo=3)})


def check_drum(case, ctx):
    import numpy as np
    from klang.audio.envelopes import D
    from klang.audio.synthesizer import HiHat, Kick
    from klang.messages import Note
    from vlib.orc import close
    kick = case['drum'] == 'kick'
    twin = None
    if kick:
        drum = Kick(case['freq'], case['decay'], case['intensity'],
                    case['pdecay'])
    else:
        drum = HiHat(case['decay'], loopedNoise=case['drum'] == 'loop')
        twin = D(case['decay'])
    trig, t, first, run = 0, None, None, []
    noise = np.full(256, np.nan)
    for op in case['ops']:
        if op != 'update':
            for vel in {'on': [1.], 'off': [0.], 'onon': [1., .5]}[op]:
                note = Note(60, vel)
                drum.input.push(note)
                if twin:
                    twin.input.push(note)
                if vel:
                    trig += 1
                    t = 0
            continue
        drum.update()
        out = np.array(drum.output.value)
        if twin:
            twin.update()
            env = np.array(twin.output.value)
            require(out.shape == (256,), 'shape %s', out.shape)
            require(np.all(np.abs(out) <= env + 1e-12), 'hi-hat above its '
                    'envelope')
            if not trig:
                require(not out.any(), 'hi-hat sounds without a trigger')
            good = env > 1e-3
            if good.all():
                require(np.std(out / env) > .3, 'hi-hat does not sound')
            if case['drum'] == 'loop':
                both = good & ~np.isnan(noise)
                ratio = out[good] / env[good]
                close((out / np.where(good, env, 1.))[both], noise[both],
                      'looped noise', tol=1e-6)
                noise[good] = ratio
        elif t is not None:
            sec = (t + np.arange(256)) / 44100.
            env = np.exp(-np.pi * sec / case['decay'])
            require(out.shape == (256,), 'shape %s', out.shape)
            require(np.all(np.abs(out) <= env * (1 + 1e-9)), 'kick above its '
                    'exponential decay')
            if t == 0:
                run = []
                require(abs(out[0]) < 1e-9, 'kick starts at %r', float(out[0]))
                if first is not None:
                    close(out, first, 'restarted kick', tol=1e-9)
                first = out
            run.append(out / env)
            if t:
                # Steepest slope of the sine at its highest pitch
                bound = 2 * np.pi * case['freq'] / 44100. * (
                    1 + 2 * case['intensity'])
                jump = np.abs(np.diff(np.concatenate(run[-2:]))).max()
                require(jump <= 1.01 * bound + 1e-9, 'kick jumps by %r', jump)
            t += 256
    if kick:
        # Settled pitch is the base frequency
        drum.input.push(Note(60, 1.))
        skip = int(3 * case['pdecay'] * 44100 / 256) + 1
        count = int(10 / case['freq'] * 44100 / 256) + 1
        out = []
        for i in range(skip + count):
            drum.update()
            if i == 0 and first is not None:
                close(drum.output.value, first, 'restarted kick')
            sec = (i * 256 + np.arange(256)) / 44100.
            env = np.exp(-np.pi * sec / case['decay'])
            if env[-1] < 1e-200:
                break
            if i >= skip:
                out.extend((np.array(drum.output.value) / env).tolist())
        out = np.array(out)
        crossings = np.sum(out[1:] * out[:-1] < 0)
        exp = 2 * case['freq'] * len(out) / 44100.
        require(abs(crossings - exp) <= 2 + .01 * exp, '%d zero crossings '
                'instead of about %.1f of a %r Hz kick', crossings, exp,
                case['freq'])
        if len(out) > 256:
            require(np.abs(out).max() > .9, 'kick does not reach its level')
    if trig >= 3:
        ctx.hit(case['drum'])


TESTS = [
    Test('poly', strat_poly, check_poly, quick=400, thorough=20000),
    Test('drums', strat_drum, check_drum, quick=400, thorough=20000),
]
TESTS.append(together('C25'))
RULE += PAIRS
