"""Mixers."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Mixers output the gain and panning weighted mean of all channels',
    'statement': (
        'A mono mixer outputs the sum of its channels, each scaled with its '
        'gain, divided by the number of channels. A stereo mixer does so for '
        'left and right with each channel also weighted by its panning '
        'amplitudes, for mono and stereo channels alike; without channels '
        'the output is silence. This holds in every cycle with the gains, pannings '
        'and channels of that cycle, and mixing alters neither the channel '
        'signals nor earlier outputs.'),
    'over': ['histories', 'inputs'],
    'quant': ('All sequences of cycles with changing signals, gains and '
              'pannings and with channels added in between, for mono and '
              'stereo mixers in all panning modes.'),
    'why': ('Tests check only how mixers are wired by operators, never a '
            'single output sample.'),
    'files': ['klang/audio/mixer.py', 'klang/audio/panning.py'],
    'mechanism': [{'name': 'Mixer.update, StereoMixer.update',
                   'where': 'klang/audio/mixer.py'}],
    'observe': ['output value after update()'],
}
RULE = ('Cases are mixer configurations with a history of cycles. '
        'Non-trivial: at least two channels with signals and a gain, panning '
        'or channel change between cycles.')


def strat():
    from hypothesis import strategies as st
    from vlib.gens import bipolar, signals
    gain = st.one_of(st.sampled_from([0., 1., -1., .5]), st.floats(-4., 4.))
    value = st.one_of(
        signals(256),
        st.builds(lambda a, b: {'st': [a, b]}, signals(256), signals(256)),
        st.floats(-2., 2.))
    cycle = st.fixed_dictionaries({
        'values': st.lists(value, min_size=6, max_size=6),
        'gains': st.one_of(st.none(), st.lists(gain, min_size=6, max_size=6)),
        'pans': st.one_of(st.none(), st.lists(bipolar(), min_size=6,
                                              max_size=6)),
        'add': st.sampled_from([0, 0, 0, 1, 2]),
        'swap': st.sampled_from([0, 0, 1, 2, 3]),
        'addargs': st.tuples(gain, bipolar()).map(list),
        'addmode': st.sampled_from(['default', 'args', 'op'])})
    return st.fixed_dictionaries({
        'stereo': st.booleans(), 'n': st.integers(0, 4),
        'gains': st.one_of(st.none(), st.lists(gain, min_size=4, max_size=4)),
        'pans': st.one_of(st.none(), st.lists(bipolar(), min_size=4,
                                              max_size=4)),
        'mode': st.sampled_from(['constant_power', 'linear', 'mixture']),
        'law': st.sampled_from([None, None, 0., -3., -6.]),
        'cycles': st.lists(cycle, min_size=1, max_size=3)})


def pan_amps(p, mode, law):
    """Left / right amplitudes, from scratch."""
    import math
    p = max(-1., min(1., p))
    ang = (p + 1.) * math.pi / 4.
    lin = [(1. - p) / 2., (1. + p) / 2.]
    pwr = [max(0., math.cos(ang)), max(0., math.sin(ang))]
    if mode == 'linear':
        amps, centre = lin, .5
    elif mode == 'constant_power':
        amps, centre = pwr, math.sqrt(.5)
    else:
        amps = [math.sqrt(a * b) for a, b in zip(lin, pwr)]
        centre = math.sqrt(.5 * math.sqrt(.5))
    if law is None:
        return amps
    target = 10. ** ((law - 20. * math.log10(2.)) / 40.)
    expo = math.log(target) / math.log(centre)
    return [a ** expo if a > 0 else 0. for a in amps]


def check(case, ctx):
    import numpy as np
    from klang.audio.mixer import Mixer, StereoMixer
    from klang.connections import Output
    from vlib.orc import close, dress, signal
    n = case['n']
    gains = case['gains'][:n] if case['gains'] else None
    pans = case['pans'][:n] if case['pans'] else None
    if case['stereo']:
        mixer = StereoMixer(
            n, gains=list(gains) if gains else gains,
            pannings=list(pans) if pans else pans, mode=case['mode'],
            panLaw=case['law'])
    else:
        mixer = Mixer(n, gains=list(gains) if gains else gains)
    gains = list(gains or n * [1.])
    pans = list(pans or n * [0.])
    sources = []

    def feed(i):
        out = Output()
        out.connect(mixer.inputs[i])
        sources.append(out)

    for i in range(n):
        feed(i)
    earlier = []
    changed = False
    for num, cyc in enumerate(case['cycles']):
        for _ in range(cyc['add']):
            if len(gains) >= 6:
                break
            changed = changed or num > 0
            if cyc['addmode'] == 'args':
                if case['stereo']:
                    mixer.add_new_channel(*cyc['addargs'])
                else:
                    mixer.add_new_channel(cyc['addargs'][0])
                gains.append(cyc['addargs'][0])
                pans.append(cyc['addargs'][1])
                feed(len(gains) - 1)
            elif cyc['addmode'] == 'op':
                out = Output()
                mixer += out
                sources.append(out)
                gains.append(1.)
                pans.append(0.)
            else:
                mixer.add_new_channel()
                gains.append(1.)
                pans.append(0.)
                feed(len(gains) - 1)
        k = len(gains)
        if cyc['gains'] and num:
            for i in range(k):
                mixer.gains[i] = gains[i] = cyc['gains'][i]
            changed = True
        if cyc['pans'] and num and case['stereo']:
            for i in range(k):
                mixer.pannings[i] = pans[i] = cyc['pans'][i]
            changed = True
        if cyc.get('swap') and num and k > 1:
            # Two channels swap their settings
            for a, b in ((gains, mixer.gains), (pans, getattr(
                    mixer, 'pannings', None)))[:1 + case['stereo']]:
                i, j = k - 1, (cyc['swap'] - 1) % (k - 1)
                a[i], a[j] = a[j], a[i]
                b[i], b[j] = b[j], b[i]
            changed = True
        exp = np.zeros((2, 256) if case['stereo'] else 256)
        given = []
        for i in range(k):
            val = cyc['values'][i]
            if isinstance(val, dict):
                if 'st' in val:
                    if case['stereo']:
                        val = np.array([signal(v) for v in val['st']])
                    else:
                        val = signal(val['st'][0])
                else:
                    val = signal(val)
                val = dress(val, i)
            sources[i].set_value(val)
            given.append((val, np.array(val, copy=True)))
            if case['stereo']:
                amps = np.array(pan_amps(pans[i], case['mode'],
                                         case['law']))[:, None]
                exp = exp + gains[i] * amps * val
            else:
                exp = exp + gains[i] * val
        if k > 1:
            exp = exp / k
        mixer.update()
        got = mixer.output.value
        close(got, exp, 'cycle %d of %d channels' % (num, k), tol=1e-7)
        for i, (val, copy) in enumerate(given):
            require(np.array_equal(val, copy),
                    'signal of channel %d was altered', i)
        for j, (val, copy) in enumerate(earlier):
            require(np.array_equal(val, copy),
                    'output of cycle %d changed later on', j)
        earlier.append((got, np.array(got, copy=True)))
        if k > 1:
            ctx.label('stereo' if case['stereo'] else 'mono')
        if k > 1 and changed:
            ctx.hit()


def strat_wide():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'stereo': st.booleans(), 'n': st.integers(5, 150),
        'op': st.integers(0, 40), 'gains': st.booleans(),
        'seed': st.integers(0, 9999), 'edits': st.lists(st.tuples(
            st.integers(0, 200), st.floats(-2., 2.), st.floats(-1., 1.)
        ).map(list), max_size=4)})


def check_wide(case, ctx):
    """Mixing desks with many channels."""
    import numpy as np
    from klang.audio.mixer import Mixer, StereoMixer
    from klang.block import Block
    from vlib.orc import close
    n = case['n']
    rng = np.random.RandomState(case['seed'])
    gains, pans = n * [1.], n * [0.]
    kwargs = {}
    if case['gains']:
        gains = list(rng.uniform(-1., 1., n))
        kwargs['gains'] = list(gains)
        if case['stereo']:
            pans = list(rng.uniform(-1., 1., n))
            kwargs['pannings'] = list(pans)
    mixer = (StereoMixer if case['stereo'] else Mixer)(n, **kwargs)
    sources = [Block(nOutputs=1) for _ in range(n + case['op'])]
    for src, inp in zip(sources, mixer.inputs):
        src.output.connect(inp)
    for src in sources[n:]:
        mixer += src
        gains.append(1.)
        pans.append(0.)
    require(len(mixer.inputs) == len(gains), '%d channels instead of %d',
            len(mixer.inputs), len(gains))
    k = len(gains)
    for cycle in range(2):
        exp = np.zeros((2, 256) if case['stereo'] else 256)
        for i, src in enumerate(sources):
            val = rng.uniform(-1., 1., 256)
            src.output.set_value(val)
            if case['stereo']:
                val = np.array(pan_amps(pans[i], 'constant_power', None))[
                    :, None] * val
            exp = exp + gains[i] * val / k
        mixer.update()
        close(mixer.output.value, exp, 'cycle %d of %d channels' % (cycle, k),
              tol=1e-7)
        for i, gain, pan in case['edits']:
            mixer.gains[i % k] = gains[i % k] = gain
            if case['stereo']:
                mixer.pannings[i % k] = pans[i % k] = pan
    if case['edits']:
        ctx.hit('many')


TESTS = [
    Test('mixing', strat, check, quick=1200, thorough=40000),
    Test('many', strat_wide, check_wide, quick=60, thorough=3000),
]
TESTS.append(together('C07'))
RULE += PAIRS
