"""Rendering a network offline and with the sound card."""
from vlib.common import Test, require

META = {
    'title': 'Audio engine renders every buffer of the network, in order, once',
    'statement': (
        'Running a network executes every reachable block exactly once per '
        'buffer, in dependency order and with the clock advanced by one '
        'buffer duration. Offline rendering writes all floor(duration * '
        'rate / 256) buffers of the output block to a WAV file, scaled to '
        'full range, faded out linearly, with channels packed in order from '
        'mono and multi channel inputs and silence where nothing is '
        'connected. The sound card callback does the same live: input '
        'samples are in the network before the blocks execute, status changes '
        'do not stop the stream, it completes once the duration is reached '
        'and is always closed, and missing channels abort it or are refused '
        'up front.'),
    'over': ['inputs', 'histories', 'configurations'],
    'quant': ('All networks, channel layouts, durations, fade outs and input '
              'buffers.'),
    'why': 'The engine has no test at all; it needs a sound card.',
    'files': ['klang/audio/klanggeber.py', 'klang/klang.py',
              'klang/execution.py', 'klang/clock.py', 'klang/progress_bar.py',
              'klang/audio/wavfile.py'],
    'state': ['playTime', 'capturedFrames', 'ClockMixin.currentTime'],
    'mechanism': [
        {'name': 'run_klang, unravel', 'where': 'klang/klang.py'},
        {'name': 'run_audio_engine, stream_callback, Dac.collect_samples, '
                 'Adc.inject_samples', 'where': 'klang/audio/klanggeber.py'}],
    'observe': ['WAV file', 'buffers handed to the sound card',
                'order of block updates'],
    'oracle': 'a reference rendering and a fake sound card',
}
RULE = ('Cases are a network of generated sources and relays, an output '
        'layout and a duration. Non-trivial: at least three non-silent buffers '
        'through a network with a relay.')
ASSUMPTIONS = ['PyAudio is replaced by a stand-in which drives the callback']


def network():
    from hypothesis import strategies as st
    from vlib.gens import weighted
    wire = st.sampled_from([-1, 0, 0, 1, 2, 3, 4])
    node = st.tuples(st.sampled_from(['mono', 'mono', 'mono', 'stereo', 'tri',
                                      'mono', 'stereo', 'seven']),
                     st.integers(0, 5), st.booleans()).map(list)
    return {'nodes': st.lists(node, min_size=1, max_size=5),
            'wires': weighted((4, st.lists(wire, min_size=1, max_size=3)),
                              (1, st.lists(wire, min_size=3, max_size=9))),
            'from': st.integers(0, 3), 'wrap': st.booleans()}


def strat_offline():
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        network(), buffers=st.one_of(st.integers(1, 12), st.integers(3, 12),
                                        st.integers(3, 12)),
        part=st.sampled_from([.01, .5, .99]),
        fade=st.one_of(st.just(0.), st.floats(.05, 14.))))


def build(case, log, adc=None):
    """Sources with relays; every block logs its update.

    Returns the dac, its expected input sources and a model function.
    """
    import numpy as np
    from klang.audio.klanggeber import Dac
    from klang.block import Block
    from klang.clock import ClockMixin
    from klang.composite import Composite
    from klang.connections import Relay as WRelay
    shapes = {'mono': (256,), 'stereo': (2, 256), 'tri': (3, 256),
              'seven': (7, 256)}

    class Source(Block):
        def __init__(self, i, kind, seed):
            super().__init__(nOutputs=1)
            self.i, self.kind, self.seed, self.n = i, kind, seed, 0

        def update(self):
            log.append(('s', self.i, ClockMixin.clock()))
            self.output.set_value(render(self.i, self.n))
            self.n += 1

    class Relay(Block):
        def __init__(self, i):
            super().__init__(nInputs=1, nOutputs=1)
            self.i = i

        def update(self):
            log.append(('r', self.i, ClockMixin.clock()))
            self.output.set_value(.5 * self.input.value)

    class Wrapper(Composite):
        def __init__(self, block):
            super().__init__()
            self.inputs.append(WRelay(owner=self))
            self.outputs.append(WRelay(owner=self))
            self.input.connect(block.input)
            block.output.connect(self.output)
            self.update_internal_exec_order()

    def render(i, n):
        kind, seed, _ = case['nodes'][i]
        t = np.arange(256. * (len(shapes[kind]) > 1 and shapes[kind][0] or 1))
        return np.sin(t * (.7 + .31 * seed + .013 * n) + i).reshape(
            shapes[kind])

    nodes, blocks = case['nodes'], []
    for i, (kind, seed, relay) in enumerate(nodes):
        src = Source(i, kind, seed)
        if adc is not None and i < len(adc.outputs):
            src = adc.outputs[i]
            log_src = None
        else:
            src = src.output
        if relay:
            rel = Relay(i)
            outer = rel
            if case['wrap']:
                outer = Wrapper(rel)
            src.connect(outer.input)
            blocks.append(outer.output)
        else:
            blocks.append(src)
    dac = Dac(len(case['wires']))
    wires = [w % len(nodes) if w >= 0 else -1 for w in case['wires']]
    for inp, w in zip(dac.inputs, wires):
        if w >= 0:
            blocks[w].connect(inp)
    used = sorted(set(w for w in wires if w >= 0))

    def expected(values):
        """Channels of the dac given source values."""
        chans = []
        for w in wires:
            val = np.zeros(256) if w < 0 else \
                values[w] * (.5 if nodes[w][2] else 1.)
            chans.extend([val] if val.ndim == 1 else list(val))
        return np.array(chans[:len(wires)]).T

    return dac, used, render, expected


def quiet(ctx):
    """Progress bar and log output of the engine go nowhere."""
    import io
    import logging
    from klang.progress_bar import ProgressBar
    old = ProgressBar.stream
    ProgressBar.stream = io.StringIO()

    def restore():
        ProgressBar.stream = old
    ctx.defer(restore)
    logging.getLogger('KlangGeber').setLevel(logging.CRITICAL + 1)
    logging.getLogger('Klang').setLevel(logging.CRITICAL + 1)


def check_log(log, used, nodes, n, adc=0):
    """Every used block once per buffer, sources first, clock monotonic."""
    from vlib.orc import near
    per = []
    for i in used:
        if i >= adc:
            per.append(('s', i))
        if nodes[i][2]:
            per.append(('r', i))
    require(len(log) == n * len(per), '%d block updates in %d buffers of a '
            'network with %d blocks', len(log), n, len(per))
    for k in range(n):
        part = log[k * len(per):(k + 1) * len(per)]
        names = [(a, b) for a, b, _ in part]
        require(sorted(names) == sorted(per), 'buffer %d executed %s instead '
                'of %s', k, names, per)
        for i in used:
            if nodes[i][2] and i >= adc:
                require(names.index(('s', i)) < names.index(('r', i)),
                        'relay executed before its source')
        for _, _, t in part:
            require(near(t, k * 256 / 44100., 1e-8), 'clock is %r in buffer '
                    '%d', t, k)


def check_offline(case, ctx):
    import os
    import tempfile
    import wave
    import numpy as np
    from klang.klang import run_klang
    from vlib.orc import close
    quiet(ctx)
    log = []
    dac, used, render, expected = build(case, log)
    fd, path = tempfile.mkstemp('.wav')
    os.close(fd)
    ctx.defer(os.remove, path)
    n = case['buffers']
    interval = 256 / 44100.
    duration = (n + case['part']) * interval
    fade = case['fade'] * interval
    # Any block of the network can be handed over
    start = dac
    if used and case['from']:
        for inp in dac.inputs:
            if inp.incomingConnection:
                start = inp.incomingConnection.owner
    run_klang(start, duration=duration, fadeout=fade, filepath=path,
              offline=True)
    check_log(log, used, case['nodes'], n)
    rows = []
    for k in range(n):
        vals = [render(i, k) for i in range(len(case['nodes']))]
        rows.append(expected(vals))
    exp = np.concatenate(rows)
    t = np.arange(len(exp)) / 44100.
    if fade:
        left = (duration - t) / fade
        # Fade may start late, at a border of a buffer (the envelope is 1
        # before it anyway)
        exp = exp * np.clip(left, 0., 1.)[:, None]
    with wave.open(path, 'rb') as fh:
        raw = np.frombuffer(fh.readframes(-1), '<i2')
        require((fh.getnchannels(), fh.getnframes(), fh.getframerate())
                == (exp.shape[1], len(exp), 44100), 'file of %d channels, %d '
                'frames, rate %d', fh.getnchannels(), fh.getnframes(),
                fh.getframerate())
    peak = np.abs(exp).max()
    close(raw.reshape(exp.shape) / 32767., exp / (peak or 1.),
          'rendered file', tol=1.5 / 32767 + 1e-6)
    if n >= 3 and any(case['nodes'][i][2] for i in used):
        ctx.hit('fade' if fade else 'plain')


def strat_live():
    from hypothesis import strategies as st
    from vlib.gens import weighted
    return st.fixed_dictionaries(dict(
        network(), buffers=weighted(
            (15, st.integers(1, 10)), (15, st.integers(3, 10)),
            (1, st.integers(100, 1200))), adc=st.booleans(),
        status=st.lists(st.sampled_from([0, 0, 0, 2, 4, 12345]), min_size=10,
                        max_size=10),
        fade=st.one_of(st.just(0.), st.floats(.05, 9.)),
        seed=st.integers(0, 999), file=st.booleans(),
        end=weighted((6, st.just('duration')), (1, st.just('stop')),
                     (1, st.just('interrupt')), (1, st.just('scalar')),
                     (1, st.just('exact')), (1, st.just('error')),
                     (1, st.just('lost')),
                     (1, st.just('inputs')), (1, st.just('outputs')))))


def check_live(case, ctx):
    import os
    import tempfile
    import numpy as np
    import pyaudio
    from klang.audio import klanggeber
    from klang.audio.klanggeber import Adc
    from klang.klang import run_klang
    from vlib.orc import close
    quiet(ctx)
    log, n, end = [], case['buffers'], case['end']
    if end == 'exact':
        # Sums of the buffer duration are exact up to here
        n = 1 + n % 2
    nch = len(case['wires'])
    adc = Adc(nch) if case['adc'] else None
    dac, used, render, expected = build(case, log, adc)
    nadc = nch if adc else 0
    rng = np.random.RandomState(case['seed'])
    # Devices may deliver more than full scale
    amp = 1. if case['seed'] % 3 else 2.
    feed = rng.uniform(-amp, amp, (n + 30, 256, nch)).astype(np.float32)
    # Some channels are silent now and then
    feed *= rng.random_sample((n + 30, 1, nch)) > .25
    events, outs, flags = [], [], []
    has_adc = adc is not None and any(i < nadc for i in used)

    class Stream:
        def __init__(self, callback):
            self.callback = callback
            self.active = False

        def start_stream(self):
            self.active = True
            for k in range(n + 20):
                if end == 'stop' and k == n:
                    break
                if end == 'interrupt' and k == n:
                    raise KeyboardInterrupt
                if end == 'error' and k == n:
                    raise OSError('Device error')
                if end == 'lost' and k == n:
                    return
                if end == 'scalar' and k == n:
                    for inp in dac.inputs:
                        if inp.incomingConnection:
                            inp.incomingConnection.disconnect(inp)
                        inp.set_value(0.)
                data = feed[k].tobytes() if has_adc else None
                out, flag = self.callback(data, 256, {'current_time': 0.},
                                          case['status'][k % 10])
                out = np.asarray(out)
                require(out.dtype == np.float32, 'output of type %s',
                        out.dtype)
                require(out.flags['C_CONTIGUOUS'], 'output not contiguous')
                require(out.shape == (256, nch), 'output of shape %s',
                        out.shape)
                outs.append(out.copy())
                flags.append(flag)
                if flag != pyaudio.paContinue:
                    break
            self.active = False

        def is_active(self):
            if end == 'lost':
                raise OSError('Device lost')
            return self.active

        def stop_stream(self):
            events.append('stop')

        def close(self):
            events.append('close')

    class Fake:
        def __init__(self):
            events.append('init')

        def get_default_input_device_info(self):
            return {'maxInputChannels': nch - 1 if end == 'inputs' else nch}

        def get_default_output_device_info(self):
            return {'maxOutputChannels': nch - 1 if end == 'outputs' else nch}

        def open(self, *args, **kw):
            require(kw['rate'] == 44100 and kw['channels'] == nch
                    and kw['frames_per_buffer'] == 256
                    and kw['format'] == pyaudio.paFloat32, 'stream opened '
                    'with %s', sorted(kw))
            require(kw['output'] and bool(kw['input']) == has_adc,
                    'stream directions')
            return Stream(kw['stream_callback'])

        def terminate(self):
            events.append('terminate')

    ctx.swap(pyaudio, 'PyAudio', Fake)
    interval = 256 / 44100.
    endless = end not in ('duration', 'exact')
    # Stream completes with the buffer which reaches the duration
    duration = float('inf') if endless else (
        n if end == 'exact' else n - .5) * interval
    fade = 0. if endless else case['fade'] * interval
    kwargs = {'duration': duration, 'fadeout': fade}
    if case['file']:
        fd, path = tempfile.mkstemp('.wav')
        os.close(fd)
        ctx.defer(os.remove, path)
        kwargs['filepath'] = path
    refused = end == 'outputs' or end == 'inputs' and has_adc
    if refused:
        try:
            run_klang(dac, **kwargs)
        except ValueError:
            require(not outs, 'sound on a refused device')
            ctx.label('refused')
            return
        require(False, 'device with too few channels was accepted')
    if end == 'inputs':
        return
    try:
        run_klang(dac, **kwargs)
    except OSError:
        require(end in ('error', 'lost'), 'OSError')
        kwargs.pop('filepath', None)
    require(sorted(events[-3:]) == ['close', 'stop', 'terminate'],
            'stream not closed: %s', events)
    if end == 'scalar':
        require(flags[-1] == pyaudio.paAbort, 'missing channels did not abort '
                'the stream: %s', flags)
        require(not np.any(outs.pop()), 'sound after missing channels')
        flags.pop()
        log[:] = log[:len(outs) * (len(log) // (len(outs) + 1))]
    require(len(outs) == n, '%d buffers instead of %d', len(outs), n)
    if not endless:
        require(flags[-1] == pyaudio.paComplete, 'stream not completed: %s',
                flags)
        flags.pop()
    require(set(flags) <= {pyaudio.paContinue}, 'flags %s', flags)
    if end != 'scalar':
        # All outputs of the adc are reachable
        reach = sorted(set(used) | set(range(min(nadc, len(
            case['nodes']))))) if has_adc else used
        check_log(log, reach, case['nodes'], n, nadc)
    exp = []
    for k in range(n):
        vals = [feed[k][:, i].astype(float) if i < nadc else
                render(i, k - 0) for i in range(len(case['nodes']))]
        exp.append(expected(vals))
    exp = np.concatenate(exp)
    if fade:
        t = np.arange(len(exp)) / 44100.
        exp = exp * np.clip((duration - t) / fade, 0., 1.)[:, None]
    close(np.concatenate(outs), exp, 'sound card output', tol=1e-6)
    if 'filepath' in kwargs:
        from klang.audio.wavfile import load_wave
        rate, data = load_wave(path)
        peak = np.abs(exp).max()
        close(data, exp / (peak or 1.), 'captured file', tol=3. / 32767)
    if n >= 3 and used:
        ctx.hit('adc' if has_adc else 'no adc')
        ctx.label(end)


TESTS = [
    Test('offline', strat_offline, check_offline, quick=400, thorough=20000),
    Test('live', strat_live, check_live, quick=400, thorough=20000),
]
