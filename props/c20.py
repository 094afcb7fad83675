"""Sample playback."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Sample playback: trimmed, looped, resampled audio, nothing lost',
    'statement': (
        'A Sample hands out exactly the frames of its trimmed range in order: '
        'once when it is not looped, endlessly and in order when it is, '
        'restarting at the range start after a rewind; an invalid range is refused '
        'and changes nothing; resampled playback '
        'keeps the channel count, stays within the values of the data and '
        'lasts length / rate / playback speed. An AudioFile block plays its '
        'file (the mean of its channels if opened as mono) completely as (256,) '
        'mono or (n, 256) n channel buffers while it is playing and silence '
        'otherwise; pause keeps the position, stop and '
        'rewind return to the start, and position and duration are reported '
        'in seconds.'),
    'over': ['inputs', 'histories', 'configurations'],
    'quant': ('All sample data, ranges, loop flags, rates, speeds, resampler '
              'modes and interleavings of reads, rewinds, trims and transport '
              'commands.'),
    'why': 'One looped and one unlooped callback is tested, no block.',
    'files': ['klang/audio/sampling.py', 'klang/audio/wavfile.py'],
    'state': ['Sample.currentIndex', 'AudioFile.playing'],
    'mechanism': [
        {'name': 'Sample.callback, Sample.trim, CrudeResampler.read',
         'where': 'klang/audio/sampling.py'},
        {'name': 'AudioFile.update, play, pause, stop, rewind',
         'where': 'klang/audio/sampling.py'}],
    'observe': ['Sample.callback()', 'Sample.read()', 'AudioFile.output'],
}
RULE = ('Cases are sample data, a configuration and a history of reads and '
        'transport commands. Non-trivial: the end of the range is reached or '
        'wrapped and at least one command follows a read.')
ASSUMPTIONS = ['the samplerate library is trusted: its linear mode delays by '
               'one frame and its sinc modes ring']


def strat_callback():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted
    op = weighted(
        (6, st.tuples(st.just('read'), st.integers(0, 90))),
        (1, st.tuples(st.just('read'), st.sampled_from([256, 700]))),
        (1, st.tuples(st.just('rewind'), st.just(0))),
        (1, st.tuples(st.just('loop'), st.booleans())),
        (1, st.tuples(st.just('bad trim'), st.tuples(
            st.integers(0, 100), st.integers(0, 100)).map(list))),
        (1, st.tuples(st.just('trim'), st.tuples(
            st.integers(0, 100), st.integers(1, 100)).map(list)))).map(list)
    return st.fixed_dictionaries({
        'n': st.integers(3, 100), 'ch': st.sampled_from([0, 1, 2]),
        'range': st.tuples(st.integers(0, 100),
                           st.integers(1, 100)).map(list),
        'loop': st.booleans(), 'ops': oplist(op, 25)})


def check_callback(case, ctx):
    import numpy as np
    from klang.audio.sampling import Sample
    n, ch = case['n'], case['ch']
    data = np.arange(n) / 128.
    if ch:
        data = data[:, None] + 10. * np.arange(ch)

    def clean(rng):
        a = rng[0] % n
        b = a + 1 + (rng[1] - 1) % (n - a)
        return a, b

    a, b = clean(case['range'])
    sample = Sample(44100, data, start=a, stop=b, loop=case['loop'])
    loop, pos = case['loop'], a
    wrapped, ended, cmds, read = 0, False, 0, False
    for op, arg in case['ops']:
        if op == 'read':
            read = True
            exp = []
            for _ in range(arg):
                if loop and pos >= b:
                    pos = a + (pos - b)
                    wrapped += 1
                if pos >= b:
                    break
                exp.append(pos)
                pos += 1
            got = np.asarray(sample.callback(arg))
            require(got.shape == (len(exp),) + data.shape[1:],
                    'read of %d frames at %d in [%d, %d) gave shape %s instead '
                    'of %d frames', arg, pos, a, b, got.shape, len(exp))
            require(np.array_equal(got, data[exp] if exp else got),
                    'frames %s instead of %s (range [%d, %d), loop %s)',
                    np.round((got.T[:1].ravel() if ch else got) * 128).astype(
                        int).tolist()[:20], exp[:20], a, b, loop)
            ended = ended or pos >= b
        else:
            cmds += read
            if op == 'bad trim':
                # Empty, the wrong way round, too long
                lo, hi = sorted(v % n for v in arg)
                for args in ((hi, lo), (lo, n + 1 + hi), (lo - n, hi)):
                    if not args[1]:
                        continue  # (the end of the data)
                    try:
                        sample.trim(*args)
                    except (AssertionError, ValueError):
                        continue
                    require(False, 'range %s of %d frames accepted', args, n)
            elif op == 'rewind':
                sample.rewind()
                pos = a
            elif loop and pos in (a, b) and (op == 'trim' or not arg):
                # Start and end are the same position, but only in a loop
                sample.rewind()
                pos = a
            if op == 'loop':
                sample.loop = loop = arg
            elif op == 'trim':
                a, b = clean(arg)
                # Default boundaries and fractions now and then
                if a == 0:
                    sample.trim(stop=b)
                elif b == n:
                    sample.trim(a)
                elif a % 4 == 1:
                    sample.trim(a + .75, b + (.5 if b < n else 0.))
                else:
                    sample.trim(a, b)
                pos = min(max(pos, a), b)
        # In a loop the end of the range and its start are the same position
        if not loop:
            require(sample.playing == (pos < b), 'playing is %s at %d of '
                    '[%d, %d)', sample.playing, pos, a, b)
    if wrapped:
        ctx.label('wrapped')
    if wrapped > 2 or ended and cmds:
        ctx.hit()


def strat_read():
    from hypothesis import strategies as st
    from vlib.gens import signals
    return st.fixed_dictionaries({
        'n': st.one_of(st.integers(8, 3000), st.sampled_from([256, 512])),
        'ch': st.sampled_from([0, 1, 2]),
        'mode': st.sampled_from(['crude', 'crude', 'very_crude', 'very_crude',
                                 'linear', 'zero_order_hold', 'sinc_fastest',
                                 'sinc_medium', 'sinc_best']),
        'rate': st.sampled_from([44100, 44100, 22050, 48000, 8000, 96000]),
        'speeds': st.lists(st.tuples(
            st.integers(0, 12), st.one_of(st.sampled_from([1., 2., .5]),
                                          st.floats(.25, 4.))).map(list),
            min_size=1, max_size=3),
        'trim': st.booleans(), 'sig': signals(3000)})


def check_read(case, ctx):
    import numpy as np
    from klang.audio.sampling import CrudeResampler, Sample
    from vlib.orc import close, signal
    n, ch, mode, rate = case['n'], case['ch'], case['mode'], case['rate']
    data = signal(case['sig'])[:n]
    if ch:
        data = np.array([data, -.5 * data][:ch]).T
    a = n // 4 if case['trim'] else 0
    speeds = {k: v for k, v in case['speeds']}
    speed = case['speeds'][0][1]
    sample = Sample(rate, data, start=a, playbackSpeed=speed, mode=mode)
    runs = []
    lim = np.abs(data).max() + 1e-6
    crude = mode in ('crude', 'very_crude')
    for run in range(2):
        total, outs, pos, expected = 0, [], a, 0.
        speed = case['speeds'][0][1]
        sample.set_playback_speed(speed)
        for i in range(800):
            if i in speeds:
                # The samplerate library glides; keep speed changes crude
                if crude:
                    speed = speeds[i]
                    sample.set_playback_speed(speed)
            out = np.asarray(sample.read(256))
            require(len(out) <= 256, 'more frames than requested')
            if not len(out):
                break
            # The samplerate library drops the axis of a single channel
            require(out.size == len(out) * max(1, ch), 'frames of shape %s '
                    'from data %s', out.shape[1:], data.shape[1:])
            out = out.reshape((len(out),) + data.shape[1:])
            if mode[:4] != 'sinc':
                require(np.abs(out).max() <= lim, 'output exceeds data')
            if crude:
                need = int(256 / (44100. / rate / speed))
                fetched = data[pos:pos + need]
                pos += len(fetched)
                m = 256 * len(fetched) // need
                require(len(out) == m, '%d frames out of %d fetched, '
                        'requested %d', len(out), len(fetched), need)
                x = np.arange(m) * len(fetched) / m
                lo = np.clip(np.floor(x), 0, len(fetched) - 1).astype(int)
                hi = np.minimum(lo + 1, len(fetched) - 1)
                t = (x - lo).reshape((-1,) + (1,) * (data.ndim - 1))
                if mode == 'crude':
                    close(out, (1 - t) * fetched[lo] + t * fetched[hi],
                          'linear interpolation')
                else:
                    # Index may be off by one right at an integer
                    ok = np.isclose(out, fetched[lo]) | np.isclose(
                        out, fetched[hi]) & (t > 1 - 1e-9) | np.isclose(
                        out, fetched[np.maximum(lo - 1, 0)]) & (t < 1e-9)
                    require(ok.all(), 'very crude output not the floor sample')
            outs.append(out)
            total += len(out)
        else:
            require(False, 'playback does not end')
        out = np.concatenate(outs) if outs else data[:0]
        runs.append(out)
        if crude:
            require(pos == n, 'playback ended at frame %d of %d', pos, n)
        else:
            exp = (n - a) * 44100. / rate / speed
            # Library stops one input frame early or late
            tol = 2. + 2 * max(1., 44100. / rate / speed)
            require(abs(total - exp) <= tol, '%d frames instead of about %.1f '
                    'from %d frames (rate %s, speed %s, mode %s)', total, exp,
                    n - a, rate, speed, mode)
            if mode == 'linear' and rate == 44100 and speed == 1.:
                close(out[1:], data[a:a + len(out) - 1], 'unity playback',
                      tol=1e-6)
        if run == 0:
            if case['speeds'][0][0] % 3 == 0 and crude:
                # Rewind in the middle
                sample.rewind()
                sample.read(256)
            sample.rewind()
    if crude or mode in ('linear', 'zero_order_hold'):
        close(runs[1], runs[0], 'replay after rewind', tol=1e-6)
    if len(outs) > 1:
        ctx.hit(mode)


def strat_file():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted
    op = weighted(
        (6, st.tuples(st.just('update'), st.integers(1, 4))),
        (2, st.tuples(st.just('play'), st.just(0))),
        (1, st.tuples(st.sampled_from(['pause', 'stop', 'rewind']),
                      st.just(0)))).map(list)
    return st.fixed_dictionaries({
        'n': st.one_of(st.integers(4, 2500), st.sampled_from([256, 512, 255])),
        'ch': st.sampled_from([1, 2, 1, 2, 1, 2, 3, 4]),
        'rate': st.sampled_from([44100, 44100, 22050]),
        'mono': st.booleans(), 'loop': st.booleans(),
        'mode': st.sampled_from(['crude', 'crude', 'very_crude', 'linear']),
        'bytesio': st.booleans(), 'seed': st.integers(0, 99),
        'ops': oplist(op, 25)})


def check_file(case, ctx):
    import io
    import os
    import tempfile
    import wave
    import numpy as np
    from klang.audio.sampling import AudioFile
    from vlib.orc import close, near
    n, ch, rate = case['n'], case['ch'], case['rate']
    n = max(n, ch + 2)      # klang tells channels from frames by length
    raw = np.random.RandomState(case['seed']).randint(
        1, 32767, (n, ch)).astype('<i2')
    if case['bytesio']:
        path = io.BytesIO()
    else:
        fd, path = tempfile.mkstemp('.wav')
        os.close(fd)
        ctx.defer(os.remove, path)
    with wave.open(path, 'wb') as fh:
        fh.setnchannels(ch)
        fh.setsampwidth(2)
        fh.setframerate(rate)
        fh.writeframes(raw.tobytes())
    if case['bytesio']:
        path.seek(0)
    block = AudioFile(path, mono=case['mono'], loop=case['loop'],
                      mode=case['mode'])
    data = raw / 32768.
    if case['mono']:
        data = data.mean(axis=1)[:, None]
    require(near(block.duration, n / float(rate)), 'duration %r of %d frames',
            block.duration, n)
    require(block.playingPosition == 0, 'starts at %r', block.playingPosition)
    require(not block.playing, 'plays on its own')
    shape = (256,) if data.shape[1] == 1 else (data.shape[1], 256)
    crude = case['mode'] != 'linear'
    up = 44100 // rate

    def model(pos, count=256):
        """Next buffer of crude playback and the position afterwards."""
        need = count // up
        idx = np.arange(pos, pos + need)
        if case['loop']:
            new, idx = (pos + need) % n, idx % n
        else:
            idx = idx[idx < n]
            new = pos + len(idx)
        src = data[idx]
        m = len(src) * up
        out = np.zeros((256, data.shape[1]))
        if m:
            x = np.arange(m) / float(up)
            lo = x.astype(int)
            hi = np.minimum(lo + 1, len(src) - 1)
            t = (x - lo)[:, None]
            out[:m] = src[lo] if case['mode'] == 'very_crude' else \
                (1 - t) * src[lo] + t * src[hi]
        return out, new

    playing, pos, started, done, cmds = False, 0, False, False, 0
    heard = []
    for op, arg in case['ops']:
        if op != 'update':
            getattr(block, op)()
            cmds += started
            if op in ('stop', 'rewind'):
                pos, heard = 0, []
                require(block.playingPosition == 0, 'position %r after %s',
                        block.playingPosition, op)
            if op == 'play':
                playing = True
            elif op != 'rewind':
                playing = False
            continue
        for _ in range(arg):
            block.update()
            out = np.array(block.output.value)
            require(out.shape == shape, 'output of shape %s instead of %s',
                    out.shape, shape)
            frames = out.reshape(-1, 256).T
            if not playing:
                require(not np.any(out), 'sound while not playing')
                continue
            started = True
            if crude:
                exp, new = model(pos)
                close(frames, exp, '%s playback at frame %d of %d' % (
                    case['mode'], pos, n))
                pos = new
                require(case['loop'] or near(block.playingPosition,
                                             pos / float(rate)),
                        'position %r at frame %d', block.playingPosition, pos)
            elif heard is None:
                require(not np.any(out), 'sound after the end')
                playing = block.playing
            else:
                heard.extend(frames.tolist())
            if crude and not case['loop']:
                # Ends with an incomplete buffer
                if exp.any() and pos == n:
                    done = True
                if not exp.any() or not exp[-1].any():
                    playing = False
                    require(not block.playing, 'still playing after the end')
            elif not crude and not case['loop'] and not block.playing \
                    and heard is not None:
                playing, done = False, True
                got = np.array(heard)
                want = n * up
                require(not np.any(got[want + 1:]), 'sound after the end')
                # Delayed by one frame of the library
                m = min(want, len(got)) - up - 1
                require(len(got) >= want - up, 'playback ended %d frames '
                        'early', want - len(got))
                close(got[1:m + 1][up - 1::up], data[:len(
                    got[1:m + 1][up - 1::up])], 'linear playback', tol=1e-6)
                heard = None
            require(block.playing == playing or case['loop'],
                    'playing is %s', block.playing)
    if started and cmds and (done or case['loop']):
        ctx.hit(case['mode'])


def strat_pause():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'n': st.integers(4, 6000), 'ch': st.sampled_from([1, 1, 2, 3]),
        'rate': st.sampled_from([48000, 48000, 22050, 44100, 8000, 96000,
                                 32000]),
        'mono': st.booleans(), 'loop': st.booleans(),
        'mode': st.sampled_from(['linear', 'sinc_fastest', 'sinc_fastest',
                                 'zero_order_hold', 'sinc_medium', 'crude',
                                 'very_crude']),
        'runs': st.lists(st.tuples(
            st.integers(1, 9), st.integers(0, 2),
            st.sampled_from(['pause', 'pause', 'again', 'pause twice'])
        ).map(list), min_size=2, max_size=8), 'seed': st.integers(0, 99)})


def check_pause(case, ctx):
    """Pausing only inserts silence."""
    import io
    import wave
    import numpy as np
    from klang.audio.sampling import AudioFile
    n, ch = max(case['n'], case['ch'] + 2), case['ch']
    raw = np.random.RandomState(case['seed']).randint(
        -32767, 32767, (n, ch)).astype('<i2')
    blocks = []
    for _ in range(2):
        fh = io.BytesIO()
        with wave.open(fh, 'wb') as wav:
            wav.setnchannels(ch)
            wav.setsampwidth(2)
            wav.setframerate(case['rate'])
            wav.writeframes(raw.tobytes())
        fh.seek(0)
        blocks.append(AudioFile(fh, mono=case['mono'], loop=case['loop'],
                                mode=case['mode']))
        blocks[-1].play()
    one, two = blocks
    heard = 0
    for num, (play, wait, how) in enumerate(case['runs']):
        for k in range(play):
            if not one.playing:
                break
            one.update()
            two.update()
            a, b = np.array(one.output.value), np.array(two.output.value)
            require(a.shape == b.shape and np.array_equal(a, b), 'buffer %d '
                    'after break %d differs by %r', k, num, np.abs(
                        a - b).max() if a.shape == b.shape else None)
            require(one.playing == two.playing, 'playing is %s instead of %s '
                    'after break %d', two.playing, one.playing, num)
            heard += np.any(a)
        if not one.playing:
            break
        if how == 'again':
            two.play()
            continue
        for _ in range(1 + (how == 'pause twice')):
            two.pause()
        require(not two.playing, 'plays while paused')
        for _ in range(wait):
            two.update()
            require(not np.any(two.output.value), 'sounds while paused')
        require(two.playingPosition == one.playingPosition, 'position %r '
                'instead of %r', two.playingPosition, one.playingPosition)
        two.play()
    if heard > 3 and num:
        ctx.hit('pause')


TESTS = [
    Test('pause', strat_pause, check_pause, quick=150, thorough=8000),
    Test('callback', strat_callback, check_callback, quick=900,
         thorough=60000),
    Test('read', strat_read, check_read, quick=500, thorough=20000),
    Test('file', strat_file, check_file, quick=500, thorough=20000),
]
TESTS.append(together('C20'))
RULE += PAIRS
