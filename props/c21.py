"""WAV files."""
from vlib.common import Test, require

META = {
    'title': 'WAV files: written audio is loaded back normalized, sample exact',
    'statement': (
        'Writing mono or stereo audio and loading the file again gives the '
        'same number of frames, channels and sampling rate, and the audio '
        'divided by its peak within one quantization step; silence stays '
        'silence. Loading maps each 16 bit sample s to s / 32768 in file '
        'order for any number of channels, and refuses other bit depths with '
        'a ValueError. Converting samples to integers and back is within one '
        'step, never wraps around and is refused for samples which are '
        'already of the target kind.'),
    'over': ['inputs', 'configurations'],
    'quant': ('All audio shapes, amplitudes, float types, bit depths and '
              'sampling rates.'),
    'why': 'Tests convert five samples and never touch a file.',
    'files': ['klang/audio/wavfile.py', 'klang/math.py'],
    'mechanism': [
        {'name': 'write_wave, load_wave', 'where': 'klang/audio/wavfile.py'},
        {'name': 'convert_samples_to_int, convert_samples_to_float',
         'where': 'klang/audio/wavfile.py'}],
    'observe': ['file content', 'load_wave()'],
    'oracle': 'a round trip and the standard library wave reader',
}
RULE = ('Cases are audio data, a format and a sampling rate. Non-trivial: '
        'non-silent audio of at least ten frames.')


def audio(case):
    import numpy as np
    from vlib.orc import signal
    x = signal(case['sig'])[:case['n']] * case['gain']
    if case['ch']:
        x = np.array([x * g for g in (1., -.37, .11)[:case['ch']]]).T
    dtype = np.dtype(case.get('dtype', 'float64'))
    if dtype.kind == 'i':
        # Full scale, the lowest integer included
        info = np.iinfo(dtype)
        x = np.clip(np.round(-info.min * x), info.min, info.max)
    return x.astype(dtype)


def strat_write():
    from hypothesis import strategies as st
    from vlib.gens import signals
    return st.fixed_dictionaries({
        'n': st.integers(4, 900), 'ch': st.sampled_from([0, 1, 2, 3]),
        'gain': st.sampled_from([1., .001, 30., 1e-9]),
        'dtype': st.sampled_from(['float64', 'float64', 'float32', 'float32',
                                  'int16', 'int8', 'int32']),
        'rate': st.sampled_from([None, 44100, 8000, 48000, 192000]),
        'bytesio': st.booleans(),
        'bits': st.sampled_from(['int16', 'int16', 'int16', 'int32']),
        'sig': signals(900)})


def check_write(case, ctx):
    import io
    import os
    import tempfile
    import wave
    import numpy as np
    from klang.audio.wavfile import load_wave, write_wave
    from vlib.orc import close, raises
    x = audio(case)
    keep = x.copy()
    if case['bytesio']:
        path = io.BytesIO()
    else:
        fd, path = tempfile.mkstemp('.wav')
        os.close(fd)
        ctx.defer(os.remove, path)
    kwargs = {}
    if case['rate']:
        kwargs['samplingRate'] = case['rate']
    if case['bits'] != 'int16':
        kwargs['dtype'] = np.int32
    write_wave(x, path, **kwargs)
    require(np.array_equal(x, keep), 'audio was altered')

    def seek():
        if case['bytesio']:
            path.seek(0)

    ch, n = max(1, case['ch']), case['n']
    seek()
    with wave.open(path, 'rb') as fh:
        require(fh.getnchannels() == ch and fh.getnframes() == n,
                '%d channels, %d frames instead of %d, %d', fh.getnchannels(),
                fh.getnframes(), ch, n)
        require(fh.getframerate() == (case['rate'] or 44100), 'rate %r',
                fh.getframerate())
        width = fh.getsampwidth()
        require(width == (2 if case['bits'] == 'int16' else 4),
                'sample width %d', width)
        raw = np.frombuffer(fh.readframes(-1),
                            '<i%d' % width).reshape(n, ch)
    peak = np.abs(keep.astype(float)).max()
    full = 2. ** (8 * width - 1)
    exp = keep.reshape(n, ch).astype(float)
    if peak:
        exp = exp / float(peak)
    tol = 1.1 / full + (1e-6 if case['dtype'] == 'float32' else 1e-9)
    close(raw / (full - 1.), exp, 'file content', tol=tol)
    seek()
    if width != 2:
        require(raises(ValueError, load_wave, path), '32 bit file was loaded')
    else:
        rate, data = load_wave(path)
        require(rate == (case['rate'] or 44100), 'loaded rate %r', rate)
        close(data, exp, 'loaded audio', tol=2.5 / full)
        if peak:
            require(np.abs(data).max() >= 1. - 2 / full, 'peak %r',
                    float(np.abs(data).max()))
    if peak and n >= 10:
        ctx.hit('%d channels' % ch)


def strat_load():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'n': st.integers(1, 300), 'ch': st.integers(1, 5),
        'width': st.sampled_from([2, 2, 2, 2, 1, 3, 4]),
        'rate': st.sampled_from([44100, 11025, 96000]),
        'seed': st.integers(0, 999)})


def check_load(case, ctx):
    import io
    import wave
    import numpy as np
    from klang.audio.wavfile import load_wave
    from vlib.orc import raises
    n, ch, width = case['n'], case['ch'], case['width']
    raw = np.random.RandomState(case['seed']).randint(
        -32768, 32768, (n, ch)).astype('<i2')
    raw[0, 0] = -32768
    raw[-1, -1] = 32767
    path = io.BytesIO()
    with wave.open(path, 'wb') as fh:
        fh.setnchannels(ch)
        fh.setsampwidth(width)
        fh.setframerate(case['rate'])
        fh.writeframes(raw.tobytes() if width == 2 else
                       b'\1' * (n * ch * width))
    path.seek(0)
    if width != 2:
        require(raises(ValueError, load_wave, path),
                '%d byte samples were loaded', width)
        return
    rate, data = load_wave(path)
    require(rate == case['rate'], 'rate %r', rate)
    require(data.shape == (n, ch), 'shape %s', data.shape)
    require(np.array_equal(data * 32768., raw), 'samples differ from the file')
    if n >= 10:
        ctx.hit('%d channels' % ch)


def strat_convert():
    from hypothesis import strategies as st
    from vlib.gens import signals
    return st.fixed_dictionaries({
        'n': st.integers(1, 60), 'ch': st.sampled_from([0, 1, 2]),
        'gain': st.sampled_from([1., 1., .3, 1e-5]),
        'dtype': st.sampled_from(['float64', 'float32']),
        'int': st.sampled_from(['int8', 'int16', 'int32']),
        'sig': signals(60)})


def check_convert(case, ctx):
    import numpy as np
    from klang.audio.wavfile import (convert_samples_to_float,
                                     convert_samples_to_int)
    from vlib.orc import close, raises
    x = audio(case)
    dtype = np.dtype(case['int'])
    top = float(np.iinfo(dtype).max)
    if case['int'] == 'int16' and case['n'] % 2:
        ints = convert_samples_to_int(x)
    else:
        ints = convert_samples_to_int(x, dtype=dtype.type)
    require(ints.dtype == dtype and ints.shape == x.shape,
            'converted to %s %s', ints.dtype, ints.shape)
    step = 1.0001 / top
    close(ints / top, x, 'int samples', tol=step, rtol=1e-7)
    require(np.all(np.sign(ints) * np.sign(x) >= 0), 'sign changed')
    back = convert_samples_to_float(ints)
    require(back.shape == x.shape and np.abs(back).max() <= 1.,
            'float samples out of range')
    close(back, x, 'round trip', tol=2 * step, rtol=1e-7)
    require(raises(ValueError, convert_samples_to_int, ints),
            'int samples were converted to int')
    require(raises(ValueError, convert_samples_to_float, x),
            'float samples were converted to float')
    flip = np.array([np.iinfo(dtype).min, 0, np.iinfo(dtype).max], dtype)
    got = convert_samples_to_float(flip)
    close(got, [-1., 0., top / (top + 1.)], 'extreme samples')
    if np.any(x) and x.size >= 10:
        ctx.hit(case['int'])


TESTS = [
    Test('write', strat_write, check_write, quick=500, thorough=30000),
    Test('load', strat_load, check_load, quick=300, thorough=15000),
    Test('convert', strat_convert, check_convert, quick=500, thorough=30000),
]
