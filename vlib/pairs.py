"""Blocks do not depend on other blocks of their kind.

Metamorphic relation for everything with a state: an instance which is updated
in turns with another one (created before, later, with the same or with other
arguments) yields what it yields when it is alone.
"""
import numpy as np

from vlib.common import Fail, Test, require
from vlib.orc import BUF


RULE = (' Instances in turns: non-trivial when both of them were updated at '
        'least twice.')


class Pick:

    """Pseudo random choices, pure function of the seed."""

    def __init__(self, *seed):
        self.rnd = np.random.RandomState(list(seed))

    def one(self, *items):
        return items[self.rnd.randint(len(items))]

    def i(self, low, high):
        return int(self.rnd.randint(low, high + 1))

    def f(self, low, high):
        return float(self.rnd.uniform(low, high))

    def audio(self, channels=1):
        shape = (BUF,) if channels == 1 else (channels, BUF)
        return self.rnd.uniform(-1, 1, shape) * self.one(1., 1., .1, 0.)

    def note(self, low=40, high=52):
        from klang.messages import Note
        return Note(self.i(low, high), self.one(0., 1., .5, .75, 1.))

    def notes(self, most=3):
        return [self.note() for _ in range(self.i(0, most))]


class Kind:

    """How to make, drive and observe instances of one kind."""

    def make(self, p):
        raise NotImplementedError

    def feed(self, obj, p, time):
        """One step; return what can be observed after it."""
        raise NotImplementedError


class BlockKind(Kind):

    """Blocks: all inputs set, updated, all outputs read."""

    def __init__(self, make, first='none', other=None, noise=False):
        self._make = make
        self.noise = noise
        self.first = first
        self.other = other

    def make(self, p):
        from klang.connections import MessageInput
        block = self._make(p)
        block.kv_sinks = []
        for out in block.outputs:
            sink = None
            if hasattr(out, 'send'):
                sink = MessageInput(owner=None)
                out.connect(sink)
            block.kv_sinks.append(sink)
        return block

    def feed(self, obj, p, time):
        from klang.clock import ClockMixin
        ClockMixin.set_current_time(time)
        for inp in obj.inputs:
            if inp.connected:
                continue
            if hasattr(inp, 'push'):
                for note in p.notes():
                    inp.push(note)
            elif self.first == 'audio' and inp is obj.inputs[0]:
                inp.set_value(p.audio())
            elif self.first == 'audios':
                inp.set_value(p.audio())
            elif self.first == 'phase' and inp is obj.inputs[0]:
                inp.set_value(p.f(0, 6.28))
        if self.other:
            self.other(obj, p)
        obj.update()
        seen = []
        for out, sink in zip(obj.outputs, obj.kv_sinks):
            if sink is None:
                value = np.array(out.value, dtype=float)
                seen.append(value != 0 if self.noise else value)
            else:
                seen.append([tuple(m) if isinstance(m, tuple) else m
                             for m in sink.receive()])
        return seen


class Simple(Kind):

    def __init__(self, make, feed):
        self.make = make
        self._feed = feed

    def feed(self, obj, p, time):
        return self._feed(obj, p)


def adsr(p):
    return dict(attack=p.f(0, .02), decay=p.f(0, .02), sustain=p.f(.1, 1),
                release=p.f(0, .03))


def voice(p):
    from klang.audio.envelopes import ADSR
    from klang.audio.oscillators import Oscillator
    from klang.audio.voices import Voice
    return Voice(Oscillator(440.), ADSR(
        **adsr(p), retrigger=bool(p.i(0, 1))))


def block(path, args, first='none', other=None, noise=False):
    """Kind of block from dotted path and arguments of a Pick."""
    def make(p):
        import importlib
        mod, name = path.rsplit('.', 1)
        cls = getattr(importlib.import_module(mod), name)
        pos, kw = args(p)
        return cls(*pos, **kw)
    return BlockKind(make, first, other, noise)


def glide(obj, p):
    """Another frequency now and then."""
    if p.one(0, 0, 1):
        obj.frequency.set_value(p.f(20, 5000))


def ring_make(p):
    from klang.ring_buffer import RingBuffer
    return RingBuffer(p.one(3, 7, 64, 300), p.one(300, 400), p.one(16, 256))


def ring_feed(obj, p):
    k = p.i(0, 3)
    if k == 0:
        obj.append(p.f(-1, 1))
        return np.array(obj.peek(1))
    if k == 1:
        obj.length = p.i(3, 300)
    x = p.rnd.uniform(-1, 1, p.i(1, min(obj.length, obj.bufferSize)))
    return np.array(obj.peek_extend(x))


def comb_make(p):
    from klang.audio import filters
    return p.one(filters.PyForwardCombFilter, filters.PyBackwardCombFilter,
                 filters.PyEchoFilter, filters.ForwardCombFilter,
                 filters.BackwardCombFilter, filters.EchoFilter)(
                     p.one(256, 300, 1000), p.f(0, .95))


def comb_feed(obj, p):
    return np.array(obj.filter(p.rnd.uniform(-1, 1, p.one(256, 256, 100, 1))))


def fallback_make(p):
    from klang.audio.envelope import Envelope
    most = p.one(.02, .004)
    return Envelope(p.f(0, most), p.f(0, most), p.f(.1, 1), p.f(0, most),
                    retrigger=bool(p.i(0, 1)), loop=p.one(False, True))


def fallback_feed(obj, p):
    if p.one(0, 0, 1):
        obj.gate(bool(p.i(0, 1)))
    got = np.array(obj.sample(BUF))
    return [got, bool(obj.active)]


def arpeggio_make(p):
    from klang.arpeggiator import Arpeggio
    from klang.messages import Note
    return Arpeggio(p.one('up', 'down', 'upDown', 'downUp', 'alternating'),
                    [Note(k, 1.) for k in range(40, 40 + p.i(0, 4))])


def arpeggio_feed(obj, p):
    note = p.note()
    if note.on:
        obj.add_note(note)
    elif note in obj:
        obj.remove_note(note)
    return [len(obj)] + [tuple(next(obj)) for _ in range(p.i(0, 3))
                         if len(obj)]


def arpeggiator(p):
    from klang.arpeggiator import Arpeggiator
    return Arpeggiator(p.f(.004, .03),
                       order=p.one('up', 'down', 'upDown', 'alternating'))


def sample_make(p):
    from klang.audio.sampling import Sample
    n = p.i(300, 3000)
    start = p.one(0, 0, p.i(1, 100))
    return Sample(p.one(44100, 22050, 48000),
                  p.rnd.uniform(-1, 1, p.one((n,), (n, 2))), start,
                  n - p.i(0, 100), bool(p.i(0, 1)), p.one(1., 1., .7, 1.6),
                  p.one('linear', 'crude', 'very_crude'))


def sample_feed(obj, p):
    k = p.i(0, 9)
    if k == 0:
        obj.rewind()
    elif k == 1:
        obj.trim(p.i(0, 100), p.i(150, 300))
    elif k == 2:
        obj.set_playback_speed(p.f(.5, 2))
    return [np.array(obj.read(BUF)), obj.start, obj.stop, obj.currentIndex]


def audiofile_make(p):
    import os
    import tempfile
    from klang.audio.sampling import AudioFile
    from klang.audio.wavfile import write_wave
    fd, path = tempfile.mkstemp(suffix='.wav', prefix='kv')
    os.close(fd)
    try:
        n = p.i(300, 1500)
        write_wave(p.rnd.uniform(-1, 1, p.one((n,), (n, 2))), path)
        return AudioFile(path, loop=bool(p.i(0, 1)))
    finally:
        os.unlink(path)


def audiofile_feed(obj, p):
    k = p.i(0, 7)
    if k < 5:
        getattr(obj, ['play', 'play', 'pause', 'stop', 'rewind'][k])()


def mono(p):
    from klang.audio.synthesizer import MonophonicSynthesizer
    return MonophonicSynthesizer(voice(p), p.one(
        'newest', 'oldest', 'lowest', 'highest'))


def poly(p):
    from klang.audio.synthesizer import PolyphonicSynthesizer
    return PolyphonicSynthesizer(voice(p))


def sequencer(p):
    from klang.sequencer import Sequencer
    rows = p.i(1, 3)
    return Sequencer([[p.one(0, 60, 64, 67) for _ in range(p.i(1, 6))]
                      for _ in range(rows)], tempo=p.f(500, 3000),
                     splitOutputs=bool(p.i(0, 1)))


def lookup(p):
    from klang.sequencer import PatternLookup
    return PatternLookup([p.one(0, 60, 64, 67) for _ in range(8)])


def steps(obj, p):
    """Step numbers instead of notes."""
    list(obj.input.receive())
    for _ in range(p.i(0, 3)):
        obj.input.push(p.i(0, 7))


def rhythm(p):
    from fractions import Fraction
    from klang.music.rhythm import MicroRhyhtm
    return MicroRhyhtm([Fraction(p.i(1, 3), 8) for _ in range(p.i(2, 4))],
                       phrasing=p.f(.1, 1))


def mixer(cls):
    def make(p):
        from klang.audio import mixer as mx
        return getattr(mx, cls)(p.i(1, 4))
    return BlockKind(make, 'audios')


def levels(obj, p):
    for inp in obj.gains:
        inp.set_value(p.f(0, 1))


OS, EF, SY = 'klang.audio.oscillators.', 'klang.audio.effects.', 'klang.audio.synthesizer.'
EN, NO = 'klang.audio.envelopes.', 'klang.note_effects.'

KINDS = {
    'C07': {'mixer': mixer('Mixer'), 'stereo mixer': mixer('StereoMixer')},
    'C09': {'ring': Simple(ring_make, ring_feed)},
    'C10': {'comb': Simple(comb_make, comb_feed)},
    'C12': {
        'adsr': block(EN + 'ADSR', lambda p: ((), dict(
            adsr(p), retrigger=bool(p.i(0, 1)), loop=p.one(False, True)))),
        'ar': block(EN + 'AR', lambda p: ((p.f(0, .02), p.f(0, .02)), {})),
        'd': block(EN + 'D', lambda p: ((p.f(0, .02),), {})),
        'r': block(EN + 'R', lambda p: ((p.f(0, .02),), {}))},
    'C13': {'fallback': Simple(fallback_make, fallback_feed)},
    'C14': {
        'phasor': block(OS + 'Phasor', lambda p: (
            (p.f(1, 900), p.f(0, 6)), {}), other=glide),
        'oscillator': block(OS + 'Oscillator', lambda p: (
            (p.f(1, 900),), dict(startPhase=p.f(0, 6))), other=glide),
        'fm': block(OS + 'FmOscillator', lambda p: (
            (p.f(1, 900), p.f(0, 3), p.f(1, 90)), {}), other=glide),
        'pwm': block(OS + 'PwmOscillator', lambda p: (
            (p.f(1, 900), p.f(.1, .9)), {}), other=glide),
        'chirper': block(OS + 'Chirper', lambda p: (
            (p.f(1, 900), p.f(.001, .1), p.f(1000, 2000)), {}))},
    'C15': {'lfo': block(OS + 'Lfo', lambda p: (
        (p.f(1, 90),), dict(shape=p.one(1, BUF), outputRange=(
            p.f(-2, 0), p.f(1, 2)), startPhase=p.f(0, 6))), other=glide)},
    'C16': {
        'delay': block(EF + 'Delay', lambda p: (
            (p.f(.0059, .03), p.f(0, .9), p.f(0, 1)), {}), 'audio'),
        'stereo delay': block(EF + 'StereoDelay', lambda p: (
            (p.f(.0059, .03), p.f(.0059, .03), p.f(0, .9), p.f(0, .9),
             p.f(0, 1)), {}), 'audio', lambda obj, p: obj.input.set_value(
                 p.audio(2))),
        'splitter': block(EF + 'AudioSplitter', lambda p: ((2,), {}), 'audio',
                          lambda obj, p: obj.input.set_value(p.audio(2))),
        'combiner': block(EF + 'AudioCombiner', lambda p: (
            (p.i(1, 3),), {}), 'audios'),
        'shifter': block(EF + 'PitchShifter', lambda p: (
            (p.f(.6, 2), p.f(0, 1)), dict(mode=p.one('linear', 'zero_order_hold'))),
                         'audio')},
    'C18': {
        'gain': block(EF + 'Gain', lambda p: ((p.f(0, 2),), {}), 'audio'),
        'subsampler': block(EF + 'Subsampler', lambda p: (
            (p.one(2, 4, 8, 64),), {}), 'audio'),
        'crusher': block(EF + 'Bitcrusher', lambda p: (
            (p.i(2, 8),), {}), 'audio'),
        'octave': block(EF + 'OctaveDistortion', lambda p: ((), {}), 'audio'),
        'tanh': block(EF + 'TanhDistortion', lambda p: (
            (p.f(.5, 5),), {}), 'audio'),
        'transformer': block(EF + 'Transformer', lambda p: (
            (p.f(-2, 2), p.f(-1, 1)), {}), 'audio')},
    'C19': {
        'tremolo': block(EF + 'Tremolo', lambda p: (
            (p.f(1, 20), p.f(0, 1)), {}), 'audio'),
        'reverb': block(EF + 'Reverb', lambda p: (
            (), dict(decay=p.f(.1, 1), preDelay=p.f(.006, .02),
                     dryWet=p.f(0, 1), nEchos=p.i(1, 4))), 'audio'),
        'ring modulator': block(EF + 'RingModulator', lambda p: (
            (p.f(20, 900), p.f(1, 20), p.f(0, 1)), {}), 'audio')},
    'C20': {'sample': Simple(sample_make, sample_feed),
            'audio file': BlockKind(audiofile_make, other=audiofile_feed)},
    'C24': {'mono': BlockKind(mono)},
    'C25': {
        'poly': BlockKind(poly), 'voice': BlockKind(voice),
        'hihat': block(SY + 'HiHat', lambda p: (
            (p.f(.01, .1), bool(p.i(0, 1))), {}), noise=True),
        'kick': block(SY + 'Kick', lambda p: (
            (p.f(30, 60), p.f(.1, 1), p.f(0, 3), p.f(.05, .3)), {}))},
    'C26': {
        'lengthener': block(NO + 'NoteLengthener', lambda p: (
            (p.f(.001, .03),), {})),
        'max notes': block(NO + 'MaxNotes', lambda p: ((p.i(1, 4),), {})),
        'message mixer': block(NO + 'MessageMixer', lambda p: (
            (p.i(1, 3),), {}))},
    'C27': {'arpeggio': Simple(arpeggio_make, arpeggio_feed)},
    'C28': {'arpeggiator': BlockKind(arpeggiator)},
    'C29': {
        'sequencer': BlockKind(sequencer),
        'slicer': block('klang.sequencer.PizzaSlicer', lambda p: (
            (p.i(1, 9),), {}), 'phase'),
        'lookup': BlockKind(lookup, other=steps)},
    'C30': {'rhythm': BlockKind(rhythm, 'phase')},
    'C42': {'clock': block('klang.audio.sync.Clock', lambda p: (
        (p.f(100, 3000), p.f(.1, .9)), dict(edge=p.one(
            'rising', 'falling'))))},
}

# Without the native envelopes
KINDS['C13'].update(KINDS['C12'])


def strat(names):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'kind': st.sampled_from(
            sorted(names) + ['fallback'] * (5 * ('fallback' in names))),
        'a': st.integers(0, 10**6),
        'b': st.one_of(st.integers(0, 10**6), st.integers(0, 10**6), st.none()),
        'feed': st.integers(0, 10**6),
        'turns': st.one_of(
            st.lists(st.integers(0, 1), min_size=3, max_size=10),
            st.lists(st.integers(0, 1), min_size=6, max_size=24)),
        'late': st.integers(0, 4)})


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and np.allclose(
            a, b, 1e-9, 1e-9, equal_nan=True)
    if isinstance(a, (list, tuple)):
        return (isinstance(b, (list, tuple)) and len(a) == len(b)
                and all(map(equal, a, b)))
    return a == b


def check(kinds, case, ctx):
    import random
    kind = kinds[case['kind']]
    seeds = [case['a'], case['a'] if case['b'] is None else case['b']]

    def reseed(*key):
        state = int(np.random.RandomState(list(key)).randint(2**31))
        random.seed(state)
        np.random.seed(state)

    def make(who):
        reseed(seeds[who], 7)
        return kind.make(Pick(seeds[who]))

    def feed(obj, who, k):
        reseed(case['feed'], who, k)
        return kind.feed(obj, Pick(case['feed'], who, k), k * BUF / 44100.)

    alone = []
    for who in (0, 1):
        obj = make(who)
        alone.append([feed(obj, who, k)
                      for k in range(case['turns'].count(who))])
    pair, count = [make(0), None], [0, 0]
    for i, who in enumerate(case['turns']):
        if pair[1] is None and (who or i >= case['late']):
            pair[1] = make(1)
        k = count[who]
        got = feed(pair[who], who, k)
        count[who] += 1
        require(equal(got, alone[who][k]), '%s %s, step %d: with another one '
                '%.200r, alone %.200r', ['first', 'second'][who],
                case['kind'], k, got, alone[who][k])
    if min(count) >= 2:
        ctx.hit(case['kind'])


def together(ident, quick=None, mode='native'):
    """The relation for all kinds of a property."""
    kinds = KINDS[ident]
    quick = quick or 80 + 20 * len(kinds)
    return Test('together', lambda: strat(kinds),
                lambda case, ctx: check(kinds, case, ctx), quick=quick,
                thorough=quick * 40, mode=mode)
