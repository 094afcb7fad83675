"""Whole networks of klang's own blocks."""
from vlib.common import Test, require

META = {
    'title': 'A patch sounds the same however its blocks are created and wired',
    'statement': (
        'In a network without feedback every block receives, buffer by '
        'buffer, exactly what its sources sent in the same buffer, unharmed '
        'by other consumers: each output equals what the block gives when '
        'run on its own and fed by hand. This holds for any mix of '
        'sequencers, note effects, synthesizers, oscillators, effects and '
        'mixers, any order of creating and connecting them, '
        'any starting blocks, operators or explicit connections, blocks '
        'packed into composites, and other networks running alongside.'),
    'over': ['configurations', 'histories', 'inputs'],
    'quant': ('All loop-free networks of the library\'s deterministic '
              'blocks, orders of construction and numbers of buffers.'),
    'why': ('Tests update single blocks with plain test blocks around them; '
            'side effects between blocks need whole networks.'),
    'files': ['klang/block.py', 'klang/connections.py', 'klang/composite.py',
              'klang/execution.py', 'klang/graph.py',
              'klang/audio/effects.py', 'klang/audio/oscillators.py',
              'klang/audio/mixer.py', 'klang/audio/synthesizer.py',
              'klang/audio/voices.py', 'klang/audio/envelopes.py',
              'klang/audio/sampling.py', 'klang/sequencer.py',
              'klang/arpeggiator.py', 'klang/note_effects.py',
              'klang/music/rhythm.py'],
    'state': ['connections', 'cached arrays', 'block states'],
    'mechanism': [
        {'name': 'determine_execution_order', 'where': 'klang/execution.py'},
        {'name': 'Block.update of every block class',
         'where': 'klang/audio/*.py'}],
    'observe': ['values and messages arriving at probes', 'values at the '
                'outputs at the end of the cycle'],
    'oracle': 'the composition of isolated blocks fed with private copies',
}
RULE = ('Cases are networks of 3 to 16 blocks, two ways of building them and a '
        'number of buffers. Non-trivial: at least six blocks, one of them '
        'with two consumers, and sound at three outputs.')
ASSUMPTIONS = ['random sources (hi-hat, random wave) are left out',
               'networks whose level exceeds 1e6 are not compared']

WAVES = ['sine', 'square', 'sawtooth', 'triangle']
# kind: accepted types of the inputs (capital: may stay unconnected), output
KINDS = {
    'osc': (['AC'], 'a'), 'lfo': (['C'], 'c'), 'lfoa': (['AC'], 'a'),
    'phasor': (['C'], 'c'), 'fm': (['AC'], 'a'), 'pwm': (['AC', 'AC'], 'a'),
    'chirp': ([], 'a'), 'clock': ([], 'a'), 'file': ([], 'as'),
    'notes': ([], 'm'), 'seq': ([], 'm'), 'seqs': ([], 'mm'),
    'arp': (['m'], 'm'), 'maxn': (['m'], 'm'), 'mmix': (['m', 'M'], 'm'),
    'len': (['m'], 'm'), 'micro': (['c', 'C'], 'c'),
    'mono': (['m'], 'a'), 'poly': (['m'], 'a'), 'kick': (['m'], 'a'),
    'env': (['m'], 'a'), 'voice': (['m'], 'a'),
    'gain': (['as', 'AC'], '0'), 'trem': (['as', 'AC', 'AC', 'C', 'C'], '0'),
    'delay': (['as'], 'a'), 'stdelay': (['as'], 's'),
    'filter': (['as', 'C'], '0'), 'sub': (['as'], '0'),
    'crush': (['t'], '0'), 'octave': (['as'], '0'), 'tanh': (['as'], 't'),
    'shift': (['a'], 'a'), 'scale': (['asc'], '0'), 'reverb': (['a'], 'a'),
    'ring': (['as', 'AC', 'AC', 'AC', 'AC'], '0'),
    'mix': (['a', 'A', 'a', 'A'], 'a'), 'plus': (['a', 'a'], 'a'),
    'plus3': (['a', 'a', 'a'], 'a'),
    'smix': (['as', 'AS', 'AS'], 's'), 'split': (['as'], 'aa'),
    'combine': (['a', 'a'], 's'),
}


def strat():
    from hypothesis import strategies as st
    names = sorted(KINDS)
    pool = names + ['osc', 'gain', 'mix', 'seq', 'mono', 'poly', 'delay',
                    'plus', 'octave', 'tanh', 'crush', 'env', 'fm']
    pool = [n for n in pool if n != 'filter']
    node = st.tuples(st.sampled_from(pool + ['filter']),
                     st.lists(st.integers(-20, 19), min_size=5, max_size=5),
                     st.lists(st.floats(0., 1.), min_size=4, max_size=4)
                     ).map(list)
    notes = st.lists(st.tuples(st.integers(0, 12), st.integers(30, 90),
                               st.sampled_from([0., .3, 1.])).map(list),
                     max_size=8)
    build = st.fixed_dictionaries({
        'seed': st.integers(0, 10**6), 'taps': st.integers(0, 2),
        'wrap': st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=4,
                         max_size=4),
        'late': st.booleans()})
    return st.fixed_dictionaries({
        'notes': notes,
        'nodes': st.one_of(st.lists(node, min_size=1, max_size=14),
                           st.lists(node, min_size=6, max_size=14)),
        'first': build, 'second': build, 'twin': st.booleans(),
        'buffers': st.one_of(st.integers(2, 6), st.integers(6, 20))})


def note_source():
    from klang.block import Block
    from klang.connections import MessageOutput
    from klang.messages import Note

    class Notes(Block):

        """Plays a fixed list of notes."""

        def __init__(self, notes):
            super().__init__()
            self.outputs = [MessageOutput(owner=self)]
            self.notes = notes
            self.count = 0

        def update(self):
            for when, pitch, vel in self.notes:
                if when == self.count:
                    self.output.send(Note(pitch=pitch, velocity=vel))
            self.count += 1
    return Notes


DESIGNS = {}


def design(*args, **kwargs):
    """Butterworth design, remembered (a filter block tabulates 1000)."""
    import scipy.signal
    key = repr((args, sorted(kwargs.items())))
    if key not in DESIGNS:
        DESIGNS[key] = scipy.signal.butter(*args, **kwargs)
    return tuple(arr.copy() for arr in DESIGNS[key])


def make(kind, p, case, nin):
    """New block (never connected to anything but its own inside)."""
    import klang.arpeggiator
    import klang.audio.effects as fx
    import klang.audio.oscillators as osc
    from klang.audio import waves
    from klang.audio.envelopes import ADSR
    from klang.audio.mixer import Mixer, StereoMixer
    from klang.audio.sampling import AudioFile
    from klang.audio.sync import Clock
    from klang.audio.synthesizer import (
        Kick, MonophonicSynthesizer, PolyphonicSynthesizer)
    from klang.audio.voices import Voice
    from klang.music.rhythm import MicroRhyhtm
    from klang.note_effects import MaxNotes, MessageMixer, NoteLengthener
    from klang.sequencer import Sequencer
    wave = getattr(waves, WAVES[int(p[3] * 3.999)])

    def freq(x):
        return 20. * 200. ** x

    def voice():
        source = [
            lambda: osc.Oscillator(wave_func=wave),
            lambda: osc.FmOscillator(wave_func=wave, intensity=p[0]),
            lambda: osc.PwmOscillator(dutyCycle=p[0]),
        ][int(p[1] * 2.999)]()
        return Voice(source, ADSR(.001 + .02 * p[0], .01 + .02 * p[1], p[2],
                                  .01 + .03 * p[1]))

    def seq(split):
        patterns = [[60, 0, 64, 67], [[40, 47], 52, 0], [72]]
        nrows = 1 + int(p[0] * 2.999) if not split else 2
        return Sequencer(patterns[:nrows], tempo=300. + 900. * p[1],
                         relNoteLength=.1 + p[2], splitOutputs=split)

    orders = ['up', 'down', 'upDown', 'downUp', 'alternating']
    if kind == 'osc':
        return osc.Oscillator(freq(p[0]), wave, startPhase=6. * p[1])
    if kind == 'lfo':
        return osc.Lfo(30. * p[0], wave, outputRange=(.2, 1. + 3. * p[1]))
    if kind == 'lfoa':
        return osc.Lfo(30. * p[0], wave, shape=256,
                       outputRange=(.2, 1. + 300. * p[1]))
    if kind == 'phasor':
        return osc.Phasor(30. * p[0], 6. * p[1])
    if kind == 'fm':
        return osc.FmOscillator(freq(p[0]), 3. * p[1], 100. * p[2], wave)
    if kind == 'pwm':
        return osc.PwmOscillator(freq(p[0]), p[1])
    if kind == 'chirp':
        return osc.Chirper(freq(p[0]), .05 * p[1], freq(p[2]), wave_func=wave)
    if kind == 'clock':
        return Clock(freq(p[0]), .1 + .8 * p[1],
                     'rising' if p[2] < .5 else 'falling')
    if kind == 'file':
        block = AudioFile(case['paths'][int(p[0] * 1.999)],
                          loop=p[1] < .5,
                          mode=['linear', 'crude', 'sinc_fastest'][
                              int(p[2] * 2.999)])
        block.play()
        return block
    if kind == 'notes':
        return note_source()(case['notes'])
    if kind == 'seq':
        return seq(False)
    if kind == 'seqs':
        return seq(True)
    if kind == 'arp':
        return klang.arpeggiator.Arpeggiator(
            .01 + .05 * p[0], order=orders[int(p[1] * 4.999)])
    if kind == 'maxn':
        return MaxNotes(1 + int(3 * p[0]))
    if kind == 'len':
        return NoteLengthener(.003 + .04 * p[0])
    if kind == 'micro':
        from fractions import Fraction
        return MicroRhyhtm([Fraction(1 + int(5 * v), 16) for v in p[1:]],
                           phrasing=p[0])
    if kind == 'mmix':
        return MessageMixer(nin)
    if kind == 'mono':
        return MonophonicSynthesizer(voice(), ['newest', 'oldest', 'lowest',
                                               'highest'][int(p[3] * 3.999)])
    if kind == 'poly':
        return PolyphonicSynthesizer(voice())
    if kind == 'voice':
        return voice()
    if kind == 'kick':
        return Kick(40. + 40. * p[0], .05 + p[1], 2. * p[2], .05 + p[3])
    if kind == 'env':
        return ADSR(.02 * p[0], .02 * p[1], p[2], .03 * p[3],
                    retrigger=p[0] < .5, loop=p[1] < .3)
    if kind == 'gain':
        return fx.Gain(2. * p[0])
    if kind == 'trem':
        return fx.Tremolo(2. + 20. * p[0], p[1], p[2], .1 + .8 * p[3])
    if kind == 'delay':
        return fx.Delay(.006 + .05 * p[0], .9 * p[1], p[2])
    if kind == 'stdelay':
        return fx.StereoDelay(.006 + .05 * p[0], .006 + .03 * p[1], .9 * p[1],
                              .8 * p[2], p[3])
    if kind == 'filter':
        return fx.Filter(frequency=freq(p[0]), btype='lowpass' if p[1] < .5
                         else 'highpass', design_func=design)
    if kind == 'sub':
        return fx.Subsampler(2 ** (1 + int(4 * p[0])))
    if kind == 'crush':
        return fx.Bitcrusher(int(15 * p[0]))
    if kind == 'octave':
        return fx.OctaveDistortion()
    if kind == 'tanh':
        return fx.TanhDistortion(.2 + 5. * p[0])
    if kind == 'shift':
        return fx.PitchShifter(.5 + 2. * p[0], p[1])
    if kind == 'scale':
        return fx.Transformer(3. * p[0] - 1., 2. * p[1])
    if kind == 'reverb':
        return fx.Reverb(.2 + p[0], .006 + .02 * p[1], p[2],
                         1 + int(6 * p[3]))
    if kind == 'ring':
        return fx.RingModulator(freq(p[0]), 1. + 10. * p[1], 30. * p[2],
                                wave_func=wave, dryWet=p[3])
    if kind in ('mix', 'plus', 'plus3'):
        gains = [2. * v for v in p][:nin] if kind == 'mix' else None
        return Mixer(nin, gains)
    if kind == 'smix':
        return StereoMixer(nin, p[:nin], [2. * v - 1. for v in p[1:1 + nin]])
    if kind == 'split':
        return fx.AudioSplitter(2)
    assert kind == 'combine'
    return fx.AudioCombiner(2)


def decode(case):
    """List of (kind, params, sources of inputs or None, output types).

    A source is (node, output).
    """
    nodes = [('notes', [0.] * 4, [], ['m']),
             ('osc', [.5, 0., 0., 0.], [None], ['a'])]
    filters = 0
    for kind, refs, params in case['nodes']:
        if kind == 'filter':
            # Slow to set up
            filters += 1
            if filters > 1:
                kind = 'gain'
        accept, outs = KINDS[kind]
        if kind == 'crush':
            # Full range only
            src = pick(nodes, refs[0], 'as')
            typ = nodes[src[0]][3][src[1]]
            nodes.append(('tanh', params[::-1], [src], [typ]))
            accept = []
            sources = [(len(nodes) - 1, 0)]
        else:
            sources = []
        for ref, types in zip(refs, accept):
            if types.isupper():
                src = pick(nodes, ref, types.lower()) if ref >= 0 else None
            else:
                src = pick(nodes, ref, types)
            sources.append(src)
        if kind == 'file':
            outs = 'as'[int(params[0] * 1.999)]
        elif kind in ('mix', 'mmix', 'smix'):
            sources = [s for s in sources if s]
        if outs in ('0', 't'):
            types = [nodes[a][3][b] for a, b in filter(None, sources)]
            outs = types[0]
            if kind in ('gain', 'trem', 'ring') and 'a' in types[1:] \
                    and outs == 'c':
                outs = 'a'
        nodes.append((kind, params, sources, list(outs)))
    return nodes


def pick(nodes, ref, types):
    cands = [(i, k) for i, node in enumerate(nodes)
             for k, typ in enumerate(node[3]) if typ in types]
    if not cands:
        return None
    # Prefer recent ones
    return cands[-1 - ref % min(len(cands), 6)] if ref % 3 else \
        cands[ref % len(cands)]


def reference(nodes, case):
    """Every block on its own. [buffer][node][output] values / messages."""
    import numpy as np
    from klang.clock import ClockMixin
    from klang.connections import MessageInput
    blocks, ears = [], []
    for kind, params, sources, outs in nodes:
        block = make(kind, params, case, len(sources))
        blocks.append(block)
        mine = []
        for out, typ in zip(block.outputs, outs):
            ear = None
            if typ == 'm':
                ear = MessageInput()
                out.connect(ear)
            mine.append(ear)
        ears.append(mine)
    rows = []
    for k in range(case['buffers']):
        ClockMixin.set_current_time(k * 256 / 44100.)
        row = []
        for block, mine, (kind, _, sources, outs) in zip(blocks, ears, nodes):
            for inp, src in zip(block.inputs, sources):
                if src is None:
                    continue
                val = row[src[0]][src[1]]
                if isinstance(inp, MessageInput):
                    for msg in val:
                        inp.push(msg)
                else:
                    inp.set_value(np.array(val))
            block.update()
            row.append([list(ear.receive()) if ear is not None
                        else np.array(out.value)
                        for out, ear in zip(block.outputs, mine)])
        rows.append(row)
    return rows


def build(nodes, case, how):
    """Patch the network. Returns blocks, probes [(node, output, probe)] and
    the inner blocks."""
    import random
    import numpy as np
    from klang.audio.mixer import Mixer
    from klang.block import Block
    from klang.composite import Composite
    from klang.connections import (MessageInput, MessageRelay, Output, Relay)

    class Probe(Block):

        """Keeps copies of what arrives."""

        def __init__(self, message):
            super().__init__(nInputs=1)
            if message:
                self.inputs = [MessageInput(owner=self)]
            self.message = message
            self.seen = None
            self.runs = 0

        def update(self):
            self.runs += 1
            self.seen = list(self.input.receive()) if self.message else \
                np.array(self.input.value)

    rng = random.Random(how['seed'])
    order = list(range(len(nodes)))
    rng.shuffle(order)
    inner, outer = {}, {}
    extra = []

    def wrap(block):
        comp = Composite(name='wrapped')
        for ports, mine in ((block.inputs, comp.inputs),
                            (block.outputs, comp.outputs)):
            for port in ports:
                cls = MessageRelay if isinstance(
                    port, (MessageInput, MessageRelay)) or \
                    not hasattr(port, 'get_value') else Relay
                relay = cls(owner=comp)
                mine.append(relay)
        used = set(range(len(block.inputs)))
        for k, (port, relay) in enumerate(zip(block.inputs, comp.inputs)):
            if cls_value(port) and k not in linked[block]:
                used.discard(k)     # Keeps its own value
                continue
            relay.connect(port)
        for port, relay in zip(block.outputs, comp.outputs):
            port.connect(relay)
        if not how['late']:
            comp.update_internal_exec_order(*([] if linked[block] or
                                              block.outputs else [block]))
        else:
            extra.append(comp)
        linked[comp] = linked[block]
        return comp

    def cls_value(port):
        return not isinstance(port, (MessageInput, MessageRelay))

    linked = {}
    operators = []
    for i in order:
        kind, params, sources, outs = nodes[i]
        if kind in ('plus', 'plus3'):
            operators.append(i)
            continue
        block = make(kind, params, case, len(sources))
        inner[i] = block
        linked[block] = {k for k, s in enumerate(sources) if s is not None}
        for _ in range(how['wrap'][i % 4]):
            block = wrap(block)
        outer[i] = block
    for i in sorted(operators):
        kind, params, sources, outs = nodes[i]
        first = outer[sources[0][0]]
        ports = [outer[a].outputs[b] for a, b in sources]
        if all(type(p) is Output for p in ports) and sources[0][1] == 0 \
                and not isinstance(first, Mixer) \
                and len(set(sources)) == len(sources):
            block = first + ports[1]
            for port in ports[2:]:
                block = block + port if rng.random() < .5 else port + block
        else:
            block = Mixer(len(sources))
            for inp, port in zip(block.inputs, ports):
                port.connect(inp)
        inner[i] = outer[i] = block
        linked[block] = set()
    links = []
    for i in order:
        if i in operators:
            continue
        for k, src in enumerate(nodes[i][2]):
            if src is not None:
                links.append((outer[src[0]].outputs[src[1]],
                              outer[i].inputs[k]))
    probes = []
    for i in order:
        for k, typ in enumerate(nodes[i][3]):
            for _ in range(1 + rng.randint(0, how['taps'])):
                probe = Probe(typ == 'm')
                probes.append((i, k, probe))
                links.append((outer[i].outputs[k], probe.input))
    rng.shuffle(links)
    for src, dst in links:
        style = rng.randint(0, 2)
        if style == 0:
            src.connect(dst)
        elif style == 1 and not isinstance(src, (Relay, MessageRelay)):
            dst.connect(src)
        elif dst.owner.inputs[0] is dst and src.owner.outputs[0] is src:
            src.owner | dst.owner
        else:
            src.owner | dst if src.owner.outputs[0] is src else \
                src.connect(dst)
    # Inner first
    for comp in extra:
        comp.update_internal_exec_order()
    blocks = list(outer.values()) + [p for _, _, p in probes]
    rng.shuffle(blocks)
    return blocks, probes, inner


def check(case, ctx):
    import os
    import tempfile
    import wave
    import numpy as np
    from klang.clock import ClockMixin
    from klang.execution import determine_execution_order, execute
    ctx.defer(ClockMixin.set_current_time, 0.)
    nodes = decode(case)
    case = dict(case, paths=[])
    if any(n[0] == 'file' for n in nodes):
        for channels in (1, 2):
            fd, path = tempfile.mkstemp('.wav')
            os.close(fd)
            ctx.defer(os.remove, path)
            data = np.random.RandomState(channels).randint(
                -30000, 30000, 900 * channels).astype('<i2')
            with wave.open(path, 'wb') as fh:
                fh.setnchannels(channels)
                fh.setsampwidth(2)
                fh.setframerate(44100)
                fh.writeframes(data.tobytes())
            case['paths'].append(path)
    ref = reference(nodes, case)
    flat = [v for row in ref for vals in row for v in vals
            if not isinstance(v, list)]
    if any(not (np.abs(v) < 1e6).all() for v in flat):
        ctx.label('too loud')
        return
    for how, twin in ((case['first'], False), (case['second'], case['twin'])):
        # The twin starts one buffer later
        nets = [build(nodes, case, how) for _ in range(1 + twin)]
        blocks = [block for net in nets for block in net[0]]
        late = {id(block) for net in nets[1:] for block in net[0]}
        start = list(blocks)
        if how['seed'] % 3 == 0:
            # One block of each separate network
            start = [b for b in blocks if not b.outputs]
        order = determine_execution_order(start)
        require(sorted(map(id, order)) == sorted(map(id, blocks)),
                'execution order has %d of %d blocks', len(order),
                len(blocks))
        for k in range(case['buffers']):
            ClockMixin.set_current_time(k * 256 / 44100.)
            execute(order if k else [b for b in order if id(b) not in late])
            for n, (_, probes, inner) in enumerate(nets[:k + 1]):
                for i, out, probe in probes:
                    require(probe.runs == k - n + 1, 'a probe ran %d times in '
                            '%d cycles', probe.runs, k - n + 1)
                    same(probe.seen, ref[k - n][i][out], nodes[i][0], out,
                         k - n)
                for i, block in inner.items():
                    for out, typ in enumerate(nodes[i][3]):
                        if typ != 'm':
                            same(np.array(block.outputs[out].value),
                                 ref[k - n][i][out], nodes[i][0], out, k - n,
                                 ' (at the end of the cycle)')
    uses = [s for n in nodes for s in n[2] if s]
    loud = {(i, k) for row in ref for i, vals in enumerate(row)
            for k, v in enumerate(vals) if np.any(v)}
    if any(n[0] in ('mono', 'poly', 'voice', 'env') and (i, 0) in loud
           for i, n in enumerate(nodes)):
        ctx.label('notes')
    if len(nodes) >= 6 and len(set(uses)) < len(uses) and len(loud) >= 3:
        ctx.hit('twin' if case['twin'] else None)


def same(got, exp, kind, out, k, what=''):
    from vlib.orc import close
    name = '%s output %d in buffer %d%s' % (kind, out, k, what)
    if isinstance(exp, list):
        require([tuple(m) for m in got] == [tuple(m) for m in exp],
                '%s: messages %s instead of %s', name,
                [tuple(m) for m in got], [tuple(m) for m in exp])
    else:
        close(got, exp, name, tol=1e-9)


TESTS = [
    Test('patches', strat, check, quick=500, thorough=20000),
]
