"""MIDI output."""
from vlib.common import Test, Fail, require

META = {
    'title': 'MIDI output sends every note as the right message on its channel',
    'statement': (
        'Every note received is sent as one message, in order: note-on or '
        'note-off status of the channel, the pitch, and the velocity scaled '
        'from [0, 1] to 0 to 127. All three bytes are valid, the velocity '
        'never decreases when the note gets louder, and a note-on never has '
        'velocity zero, which MIDI takes for a note-off. The block opens the '
        'selected port, or a virtual one if there is none, and closes it by '
        'the end.'),
    'over': ['inputs', 'histories'],
    'quant': 'All notes, channels and histories of messages and updates.',
    'why': 'No test covers the module.',
    'files': ['klang/midi.py'],
    'mechanism': [{'name': 'note_to_midi_message, MidiOut, open_midiout',
                   'where': 'klang/midi.py'}],
    'observe': ['messages given to rtmidi (replaced by a recorder)'],
    'oracle': 'MIDI 1.0 channel voice messages',
}
RULE = ('Cases are a channel and a history of notes and updates. Non-trivial: '
        'a channel other than zero with at least two notes, or a velocity '
        'below 1 / 127.')
ASSUMPTIONS = ['rtmidi is replaced by a recorder of ports and messages.']


def strat():
    from hypothesis import strategies as st
    from vlib.gens import ops, weighted
    note = st.tuples(st.integers(0, 127),
                     st.one_of(st.floats(0, 1),
                               st.sampled_from([0., 1., .5, .007, .001, 1e-9,
                                                5e-324, 1 / 127., .999])),
                     st.one_of(st.none(), st.floats(0, 1e4)))
    return st.fixed_dictionaries({
        'channel': st.one_of(st.none(), st.integers(0, 15)),
        'second': st.booleans(),
        'port': st.integers(0, 3), 'ports': st.integers(0, 4),
        'burst': st.sampled_from([1, 6, 6, 20, 50]),
        'ops': ops(weighted((8, note.map(list)), (1, st.none())), 90)})


class FakeOut:

    log = []
    names = []
    made = None

    def __init__(self, *args, **kwargs):
        FakeOut.log = self.log = []
        FakeOut.made = self
        self.opened = None

    def get_ports(self):
        return list(FakeOut.names)

    def open_port(self, port=0, name=None):
        self.opened = port

    def open_virtual_port(self, name=None):
        self.opened = 'virtual'

    def send_message(self, msg):
        self.log.append(list(msg))

    def close_port(self):
        self.log.append('close')


def midi_module():
    import sys
    import types
    if 'klang.midi' not in sys.modules:
        mod = types.ModuleType('rtmidi')
        mod.MidiOut = FakeOut
        sys.modules['rtmidi'] = mod
    import klang.midi
    klang.midi.rtmidi = sys.modules['rtmidi']
    return klang.midi


def message(note, channel):
    """Status and pitch are exact, velocity within rounding."""
    return [(0x90 if note.velocity > 0 else 0x80) | channel, note.pitch]


def verify(msg, note, channel):
    require(len(msg) == 3 and all(isinstance(b, int) for b in msg),
            'message %s', msg)
    require(0x80 <= msg[0] <= 0xff and 0 <= msg[1] <= 127
            and 0 <= msg[2] <= 127, 'invalid message %s', msg)
    require(msg[:2] == message(note, channel), '%r on channel %d is %s',
            tuple(note), channel, msg)
    require(abs(msg[2] - 127 * note.velocity) <= 1, 'velocity %s is %d',
            note.velocity, msg[2])
    require((msg[2] > 0) == (note.velocity > 0), 'velocity %s is %d',
            note.velocity, msg[2])
    require(note.velocity < 1 or msg[2] == 127, 'full velocity is %d', msg[2])


def check(case, ctx):
    import contextlib
    import io
    from klang.messages import Note
    midi = midi_module()
    FakeOut.names = ['port %d' % i for i in range(case['ports'])]
    channel = case['channel'] or 0
    with contextlib.redirect_stdout(io.StringIO()):
        if case['channel'] is None:
            block = midi.MidiOut(case['port'])
        else:
            block = midi.MidiOut(portNumber=case['port'],
                                 channel=case['channel'])
    dev = FakeOut.made
    require(dev.opened == (case['port'] if case['ports'] else 'virtual'),
            'opened port %s', dev.opened)
    other = None
    if case.get('second', False):
        with contextlib.redirect_stdout(io.StringIO()):
            other = midi.MidiOut(case['port'] + 1, 15 - channel)
        require(FakeOut.made is not dev, 'second output opens no port')
        ctx.label('second output')
        second = FakeOut.made
    pending, seen, quiet = [], [], False
    for op in case['ops'] + ['end', 'end']:
        if op is None and len(pending) % 2 and case.get('burst', 6) > 6:
            continue  # Let them pile up
        if op is not None and op != 'end':
            note = Note(*op)
            quiet = quiet or 0 < note.velocity < 1 / 127.
            block.input.push(note)
            pending.append(note)
            if len(pending) < case.get('burst', 6):
                continue
        del dev.log[:]
        block.update()
        require(len(dev.log) == len(pending), '%d messages for %d notes',
                len(dev.log), len(pending))
        for msg, note in zip(dev.log, pending):
            verify(msg, note, channel)
            seen.append((note.velocity, msg[2]))
        pending = []
    if other is not None:
        other.update()
        require(second.log == [], 'the other output sends %s', second.log)
        other.input.push(Note(60, 1.))
        other.update()
        require(len(second.log) == 1, 'the other output sends %s', second.log)
        verify(second.log[0], Note(60, 1.), 15 - channel)
    seen.sort()
    require(all(a[1] <= b[1] for a, b in zip(seen, seen[1:])),
            'louder note has lower velocity: %s', seen)
    for op in case['ops'][:5]:
        if op is not None:
            note = Note(*op)
            for ch in (0, 9, 15):
                verify(midi.note_to_midi_message(note, channel=ch), note, ch)
            verify(midi.note_to_midi_message(note), note, 0)
    del dev.log[:]
    block.__del__()
    require(dev.log == ['close'], 'port is not closed')
    if channel and len(seen) > 1:
        ctx.hit('channel')
    if quiet:
        ctx.hit('quiet')


TESTS = [Test('midi', strat, check, quick=500, thorough=20000)]
