"""Computer keyboard as instrument."""
from vlib.common import Test, Fail, require

META = {
    'title': 'Keyboard: each key press is one note and its release stops that note',
    'statement': (
        'While a key is held its repeated press events cause nothing. A note '
        'key sends one note-on with the pitch of its key in the current '
        'octave, at the current velocity and tuned by the current '
        'temperament, and its release sends the note-off of that very note '
        'even if octave, velocity or temperament changed meanwhile, so that '
        'nothing keeps sounding once all keys are released. Octave, velocity '
        'and temperament keys work within their valid ranges, remaining keys '
        'are passed on if asked for, and no key sequence raises.'),
    'over': ['inputs', 'histories'],
    'quant': 'All histories of press and release events of any keys.',
    'why': 'No test covers the module; stuck notes need a change of octave '
           'while a key is held.',
    'files': ['klang/keyboard.py', 'klang/messages.py'],
    'mechanism': [
        {'name': 'Keyboard.on_press, on_release', 'where': 'klang/keyboard.py'},
        {'name': 'MusicalKeyboard.on_key_event, play_note, change_*',
         'where': 'klang/keyboard.py'}],
    'observe': ['messages of the outputs of the block'],
    'oracle': 'model of held keys, octave, velocity, temperament',
}
RULE = ('Cases are histories of key events given to the listener callbacks '
        '(pynput listener replaced by a stand-in). Non-trivial: a note key is '
        'released after octave, velocity or temperament changed, a key '
        'repeats, or the octave hits its limit.')
ASSUMPTIONS = ['Key events arrive through the callbacks given to pynput\'s '
               'Listener; the listener itself is replaced.']

NOTES = 'awsedftgzhujkolp'


class Key:

    """Like pynput.keyboard.KeyCode: equal by character."""

    def __init__(self, char):
        self.char = char

    def __eq__(self, other):
        return isinstance(other, Key) and self.char == other.char

    def __hash__(self):
        return hash(self.char)

    def __repr__(self):
        return 'Key(%r)' % self.char


class Special:

    """Like pynput.keyboard.Key members: no char."""

    def __repr__(self):
        return 'Special'


def stub():
    """klang.keyboard with a fake listener."""
    import sys
    import types
    made = []

    class Listener:

        def __init__(self, on_press=None, on_release=None, suppress=False,
                     **kwargs):
            self.on_press, self.on_release = on_press, on_release
            self.suppress, self.running = suppress, False
            made.append(self)

        def start(self):
            self.running = True

        def stop(self):
            self.running = False

        def is_alive(self):
            return self.running

    if 'klang.keyboard' not in sys.modules:
        pkg = types.ModuleType('pynput')
        mod = types.ModuleType('pynput.keyboard')
        mod.Listener = Listener
        pkg.keyboard = mod
        sys.modules['pynput'], sys.modules['pynput.keyboard'] = pkg, mod
    import klang.keyboard
    klang.keyboard.Listener = Listener
    return klang.keyboard, made


def strat():
    from hypothesis import strategies as st
    from vlib.gens import ops, weighted
    char = weighted((6, st.sampled_from(NOTES[:6])),
                    (2, st.sampled_from(NOTES)),
                    (4, st.sampled_from('yx')),
                    (3, st.sampled_from('cv')),
                    (2, st.sampled_from('0123456789')),
                    (1, st.sampled_from(['q', 'm', ' ', 'A', '\xb2', 'SPECIAL',
                                         'SPECIAL', 'SPECIAL 2', '', None])))
    event = st.tuples(char, st.sampled_from([1, 1, 0]))
    run = st.tuples(st.sampled_from('yxcv'), st.integers(1, 12)).map(
        lambda t: [[t[0], 1], [t[0], 0]] * t[1])
    chord = st.permutations(['SPECIAL', 'SPECIAL 2', 'a', 'y']).map(
        lambda p: [[c, 1] for c in p[:3]] + [[c, 0] for c in sorted(p[:3])])
    return st.fixed_dictionaries({
        'others': st.booleans(), 'base': st.sampled_from([0, 0, 0, 1]),
        'temper': st.integers(0, 5),
        'events': ops(weighted((5, event.map(lambda e: [list(e)])),
                               (1, run), (1, chord)), 40)})


def check(case, ctx):
    import contextlib
    import io
    from klang.connections import MessageInput
    from klang.messages import Note
    kb, made = stub()
    from klang.music.tunings import TEMPERAMENTS
    tempers = list(TEMPERAMENTS.values())
    if case['base']:
        block = kb.Keyboard()
    else:
        temper = tempers[case['temper']]
        block = (kb.MusicalKeyboard(others=case['others'],
                                    defaultTemperament=temper)
                 if case['temper'] else
                 kb.MusicalKeyboard(others=case['others']))
    listener = made[-1]
    # Another keyboard, which gets everything a little later
    twin = kb.Keyboard() if case['base'] else kb.MusicalKeyboard()
    follower = made[-1]
    twin.start()
    require('not running' in str(block), 'str %s', block)
    block.start()
    require(listener.running and 'not running' not in str(block),
            'not started')
    sinks = []
    for out in block.outputs:
        sinks.append(MessageInput(owner=None))
        out.connect(sinks[-1])
    octave, velocity = 5, 1.
    temper = tempers[case['temper']]
    held, playing = set(), {}
    special = {'SPECIAL': Special(), 'SPECIAL 2': Special()}

    def drain():
        return [list(sink.receive()) for sink in sinks]

    events = [e for group in case['events'] for e in group]
    events += [[c, 0] for c in NOTES]
    for nr, (char, down) in enumerate(events):
        if nr >= 2:
            other, press = events[nr - 2]
            with contextlib.redirect_stdout(io.StringIO()):
                (follower.on_press if press else follower.on_release)(
                    special.get(other) or Key(other))
            require(not any(drain()), 'key %r of another keyboard is sent',
                    other)
        key = special.get(char) or Key(char)
        with contextlib.redirect_stdout(io.StringIO()):
            (listener.on_press if down else listener.on_release)(key)
        got = drain()
        ident = char
        fresh = (ident not in held) if down else (ident in held)
        (held.add if down else held.discard)(ident)
        if not fresh:
            require(not any(got), 'repeated event of %r sends %s', char, got)
            if down:
                ctx.hit('repeat')
            continue
        if case['base']:
            require(len(got[0]) == 1 and got[0][0] is key
                    and key.pressed == bool(down), 'key %r sends %s', char,
                    got)
            ctx.hit('plain')
            continue
        if char and char in NOTES:
            require(len(got[0]) == 1 and not any(got[1:]),
                    'key %r (%s) sends %s', char, 'on' if down else 'off',
                    got)
            note = got[0][0]
            require(isinstance(note, Note), 'sent %r', note)
            if down:
                pitch = NOTES.index(char) + 12 * octave
                freq = temper.pitch_2_frequency(pitch)
                require(note.pitch == pitch and note.on
                        and abs(note.velocity - velocity) < 1e-9
                        and abs(note.frequency - freq) <= 1e-9 * freq,
                        'key %r plays %r instead of pitch %d, velocity %.1f, '
                        '%.2f Hz', char, tuple(note), pitch, velocity, freq)
                playing[char] = (note, octave, velocity, temper)
            else:
                on, *state = playing.pop(char)
                require(note.off and note.pitch == on.pitch
                        and note.frequency == on.frequency,
                        'key %r played %r and releases %r', char, tuple(on),
                        tuple(note))
                if state != [octave, velocity, temper]:
                    ctx.hit('changed')
            continue
        if not (case['others'] and any(got)):
            require(not any(got), 'key %r sends %s', char, got)
        require(not got[0], 'key %r sends note %s', char, got)
        if down and char in ('y', 'x'):
            octave += 1 if char == 'x' else -1
            if not 0 <= octave <= 9:
                ctx.hit('limit')
            octave = min(max(octave, 0), 9)
        elif down and char in ('c', 'v'):
            velocity += .1 if char == 'v' else -.1
            velocity = min(max(velocity, .1), 1.)
        elif down and char and char in '0123456789':
            temper = tempers[int(char)]
        elif case['others'] and not (
                char and char in 'yxcv0123456789'):
            require(len(got[1]) == 1 and got[1][0] is key
                    and key.pressed == bool(down),
                    'key %r is not passed on: %s', char, got)
            ctx.label('others')
        if down and char and char in 'yxcv0123456789':
            require(not any(got), 'key %r is passed on', char)
    require(not playing, 'still playing %s', playing)
    block.stop()
    require(not listener.running, 'not stopped')


TESTS = [Test('keys', strat, check, quick=500, thorough=20000)]
