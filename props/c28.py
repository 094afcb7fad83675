"""Arpeggiator block."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Arpeggiator steps once per interval and never leaves notes hanging',
    'statement': (
        'While notes are held the arpeggiator plays, exactly once per interval '
        '(seconds or a note value at the current tempo) and from the first '
        'buffer on, the next note of the chord in its order. Every played note '
        'is released exactly once, right before the next one starts or, when '
        'no note is held any more, at the next step, so that at most one note '
        'sounds. Pressing and releasing keys changes the chord but neither '
        'the timing nor what is sounding, repeated presses and stray releases '
        'are ignored.'),
    'over': ['histories', 'configurations'],
    'quant': ('All intervals above the buffer duration, orders and histories '
              'of key events.'),
    'why': 'No test covers the arpeggiator block.',
    'files': ['klang/arpeggiator.py', 'klang/audio/oscillators.py',
              'klang/music/tempo.py'],
    'state': ['Arpeggiator.prevPhase', 'Arpeggiator.prevNote',
              'Phasor.currentPhase'],
    'mechanism': [
        {'name': 'Arpeggiator.update', 'where': 'klang/arpeggiator.py'},
        {'name': 'Phasor.sample', 'where': 'klang/audio/oscillators.py'}],
    'observe': ['messages at the output'],
}
RULE = ('Cases are an interval, an order and a history of key events and '
        'buffers. Non-trivial: at least five steps with at least two notes '
        'held and one release.')
ASSUMPTIONS = ['histories in which a step falls within 1e-9 of a buffer '
               'border are not judged']


def strat():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted
    op = weighted(
        (4, st.tuples(st.just('on'), st.integers(0, 127), st.floats(.01, 1.))),
        (1, st.tuples(st.just('again'), st.integers(0, 20), st.just(.5))),
        (1, st.tuples(st.just('off'), st.integers(0, 20), st.just(0))),
        (1, st.tuples(st.sampled_from(['alloff', 'on', 'on', 'on']),
                      st.just(60), st.just(.5))),
        (1, st.tuples(st.just('stray'), st.integers(0, 127), st.just(0))),
        (6, st.tuples(st.just('run'), st.integers(1, 40),
                      st.just(0)))).map(list)
    return st.fixed_dictionaries({
        'interval': st.one_of(
            st.floats(.0059, .2), st.floats(.0059, .03),
            st.sampled_from(['note', None, .1]), st.floats(.2, 12.)),
        'order': st.sampled_from([None, 'up', 'down', 'upDown', 'downUp',
                                  'alternating', 'random']),
        'ops': oplist(op, 40)})


def check(case, ctx):
    from fractions import Fraction
    from klang.arpeggiator import Arpeggiator
    from klang.connections import MessageInput
    from klang.messages import Note
    from props.c27 import sequence
    interval, order = case['interval'], case['order']
    args = [] if interval is None else [interval]
    sec = interval or .1
    if interval == 'note':
        args, sec = [Fraction(1, 16)], .125
    kwargs = {'order': order} if order else {}
    block = Arpeggiator(*args, **kwargs)
    recv = MessageInput()
    block.output.connect(recv)
    held, current, sounding, k, played = {}, 0, None, 0, []
    steps, offs, waiting = 0, 0, 0

    def send(pitch, vel):
        nonlocal waiting
        waiting += 1
        block.input.push(Note(pitch, vel))

    def changed():
        nonlocal current
        n = len(sequence(order, len(held)) or held)
        current = current % n if n else 0

    for op, a, b in case['ops'] + [['alloff', 0, 0], ['run', 45, 0]]:
        pitches = sorted(held)
        if op in ('on', 'again'):
            if op == 'again' and pitches:
                a = pitches[a % len(pitches)]
            send(a, b)
            if a not in held:
                held[a] = Note(a, b)
                changed()
        elif op == 'off':
            if pitches:
                a = pitches[a % len(pitches)]
                send(a, 0.)
                del held[a]
                changed()
                offs += 1
        elif op == 'stray':
            if a not in held:
                send(a, 0.)
        elif op == 'alloff':
            for a in pitches[:20]:
                send(a, 0.)
                del held[a]
                changed()
        if waiting > 25 and op != 'run':
            op, a = 'run', 1
        if op != 'run':
            continue
        waiting = 0
        if sec > .3:
            # Fast forward, but not forever
            a = min(a * int(sec * 20), max(0, 6000 - k))
        for _ in range(a):
            block.update()
            got = [tuple(n) for n in recv.receive()]
            x, prev = k * 256 / 44100. / sec, (k - 1) * 256 / 44100. / sec
            if k and abs(x - round(x)) < 1e-9 * max(1, k):
                ctx.label('border')
                return
            step = k == 0 or int(x) > int(prev)
            k += 1
            if not step:
                require(not got, 'sent %s between two steps (buffer %d, '
                        'interval %r)', got, k - 1, sec)
                continue
            exp = []
            if sounding is not None:
                exp.append((sounding.pitch, 0., sounding.frequency))
                sounding = None
            if held:
                seq = sequence(order, len(held))
                if seq is None:
                    require(len(got) == len(exp) + 1, 'sent %s', got)
                    sounding = held.get(got[-1][0])
                    require(sounding is not None, 'plays %s which is not '
                            'held', got[-1])
                else:
                    sounding = held[sorted(held)[seq[current]]]
                    current = (current + 1) % len(seq)
                exp.append(tuple(sounding))
                steps += len(held) > 1
            require(got == exp, 'step at buffer %d, interval %r, order %s: '
                    'sent %s instead of %s', k - 1, sec, order, got, exp)
    require(sounding is None or sec > .26, 'harness')
    if steps >= 5 and offs:
        ctx.hit(order or 'default')


TESTS = [Test('arpeggiator', strat, check, quick=700, thorough=40000)]
TESTS.append(together('C28'))
RULE += PAIRS
