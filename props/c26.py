"""Note message effects."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Note effects: every note ends once, limits hold, no message lost',
    'statement': (
        'The note lengthener passes each note-on at once and sends exactly one '
        'note-off for it, of the same pitch and frequency, at the first update '
        'not earlier than its duration after the note-on, releases before '
        'onsets, also if the duration is changed meanwhile. The note limiter never leaves more than its number of notes '
        'sounding, releases the oldest first and before the new one starts, '
        'and passes every note-on, also if the limit is changed. The message mixer passes every message of '
        'every input exactly once, keeping the order within each input.'),
    'over': ['histories', 'inputs', 'configurations'],
    'quant': ('All note streams, clock steps, durations, limits and numbers of '
              'inputs, also with the effects chained.'),
    'why': 'One note-on with one note-off is tested.',
    'files': ['klang/note_effects.py', 'klang/clock.py', 'klang/messages.py',
              'klang/connections.py'],
    'state': ['NoteLengthener.activeNotes', 'MaxNotes.activeNotes'],
    'mechanism': [
        {'name': 'NoteLengthener.update, MaxNotes.update, MessageMixer.update',
         'where': 'klang/note_effects.py'}],
    'observe': ['messages at the outputs'],
    'oracle': 'a model of the sounding notes',
}
RULE = ('Cases are an effect and a history of messages and clock steps. '
        'Non-trivial: at least four note-ons and two note-offs sent.')
ASSUMPTIONS = ['both effects define note lengths on their own: incoming '
               'note-offs are not passed on']


def note_ops(*extra):
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted
    op = weighted(
        (5, st.tuples(st.just('on'), st.integers(58, 63), st.floats(.01, 1.))),
        (1, st.tuples(st.just('off'), st.integers(58, 63), st.just(0))),
        # The very same message once more
        (1, st.tuples(st.just('again'), st.just(0), st.just(0))),
        (5, st.tuples(st.just('step'), st.one_of(
            st.just(0.), st.floats(0., .05), st.floats(0., 1.)),
            st.just(0))),
        *extra).map(list)
    return oplist(op, 60).map(flush)


def flush(ops, every=12):
    """Message queues are bounded: update at least every 12 messages."""
    out, count = [], 0
    for op in ops:
        out.append(op)
        count = 0 if op[0] in ('step', 'update') else count + 1
        if count >= every:
            out.append(['step', .01, 0] if len(op) > 2 else ['update', 0])
            count = 0
    return out


def strat_len():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'duration': st.one_of(st.sampled_from([0., .1, 1.]),
                              st.floats(0., 1.)),
        # Also across full seconds, minutes, hours, days
        'start': st.one_of(st.sampled_from([0., 0., 12345.67]), st.tuples(
            st.sampled_from([1., 10., 60., 3600., 86400., 65536.]),
            st.integers(1, 20), st.floats(.01, 3.)).map(
                lambda t: max(0., t[0] * t[1] - t[2]))),
        'ops': note_ops((1, st.tuples(st.just('set'), st.floats(0., 1.),
                                      st.just(0))),
                        (1, st.tuples(st.just('burst'), st.integers(5, 40),
                                      st.just(0))))})


def clock(ctx, now):
    from klang.clock import ClockMixin
    ClockMixin.set_current_time(now)
    ctx.defer(ClockMixin.set_current_time, 0.)


def check_len(case, ctx):
    from klang.connections import MessageInput
    from klang.messages import Note
    from klang.note_effects import NoteLengthener
    dur, now = case['duration'], case['start']
    block = NoteLengthener(dur)
    recv = MessageInput()
    block.output.connect(recv)
    clock(ctx, now)
    active, waiting, ons, offs, last = [], [], 0, 0, None
    for op, a, b in case['ops'] + [['step', 0., 0], ['step', 2., 0]]:
        if op == 'set':
            # Holds for the notes to come
            block.duration = dur = a
            continue
        if op == 'burst':
            for i in range(min(a, 48 - len(active) - len(waiting))):
                note = Note(20 + i, .5, 5000. + len(waiting) + i)
                block.input.push(note)
                waiting.append(note)
            continue
        if op != 'step':
            if len(active) + len(waiting) >= 48:
                continue  # The messages have to fit into a queue
            if op == 'again':
                if last is None:
                    continue
                note = last
            else:
                freq = 100. + len(waiting) + a
                last = note = Note(a, b if op == 'on' else 0., freq)
            block.input.push(note)
            waiting.append(note)
            continue
        now += a
        clock(ctx, now)
        exp = []
        for end, note in active:
            if end <= now:
                exp.append((note.pitch, 0., note.frequency))
                offs += 1
        active = [entry for entry in active if entry[0] > now]
        for note in waiting:
            if note.velocity:
                exp.append(tuple(note))
                active.append((now + dur, note))
                ons += 1
        waiting = []
        block.update()
        got = [tuple(n) for n in recv.receive()]
        # Releases of the same update in any order
        k = sum(not vel for _, vel, _ in exp)
        got[:k], exp[:k] = sorted(got[:k]), sorted(exp[:k])
        require(got == exp, 'at time %r: sent %s instead of %s', now, got, exp)
    require(not active, 'harness: %s', active)
    if ons >= 4 and offs >= 2:
        ctx.hit()


def strat_max():
    from hypothesis import strategies as st
    from vlib.gens import weighted
    limit = st.tuples(st.just('set'), st.integers(1, 8), st.just(0))
    # (more notes than one buffer's queue holds are sent piece by piece)
    many = st.tuples(st.just('many'), st.integers(10, 300), st.just(.5))
    few = st.fixed_dictionaries({'n': st.integers(1, 5),
                                 'ops': note_ops((1, limit)),
                                 'default': st.booleans()})
    return weighted((9, few), (1, st.fixed_dictionaries({
        'n': st.integers(10, 300), 'ops': note_ops((4, many)),
        'default': st.just(False)})))


def check_max(case, ctx):
    from klang.connections import MessageInput
    from klang.messages import Note
    from klang.note_effects import MaxNotes
    n = case['n']
    if case['default']:
        n, block = 1, MaxNotes()
    else:
        block = MaxNotes(n)
    recv = MessageInput()
    block.output.connect(recv)
    active, exp, ons, offs = [], [], 0, 0
    last = None
    pushed = []

    def update():
        nonlocal exp, offs, ons
        for note in pushed:
            active.append(note)
            while len(active) > n:
                old = active.pop(0)
                exp.append((old.pitch, 0., old.frequency))
                offs += 1
            exp.append(tuple(note))
            ons += 1
        del pushed[:]
        block.update()
        got = [tuple(m) for m in recv.receive()]
        require(got == exp, 'sent %s instead of %s', got, exp)
        exp = []

    for op, a, b in case['ops'] + [['step', 0., 0]]:
        if op == 'many':
            for i in range(a):
                note = Note(i % 128, b, 2000. + i)
                block.input.push(note)
                pushed.append(note)
                if len(pushed) >= 12:
                    update()
            continue
        if op == 'set':
            # Counts from the next note on
            block.nNotes = n = a
            continue
        if op != 'step':
            if op == 'again':
                if last is None:
                    continue
                note = last
            else:
                last = note = Note(a, b if op == 'on' else 0.,
                                   100. + a + len(pushed))
            block.input.push(note)
            if note.velocity:
                pushed.append(note)
            continue
        update()
    if ons >= 4 and offs >= 2:
        ctx.hit('limit %d' % n)


def strat_mix():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist
    op = st.tuples(st.sampled_from(['msg', 'msg', 'msg', 'again', 'update',
                                   'add']),
                   st.integers(0, 9)).map(list)
    return st.fixed_dictionaries({'n': st.sampled_from([None, 0, 1, 2, 3, 5]),
                                  'ops': oplist(op, 50).map(flush)})


def check_mix(case, ctx):
    from klang.connections import MessageInput
    from klang.note_effects import MessageMixer

    class Falsy(tuple):
        def __bool__(self):
            return False
    mixer = MessageMixer() if case['n'] is None else MessageMixer(case['n'])
    n = 2 if case['n'] is None else case['n']
    require(len(mixer.inputs) == n, '%d inputs', len(mixer.inputs))
    recv = MessageInput()
    mixer.output.connect(recv)
    sent, count, updates, last = [[] for _ in range(n)], 0, 0, None
    for op, a in case['ops'] + [['update', 0]]:
        if op == 'add':
            if n < 7:
                mixer.add_new_channel()
                sent.append([])
                n += 1
        elif op == 'msg':
            if n:
                msg = (a % n, count)
                last = a % n, Falsy(msg) if a % 3 == 0 else msg, count
                mixer.inputs[a % n].push(last[1])
                sent[a % n].append(count)
                count += 1
        elif op == 'again':
            # The very same message once more
            if last:
                mixer.inputs[last[0]].push(last[1])
                sent[last[0]].append(last[2])
        else:
            mixer.update()
            got = [[] for _ in range(n)]
            for chan, msg in recv.receive():
                got[chan].append(msg)
            require(got == sent, 'mixed %s instead of %s', got, sent)
            sent = [[] for _ in range(n)]
            updates += 1
    if count >= 5 and updates >= 2 and n > 1:
        ctx.hit('%d inputs' % n)


def strat_chain():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'n': st.integers(1, 4), 'duration': st.floats(.01, .5),
        'ops': note_ops()})


def check_chain(case, ctx):
    """Mixer of a limited and a lengthened stream into a synthesizer view."""
    from klang.connections import MessageInput
    from klang.messages import Note
    from klang.note_effects import MaxNotes, MessageMixer, NoteLengthener
    limit, length = MaxNotes(case['n']), NoteLengthener(case['duration'])
    mixer = MessageMixer(2)
    limit.output.connect(length.input)
    length.output.connect(mixer.inputs[1])
    recv = MessageInput()
    mixer.output.connect(recv)
    now, ons, sent, passed, releases = 0., [], 0, 0, 0
    clock(ctx, now)
    pending = []
    for op, a, b in case['ops'] + [['step', 0., 0]]:
        if op == 'on':
            # Frequency identifies the note
            sent += 1
            limit.input.push(Note(a, b, 1000. + sent))
        elif op == 'off':
            mixer.inputs[0].push(Note(a, 0., 1.))
            passed += 1
        else:
            now += a
            clock(ctx, now)
            for block in (limit, length, mixer):
                block.update()
            for note in recv.receive():
                if note.frequency == 1.:
                    releases += 1
                elif note.on:
                    ons.append((note.frequency, now))
                    pending.append(note.frequency)
                else:
                    require(note.frequency in pending, 'release without onset')
                    pending.remove(note.frequency)
            late = [f for f, t in ons if f in pending
                    and now - t > case['duration'] + 1e-9]
            require(not late, 'note hangs')
    require([f for f, _ in ons] == [1000. + i + 1 for i in range(sent)],
            'onsets lost or reordered')
    require(releases == passed, '%d releases instead of %d', releases, passed)
    if sent >= 4 and passed >= 2:
        ctx.hit()


TESTS = [
    Test('lengthener', strat_len, check_len, quick=600, thorough=40000),
    Test('limiter', strat_max, check_max, quick=500, thorough=30000),
    Test('mixer', strat_mix, check_mix, quick=500, thorough=30000),
    Test('chain', strat_chain, check_chain, quick=300, thorough=20000),
]
TESTS.append(together('C26'))
RULE += PAIRS
