"""Arpeggio note order."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Arpeggio plays the held chord in its order, each note its turn',
    'statement': (
        'An arpeggio holds one note per pitch, sorted by pitch, and plays them '
        'cyclically: upwards, downwards, up and down without repeating the '
        'turning points, alternating lower and upper half from the outside '
        'in, or in a fixed random permutation in which every note occurs once '
        'per cycle. Adding a held pitch changes nothing, adding or removing a '
        'note keeps the position in the cycle modulo its new length, so that '
        'the next note is always one that is held. Removing a pitch which is '
        'not held raises ValueError, as do unknown orders, and the empty '
        'arpeggio stops iteration.'),
    'over': ['histories', 'configurations'],
    'quant': 'All orders, chords and interleavings of adding, removing, playing.',
    'why': 'Tests play fixed chords of at most five notes.',
    'files': ['klang/arpeggiator.py'],
    'state': ['Arpeggio.notes', 'Arpeggio.permutation', 'Arpeggio.current'],
    'mechanism': [
        {'name': 'arpeggio_index_permutation, interleave, Arpeggio',
         'where': 'klang/arpeggiator.py'}],
    'observe': ['next(arpeggio)', 'len(), in, iteration of the arpeggio'],
}
RULE = ('Cases are an order and a history of added, removed and played notes. '
        'Non-trivial: at least three notes held, a change after playing and '
        'at least six notes played.')


def strat():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted
    op = weighted(
        (3, st.tuples(st.just('add'), st.integers(0, 127), st.floats(.01, 1.))),
        (1, st.tuples(st.just('again'), st.integers(0, 20), st.just(.5))),
        (2, st.tuples(st.just('remove'), st.integers(0, 20), st.just(0))),
        (1, st.tuples(st.just('stray'), st.integers(0, 127), st.just(0))),
        (5, st.tuples(st.just('play'), st.integers(1, 7),
                      st.just(0)))).map(list)
    return st.fixed_dictionaries({
        'order': st.sampled_from(['up', 'down', 'upDown', 'downUp',
                                  'alternating', 'random', None]),
        'initial': st.lists(st.integers(0, 127), max_size=6),
        'ops': oplist(op, 50)})


def sequence(order, n):
    """Indices of one cycle; None for random."""
    if n <= 1:
        return list(range(n))
    up = list(range(n))
    if order in (None, 'up'):
        return up
    if order == 'down':
        return up[::-1]
    if order == 'upDown':
        return up + up[-2:0:-1]
    if order == 'downUp':
        return up[::-1] + up[1:-1]
    if order == 'alternating':
        return [i // 2 if i % 2 == 0 else n - 1 - i // 2 for i in range(n)]
    return None


def check(case, ctx):
    from klang.arpeggiator import Arpeggio
    from klang.messages import Note
    from vlib.orc import raises
    order = case['order']
    if order == 'random':
        # All the same by chance: once in 720 ** 7
        perms = [Arpeggio('random', [Note(60 + i, .5) for i in range(6)])
                 for _ in range(8)]
        perms = {tuple(next(arp).pitch for _ in range(6)) for arp in perms}
        require(len(perms) > 1, 'random order is always %s', perms)
    initial = [Note(p, .1 + .01 * i) for i, p in enumerate(case['initial'])]
    arp = Arpeggio(*((order,) if order else ()), initialNotes=initial)
    held = {}
    for note in initial:
        held.setdefault(note.pitch, note)
    current, cycle = 0, []
    most, played, changes = len(held), 0, 0

    def changed():
        nonlocal current, changes
        n = len(sequence(order, len(held)) or held)
        current = current % n if n else 0
        cycle.clear()
        changes += played > 0

    for op, a, b in case['ops']:
        pitches = sorted(held)
        if op in ('add', 'again'):
            if op == 'again' and pitches:
                a = pitches[a % len(pitches)]
            a %= 128
            note = Note(a, b)
            arp.add_note(note)
            if a not in held:
                held[a] = note
                changed()
        elif op == 'remove':
            if not pitches:
                continue
            a = pitches[a % len(pitches)]
            # By pitch, e.g. with a note-off
            arp.remove_note(held[a].silence())
            del held[a]
            changed()
        elif op == 'stray':
            if a not in held:
                require(raises(ValueError, arp.remove_note, Note(a, 0.)),
                        'removed a note which is not held')
                require((Note(a) in arp) is False, 'contains a stray note')
        else:
            if not held:
                require(raises(StopIteration, next, arp), 'empty arpeggio '
                        'plays')
                continue
            exp = sequence(order, len(held))
            for _ in range(a):
                note = next(arp)
                played += 1
                if exp is None:
                    require(held.get(note.pitch) == note, 'plays %s which is '
                            'not held', note)
                    # Complete cycles are permutations, and all the same
                    cycle.append(note.pitch)
                    n = len(held)
                    if len(cycle) >= n:
                        require(sorted(cycle[-n:]) == sorted(held), 'random '
                                'cycle %s of %s', cycle[-n:], sorted(held))
                else:
                    want = held[sorted(held)[exp[current]]]
                    require(note == want, 'plays %s instead of %s (order %s, '
                            'position %d of %s)', note, want, order, current,
                            sorted(held))
                    current = (current + 1) % len(exp)
        require(len(arp) == len(held), '%d notes instead of %d', len(arp),
                len(held))
        require([n for n in arp] == [held[p] for p in sorted(held)],
                'notes %s', [n.pitch for n in arp])
        require(all(Note(p, 0.) in arp for p in held), 'held pitch missing')
        most = max(most, len(held))
    if most >= 3 and played >= 6 and changes:
        ctx.hit(order or 'default')


def strat_perm():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'order': st.sampled_from(['up', 'down', 'upDown', 'downUp',
                                  'alternating', 'random', 'Up', '', 'x']),
        'n': st.one_of(st.integers(0, 12), st.integers(0, 200)),
        'm': st.integers(0, 12)})


def check_perm(case, ctx):
    from klang.arpeggiator import (VALID_ORDERS, Arpeggio,
                                   arpeggio_index_permutation, interleave)
    from vlib.orc import raises
    order, n, m = case['order'], case['n'], case['m']
    if order not in ('up', 'down', 'upDown', 'downUp', 'alternating',
                     'random'):
        require(order not in VALID_ORDERS, 'order %r is valid', order)
        require(raises(ValueError, arpeggio_index_permutation, order, n),
                'order %r accepted', order)
        require(raises(ValueError, Arpeggio, order), 'order %r accepted',
                order)
        return
    got = list(arpeggio_index_permutation(order, n))
    exp = sequence(order, n)
    if exp is None:
        require(sorted(got) == list(range(n)), 'random order %s', got)
    elif n == 0:
        require(got == [], 'empty order %s', got)
    else:
        require(got == exp, 'order %s of %d: %s instead of %s', order, n, got,
                exp)
    a, b = list(range(n % 20)), ['x%d' % i for i in range(m)]
    got = interleave(a, b)
    require([v for v in got if v in a] == a and [v for v in got if v in b]
            == b and len(got) == len(a) + len(b), 'interleaved %s', got)
    k = min(len(a), len(b))
    require(got[:2 * k:2] == a[:k] and got[1:2 * k:2] == b[:k],
            'interleaved %s', got)
    if n >= 3:
        ctx.hit(order)


TESTS = [
    Test('arpeggio', strat, check, quick=800, thorough=60000),
    Test('orders', strat_perm, check_perm, quick=300, thorough=5000),
]
TESTS.append(together('C27'))
RULE += PAIRS
