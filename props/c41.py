"""Notation."""
from vlib.common import Test, Fail, require

META = {
    'title': 'Sheet music: every note, bar line, beam is drawn once, in its place',
    'statement': (
        'The rendered text shows each note in order with the head, dot and '
        'stem of its value (filled below a half, stem below a whole note), '
        'one bar line per bar completed before a note, and lines of equal '
        'width. Eighths and sixteenths have one and two beams, which connect '
        'notes of the same group only, and longer notes get proportionally '
        'more room. Tuplets show a bracket with their ratio as wide as their '
        'notes, the time signature shows metre or grouping, and notes below '
        'a sixteenth raise ValueError.'),
    'over': ['inputs'],
    'quant': 'All sequences of (dotted) whole to sixteenth notes and nested '
             'tuplets of them, default metres and groupings.',
    'why': 'No test covers the module.',
    'files': ['klang/music/note_formatting.py'],
    'mechanism': [
        {'name': 'format_notes, format_note, note_head, note_beam, '
                 '_beam_needs_to_end, format_tuplet, format_time_signature, '
                 'hstack', 'where': 'klang/music/note_formatting.py'}],
    'observe': ['format_notes(), format_time_signature(), hstack()'],
    'oracle': 'positions of heads, bar lines and beams by exact fractions',
}
RULE = ('Cases are note sequences. Non-trivial: at least three notes of two '
        'values crossing a bar line, or a tuplet.')

HEADS = '\u25cf\u25cb'  # Filled, empty
# One and two beams: begin, go on, end
BEAMS = {1: '\u250c\u252c\u2510', 2: '\u2552\u2564\u2555'}
BAR = '\u2502'
LINES = '\u2500\u2550'

VALUES = [[1, 1], [3, 2], [1, 2], [3, 4], [1, 4], [3, 8], [1, 8], [3, 16],
          [1, 16]]
LONG = [[2, 1], [3, 1], [4, 1], [8, 1]]
METRES = {'4/4': (4, 4, 4 * [2]), '3/4': (3, 4, 3 * [2]),
          '2/4': (2, 4, 2 * [2]), '6/8': (6, 8, [3, 3]),
          '9/8': (9, 8, [3, 3, 3]), '5/8': (5, 8, [3, 2])}


def s_notes():
    from hypothesis import strategies as st
    from vlib.gens import weighted, ops
    note = weighted((4, st.sampled_from(VALUES[:4])),
                    (1, st.sampled_from(LONG)),
                    (12, st.sampled_from(VALUES[4:6])),
                    (28, st.sampled_from(VALUES[6:])))
    return st.fixed_dictionaries({
        'notes': ops(note, 24),
        'metre': st.one_of(st.sampled_from([None] + sorted(METRES)),
                           st.lists(st.integers(1, 4), min_size=2,
                                    max_size=4),
                           st.lists(st.integers(1, 2), min_size=5,
                                    max_size=9)),
        'strech': st.booleans(), 'sign': st.booleans()})


def c_notes(case, ctx):
    from fractions import Fraction as F
    from klang.music import note_formatting as nf
    from klang.music.metre import create_metre
    notes = [F(a, b) for a, b in case['notes']]
    kw = {}
    if case['metre'] is None:
        num, den, groups = METRES['4/4']
        label = '4'
    elif isinstance(case['metre'], str):
        num, den, groups = METRES[case['metre']]
        kw['metre'] = create_metre(num, den)
        label = str(num) if num != 5 else '3+2'
    else:
        groups = case['metre']
        kw['grouping'] = [F(g, 8) for g in groups]
        den = max(f.denominator for f in kw['grouping'])
        num = sum(groups) * den // 8
        label = str(num)
        if num % 2 and num % 3:
            label = '+'.join(str(g * den // 8) for g in groups)
    metre = F(sum(groups), 8)
    if not case['strech']:
        kw['strech'] = False
    if not case['sign']:
        kw['timeSignature'] = False
    text = nf.format_notes(notes, **kw)
    rows = text.split('\n')
    require(len(rows) == 3, '%d lines:\n%s', len(rows), text)
    require(len(set(map(len, rows))) == 1, 'lines of different width:\n%s',
            text)
    top, mid, low = rows
    offset = 0
    if case['sign']:
        width = max(len(label), len(str(den)))
        require([r[:width].strip() for r in rows]
                == [label, '-' * width, str(den)] and
                [r[width] for r in rows] == [' '] * 3,
                'time signature of %s/%d:\n%s', label, den, text)
        offset = width
    cols = [i for i, c in enumerate(low) if c in HEADS]
    require(len(cols) == len(notes), '%d heads for %d notes:\n%s', len(cols),
            len(notes), text)
    bars = [i for i, c in enumerate(low) if c == BAR]
    for i in bars:
        require(top[i] == mid[i] == BAR, 'bar line at %d:\n%s', i, text)
    require(set(low[offset:]) <= set(HEADS + ' .' + BAR), 'bottom line:\n%s',
            text)
    start, raster = F(0), min(notes)
    prev = None
    for k, (note, i) in enumerate(zip(notes, cols)):
        what = 'note %d (%s):\n%s' % (k, note, text)
        require((low[i] == HEADS[1]) == (note >= F(1, 2)), 'head of %s', what)
        require((low[i + 1] == '.') == (note.numerator == 3), 'dot of %s',
                what)
        require(mid[i + 1] == (BAR if note < 1 else ' '), 'stem of %s', what)
        flags = 2 if note < F(1, 8) or note == F(1, 16) else (
            1 if note < F(1, 4) else 0)
        if note == F(3, 16):
            flags = 1
        ch = top[i + 1]
        if flags:
            require(ch in BEAMS[flags], 'beam %r of %s', ch, what)
            pos = BEAMS[flags].index(ch)
        else:
            require(ch == (BAR if note < 1 else ' '), 'stem of %s', what)
            pos = 2
        # Bars completed before this note
        exp = start // metre
        got = sum(b < i for b in bars)
        require(got == exp, '%d bar lines instead of %d before %s', got, exp,
                what)
        # Beams
        if prev is not None:
            ppos, pstart, pi = prev
            lastBar = [b for b in bars if pi < b < i]
            between = top[pi + 2:i]
            if ppos < 2:
                # Joined with this note, which hence is of the same group.
                a, b = group(pstart, groups), group(start, groups)
                require(a == b, 'beam between groups %s and %s at %s', a, b,
                        what)
                require(not lastBar and set(between) <= set(LINES)
                        and pos > 0, 'beam is interrupted before %s', what)
            else:
                require(not set(between) & set(LINES), 'beam before %s', what)
                require(pos != 1, 'beam goes on at %s', what)
            room = i - pi - 3 * len(lastBar)
            key = notes[k - 1]
            exp = 3 + (int(key / raster) - 1 if case['strech'] else 0)
            require(room == exp, '%d columns instead of %d before %s', room,
                    exp, what)
        # Does the beam end where its group ends?
        end = start + note
        if flags and group(start, groups) != group(end, groups):
            require(pos == 2, 'beam leaves the group at %s', what)
        if flags and group(start, groups) == group(end, groups):
            require(pos < 2, 'beam ends within the group at %s', what)
        prev = (pos, start, i)
        start = end
    require(len(bars) == (start - notes[-1]) // metre, '%d bar lines:\n%s',
            len(bars), text)
    if len(notes) > 2 and len(set(notes)) > 1 and bars:
        ctx.hit('bars')


def group(pos, groups):
    """Number of the group (counted from the beginning) of a position."""
    from fractions import Fraction as F
    bar, rest = divmod(pos * 8, sum(groups))
    for i, g in enumerate(groups):
        if rest < g:
            return bar * len(groups) + i
        rest -= g
    raise AssertionError


def s_tuplet():
    from hypothesis import strategies as st
    leaf = st.sampled_from(VALUES[2:])
    tup = lambda ch: st.builds(
        lambda n, d, notes: {'num': n, 'den': d, 'notes': notes},
        st.integers(2, 9), st.one_of(st.none(), st.integers(1, 9)),
        st.lists(ch, min_size=2, max_size=6))
    nested = st.one_of(tup(leaf), tup(st.one_of(leaf, leaf, tup(leaf))))
    return st.fixed_dictionaries({
        'notes': st.lists(st.one_of(leaf, nested), min_size=1, max_size=6),
        'sign': st.booleans(), 'explicit': st.booleans()})


def build(desc):
    from fractions import Fraction as F
    from klang.music.note_values import Tuplet
    if isinstance(desc, list):
        return F(*desc)
    notes = [build(d) for d in desc['notes']]
    if desc['den'] is None:
        return Tuplet(desc['num'], notes)
    return Tuplet(desc['num'], notes, desc['den'])


def leaves(desc):
    if isinstance(desc, list):
        return [desc]
    return [leaf for d in desc['notes'] for leaf in leaves(d)]


def smallest(desc):
    """Smallest value at any level, own value included."""
    if isinstance(desc, list):
        return build(desc)
    return min([build(desc)] + [smallest(d) for d in desc['notes']])


def depth(desc):
    return 0 if isinstance(desc, list) else 1 + max(map(depth, desc['notes']))


def brackets(desc):
    """Labels of all tuplets, outermost first."""
    if isinstance(desc, list):
        return []
    den = desc['num'] - 1 if desc['den'] is None else desc['den']
    return ['%d:%d' % (desc['num'], den)] + [
        b for d in desc['notes'] for b in brackets(d)]


def c_tuplet(case, ctx):
    import re
    from fractions import Fraction as F
    from klang.music import note_formatting as nf
    notes = [build(d) for d in case['notes']]
    try:
        text = nf.format_notes(notes, timeSignature=case['sign'])
    except ValueError:
        require(min(map(smallest, case['notes'])) < F(1, 16),
                'refused %s', case['notes'])
        ctx.label('refused')
        return
    require(min(map(smallest, case['notes'])) >= F(1, 16),
            'notes below 1/16 are accepted: %s\n%s', notes, text)
    rows = text.split('\n')
    require(len(set(map(len, rows))) == 1, 'lines of different width:\n%s',
            text)
    levels = max(map(depth, case['notes']))
    require(len(rows) == 3 + levels, '%d lines for %d levels:\n%s', len(rows),
            levels, text)
    heads = [(c, rows[-1][i + 1]) for i, c in enumerate(rows[-1])
             if c in HEADS]
    flat = [F(*f) for d in case['notes'] for f in leaves(d)]
    require(heads == [(HEADS[n >= F(1, 2)], '.' if n.numerator == 3 else ' ')
                      for n in flat], 'heads %s of %s:\n%s', heads,
            flat, text)
    start, exp = F(0), 0
    for note in notes:
        exp = start // 1
        start += note
    require(rows[-1].count(BAR) == exp, '%d bar lines, expected %d:\n%s',
            rows[-1].count(BAR), exp, text)
    found = re.findall('[0-9]+:[0-9]+', '\n'.join(rows[:levels]))
    labels = [b for d in case['notes'] for b in brackets(d)]
    for label in set(labels):
        require(found.count(label) == labels.count(label), 'label %s:\n%s',
                label, text)
    for d in case['notes']:
        if isinstance(d, dict):
            tup = build(d)
            own = nf.format_tuplet(tup, explicit=case['explicit']).split('\n')
            den = d['num'] - 1 if d['den'] is None else d['den']
            label = ('%d:%d' % (d['num'], den)
                     if case['explicit'] or den != d['num'] - 1
                     else '%d' % d['num'])
            head = own[0]
            require(head[0] == '\u250c' and head[-1] == '\u2510'
                    and head[1:-1].strip(LINES).strip() == label,
                    'bracket %r of %s', head, label)
            require(set(map(len, own)) == {len(head)}, 'bracket is not as '
                    'wide as the notes:\n%s', '\n'.join(own))
            require(BAR not in own[-1], 'bar line within the bracket:\n%s',
                    '\n'.join(own))
            ctx.hit('level %d' % depth(d))


def s_sign():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'metre': st.tuples(st.integers(1, 30),
                           st.sampled_from([1, 2, 4, 8, 16])).map(list),
        'groups': st.one_of(
            st.lists(st.integers(1, 9), min_size=1, max_size=5),
            st.lists(st.integers(1, 9), min_size=6, max_size=14),
            st.tuples(st.integers(5, 12), st.lists(
                st.integers(1, 9), min_size=1, max_size=3)).map(
                    lambda t: t[0] * [16] + t[1])),
        'den': st.sampled_from([2, 4, 8, 16]),
        'texts': st.lists(st.lists(st.text('ab c', max_size=4), min_size=1,
                                   max_size=4).map('\n'.join), max_size=5),
        'sep': st.sampled_from(['', '', '|'])})


def c_sign(case, ctx):
    from fractions import Fraction as F
    from klang.music import note_formatting as nf
    from klang.music.metre import create_metre
    num, den = case['metre']
    got = nf.format_time_signature(create_metre(num, den)).split('\n')
    width = max(len(str(num)), len(str(den)))
    require(len(got) == 3 and [g.strip() for g in got]
            == [str(num), '-' * width, str(den)],
            'time signature %d/%d is\n%s', num, den, '\n'.join(got))
    groups = [F(g, case['den']) for g in case['groups']]
    low = max(g.denominator for g in groups)
    nums = [g * low // case['den'] for g in case['groups']]
    total = sum(nums)
    exp = ('+'.join(map(str, nums)) if total % 2 and total % 3
           else str(total))
    got = nf.format_time_signature(groups).split('\n')
    require([g.strip() for g in got]
            == [exp, '-' * max(len(exp), len(str(low))), str(low)],
            'time signature of %s is\n%s', groups, '\n'.join(got))
    if len(nums) > 1 and '+' in exp:
        ctx.hit('grouping')
    # Blocks next to each other, aligned at the bottom
    texts, sep = case['texts'], case['sep']
    blocks = []
    for text in texts:
        rows = text.splitlines()
        blocks.append((max(map(len, rows), default=0), rows))
        require(nf.text_size(text) == (blocks[-1][0], len(rows)),
                'size of %r', text)
    high = max([len(r) for _, r in blocks], default=0)
    padded = [[w * ' '] * (high - len(r)) + r for w, r in blocks]
    exp = '\n'.join(sep.join(col[i] for col in padded) for i in range(high))
    got = nf.hstack(*texts, sep=sep)
    require(got == exp, 'blocks %r side by side are %r instead of %r', texts,
            got, exp)
    if len(texts) > 1 and len(set(len(r) for _, r in blocks)) > 1:
        ctx.hit('blocks')


TESTS = [
    Test('notes', s_notes, c_notes, quick=600, thorough=20000),
    Test('tuplets', s_tuplet, c_tuplet, quick=500, thorough=12000),
    Test('signature', s_sign, c_sign, quick=500, thorough=12000),
]
