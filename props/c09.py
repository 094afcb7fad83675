"""Ring buffer as a delay line."""
from vlib.common import Test, require
from vlib.pairs import RULE as PAIRS, together

META = {
    'title': 'Ring buffers are exact delay lines for any mix of block sizes',
    'statement': (
        'Whatever mix of single and multiple sample writes went before, '
        'reading a ring buffer yields the samples written exactly one buffer '
        'length ago, oldest first and zero where nothing was written yet, for '
        'mono and multi channel data; reading does not change it. Writing '
        'while reading returns the old samples. After changing the length '
        'within its capacity it is a delay line of the new length again once '
        'that many samples were written; writing too many samples at once or '
        'exceeding the capacity is refused and changes nothing.'),
    'over': ['histories'],
    'quant': ('All histories of append, extend, peek, peek-extend and resize '
              'with chunks up to the block size and lengths of at least the '
              'block size.'),
    'why': ('Tests walk one 7-sample buffer in steps of 4 through a fixed '
            'script; wrap-around bugs depend on the alignment of position, '
            'chunk and length.'),
    'files': ['klang/ring_buffer.py'],
    'mechanism': [{'name': 'RingBuffer (shadow memory of bufferSize samples)',
                   'where': 'klang/ring_buffer.py'}],
    'state': [{'name': 'data, pos', 'meaning': 'main plus shadow memory and '
               'read/write position', 'where': 'klang/ring_buffer.py'}],
    'observe': ['peek(), peek_extend(), length'],
}
RULE = ('Cases are buffer shapes plus operation histories. Non-trivial: more '
        'samples than the buffer length were written, with at least two '
        'different chunk sizes or a resize.')


def strat():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist

    def build(bs, extra, room, chans, dtype, ops):
        return {'bs': bs, 'length': bs + extra, 'room': room, 'ch': chans,
                'dtype': dtype, 'ops': ops}

    num = st.integers(0, 12)
    op = st.one_of(
        st.tuples(st.just('append'), st.just(1)),
        st.tuples(st.just('extend'), num), st.tuples(st.just('extend'), num),
        st.tuples(st.just('pe'), num), st.tuples(st.just('pe'), num),
        st.tuples(st.just('full'), st.just(0)),
        st.tuples(st.just('peek'), num),
        st.tuples(st.just('resize'), st.integers(0, 30)),
        st.tuples(st.just('toomany'), st.integers(1, 3)),
        st.tuples(st.just('toolong'), st.integers(1, 3))).map(list)
    return st.builds(
        build, st.integers(1, 10),
        st.one_of(st.just(0), st.just(1), st.integers(0, 14)),
        st.sampled_from([None, 0, 3, 9]), st.sampled_from([1, 1, 2, 3]),
        st.sampled_from(['float', 'float', 'float32', 'list']),
        oplist(op, 50))


def check(case, ctx):
    import numpy as np
    from klang.ring_buffer import RingBuffer
    from vlib.orc import close, raises
    bs, length, ch = case['bs'], case['length'], case['ch']
    kwargs = {'bufferSize': bs}
    capacity = length
    if case['room'] is not None:
        capacity = kwargs['capacity'] = length + case['room']
    if ch > 1:
        kwargs['nChannels'] = ch
    if case['dtype'] == 'float32':
        kwargs['dtype'] = np.float32
    ring = RingBuffer(length, **kwargs)
    zero = [0.] * ch
    line = [zero] * length  # None is unspecified (after a resize)
    written = 0
    sizes = set()
    resized = False

    def fresh(k):
        nonlocal written
        rows = []
        for _ in range(k):
            written += 1
            rows.append([written + 1000. * c for c in range(ch)])
        return rows

    def value(rows):
        out = [r[0] for r in rows] if ch == 1 else rows
        if case['dtype'] == 'list':
            return out
        return np.array(out, dtype=float).reshape(
            (len(rows),) if ch == 1 else (len(rows), ch))

    def compare(got, exp, what):
        got = np.asarray(got, dtype=float)
        want_shape = (len(exp),) if ch == 1 else (len(exp), ch)
        require(got.shape == want_shape, '%s: shape %s instead of %s', what,
                got.shape, want_shape)
        for i, row in enumerate(exp):
            if row is not None:
                close(got[i], row[0] if ch == 1 else row,
                      '%s: sample %d of %d (length %d, block %d)' % (
                          what, i, len(exp), length, bs))

    def push(rows):
        nonlocal line
        line = (line + rows)[-length:]

    def verify(what):
        compare(ring.peek(bs), line[:bs], what)
        compare(ring.peek(), line[:bs], what + ' (default)')
        require(ring.length == length, '%s: length %s', what, ring.length)

    for op, k in case['ops']:
        if op == 'append':
            rows = fresh(1)
            val = rows[0][0] if ch == 1 else rows[0]
            ring.append(val)
            push(rows)
            sizes.add(0)
        elif op == 'extend':
            rows = fresh(min(k, bs))
            if not rows and (ch > 1 or case['dtype'] == 'list'):
                continue
            ring.extend(value(rows))
            push(rows)
            sizes.add(len(rows))
        elif op in ('pe', 'full'):
            rows = fresh(bs if op == 'full' else min(k, bs))
            if not rows and (ch > 1 or case['dtype'] == 'list'):
                continue
            exp = line[:len(rows)]
            got = ring.peek_extend(value(rows))
            push(rows)
            sizes.add(len(rows))
            compare(got, exp, 'peek_extend(%d)' % len(rows))
        elif op == 'peek':
            compare(ring.peek(min(k, bs)), line[:min(k, bs)],
                    'peek(%d)' % min(k, bs))
        elif op == 'resize':
            new = bs + k % (capacity - bs + 1)
            ring.length = new
            if new != length:
                length = new
                line = [None] * length
                resized = True
        elif op == 'toomany':
            rows = [[-1.] * ch] * (bs + k)
            require(raises(ValueError, ring.extend, value(rows)),
                    'writing %d samples with block size %d not refused',
                    bs + k, bs)
        elif op == 'toolong':
            try:
                ring.length = capacity + k
            except ValueError:
                pass
            else:
                require(False, 'length %d accepted with capacity %d',
                        capacity + k, capacity)
        verify('after %s %s' % (op, k))
    if written > length and (len(sizes) > 1 or resized):
        ctx.hit()
    if resized:
        ctx.label('resized')
    if ch > 1:
        ctx.label('multi channel')
    if written > 2 * length:
        ctx.label('wrapped twice')


def strat_big():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'length': st.one_of(st.integers(256, 90000),
                            st.integers(32000, 34000),
                            st.integers(65000, 67000),
                            st.sampled_from([88200, 65536, 32768])),
        'room': st.sampled_from([None, 0, 5000]),
        'turns': st.floats(1., 3.), 'every': st.integers(1, 40),
        'seed': st.integers(0, 10**6)})


def check_big(case, ctx):
    """Seconds of audio in the default block size."""
    import numpy as np
    from klang.ring_buffer import RingBuffer
    length = case['length']
    kwargs = {}
    if case['room'] is not None:
        kwargs['capacity'] = length + case['room']
    ring = RingBuffer(length, **kwargs)
    rng = np.random.RandomState(case['seed'])
    total = int(case['turns'] * length)
    data = np.concatenate([np.zeros(length), rng.uniform(-1, 1, total + 600)])
    n = k = 0  # (the sample n of the line is next to be read)
    while n < total:
        k += 1
        if k % case['every'] == 0:
            for _ in range(3):
                ring.append(data[length + n])
                n += 1
        m = 256 if k % 3 else 1 + rng.randint(256)
        if k % 2:
            got = ring.peek(m).copy()
            ring.extend(data[length + n:length + n + m])
        else:
            got = ring.peek_extend(data[length + n:length + n + m])
        require(np.array_equal(got, data[n:n + m]), 'length %d: wrong samples '
                'after %d samples', length, n)
        n += m
    require(np.array_equal(ring.peek(), data[n:n + 256]), 'length %d: wrong '
            'samples after %d samples', length, n)
    if total > 1.5 * length:
        ctx.hit('big')


TESTS = [
    Test('delay-line', strat, check, quick=2000, thorough=100000),
    Test('big', strat_big, check_big, quick=40, thorough=1500),
]
TESTS.append(together('C09'))
RULE += PAIRS
