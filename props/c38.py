"""Network transport."""
from vlib.common import Test, Fail, require

META = {
    'title': 'Networked values and messages arrive intact and in order, junk is skipped',
    'statement': (
        'JSON values, notes and arrays of any shape, type and memory layout '
        'arrive at the receiver equal to what was sent, in the order sent, '
        'none lost or repeated, for everything fitting a datagram (audio '
        'buffers do). Message receivers pass on every message of an update '
        'and value receivers hold the last value, also if nothing new came. '
        'A malformed datagram is logged and skipped without an exception, '
        'and neither the objects before it nor the datagrams after it are '
        'lost.'),
    'over': ['inputs', 'histories', 'faults'],
    'quant': 'All objects, arrays and histories of sends, updates and '
             'malformed or truncated datagrams over UDP and UNIX sockets.',
    'why': 'No test covers the module; the receiver runs inside of the audio '
           'callback where an exception stops the music.',
    'files': ['klang/network.py', 'klang/messages.py'],
    'mechanism': [
        {'name': 'JsonCourier, receive_all_from, array_to_dict, '
                 'klang_object_hook', 'where': 'klang/network.py'},
        {'name': 'Network(Message)In, Network(Message)Out',
         'where': 'klang/network.py'}],
    'observe': ['receiving blocks over loopback and UNIX sockets'],
    'oracle': 'lists of sent objects (FIFO model)',
}
RULE = ('Cases are objects and histories of sends, junk and updates. '
        'Non-trivial: a message history with a malformed datagram in between '
        'or objects of more than one kind; an array which is not empty.')
ASSUMPTIONS = [
    'Datagrams over loopback and UNIX sockets are neither lost nor reordered '
    'as long as few are pending (at most 8 and 120 kB in flight here).',
    'Notes and arrays inside of lists or dictionaries are not restored by '
    'design (encoder looks at the top level only), hence not generated.']


def s_json():
    from hypothesis import strategies as st
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-10**9, 10**9),
                     st.floats(-1e9, 1e9), st.text(max_size=8),
                     st.sampled_from(['\u266f', '\x00', '"', '\U0001f3b5']))
    keys = st.text(max_size=5).filter(lambda k: k != 'type')
    # Dictionaries which look much like serialized notes and arrays
    like = st.dictionaries(
        st.sampled_from(['pitch', 'velocity', 'frequency', 'data', 'dtype',
                         'shape', 'value']), leaf, min_size=1)
    like = st.one_of(
        like, st.just({'pitch': 60, 'velocity': 1.0}),
        st.just({'pitch': 60, 'velocity': 1.0, 'frequency': 220.0}),
        st.just({'data': 'AAAA', 'dtype': 'uint8', 'shape': [3]}),
        st.tuples(like, st.sampled_from([
            'Chord', 'note', 'NOTE', 'array', '', None, 3])).map(
                lambda t: dict(t[0], type=t[1])))
    leaf = st.one_of(leaf, leaf, leaf, leaf, like)
    return st.recursive(leaf, lambda ch: st.one_of(
        st.lists(ch, max_size=4), st.dictionaries(keys, ch, max_size=3)),
        max_leaves=8)


def s_array():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'shape': st.one_of(
            st.just([256]), st.just([2, 256]),
            st.lists(st.integers(0, 6), max_size=3),
            st.integers(0, 3000).map(lambda n: [n]),
            st.integers(3000, 5500).map(lambda n: [n])),
        'dtype': st.sampled_from(['float64', 'float32', 'int64', 'int16',
                                  'uint8', 'bool', 'complex128', '>f8',
                                  '>i4', 'int8']),
        'layout': st.sampled_from(['C', 'C', 'F', 'step', 'reverse', 'T']),
        'seed': st.integers(0, 10**6)})


def s_object():
    from hypothesis import strategies as st
    from vlib.gens import weighted
    note = st.fixed_dictionaries({
        'p': st.integers(0, 127), 'v': st.floats(0, 1),
        'f': st.one_of(st.none(), st.floats(0, 2e4))})
    return weighted((2, note.map(lambda n: ['note', n])),
                    (2, s_array().map(lambda a: ['array', a])),
                    (2, s_json().map(lambda j: ['json', j])),
                    (1, st.just(['npfloat', .25])))


def unsort(obj):
    """Dictionaries with keys in another than the sorted order."""
    if isinstance(obj, list):
        return [unsort(x) for x in obj]
    if isinstance(obj, dict):
        return {k: unsort(obj[k]) for k in sorted(obj, reverse=True)}
    return obj


def order(obj):
    """All keys in order."""
    if isinstance(obj, list):
        return [order(x) for x in obj]
    if isinstance(obj, dict):
        return [[k, order(v)] for k, v in obj.items()]
    return None


def build(desc):
    import numpy as np
    from klang.messages import Note
    kind, d = desc
    if kind == 'note':
        return Note(d['p'], d['v'], d['f'])
    if kind == 'json':
        return unsort(d)
    if kind == 'npfloat':
        return np.float64(d)
    rnd = np.random.RandomState(d['seed'])
    shape = list(d['shape'])
    if d['layout'] == 'step' and shape:
        shape[-1] *= 2
    arr = rnd.uniform(-1, 1, shape) * 100
    if d['dtype'] == 'complex128':
        arr = arr + 1j * rnd.uniform(-1, 1, shape)
    arr = np.asarray(arr).astype(d['dtype'])
    if d['layout'] == 'F':
        arr = np.asfortranarray(arr)
    elif d['layout'] == 'T':
        arr = arr.T
    elif d['layout'] == 'step' and shape:
        arr = arr[..., ::2]
    elif d['layout'] == 'reverse' and shape:
        arr = arr[::-1]
    return arr


def equal(a, b):
    import numpy as np
    from klang.messages import Note
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)
                and a.shape == b.shape and a.dtype == b.dtype
                and bool(np.array_equal(a, b)))
    if isinstance(a, Note) or isinstance(b, Note):
        return type(a) is type(b) and tuple(a) == tuple(b)
    return (a == b and isinstance(a, bool) == isinstance(b, bool)
            and order(a) == order(b))


def show(obj):
    return '%s %.80r' % (type(obj).__name__, obj)


def quiet():
    import logging
    logging.disable(logging.CRITICAL)


def find_socket(obj, depth=4):
    """The socket somewhere within a block."""
    import socket
    if isinstance(obj, socket.socket):
        return obj
    if not depth:
        return None
    if isinstance(obj, (list, tuple)):
        parts = list(obj)
    elif isinstance(obj, dict):
        parts = list(obj.values())
    else:
        parts = list(getattr(obj, '__dict__', {}).values())
    for part in parts:
        sock = find_socket(part, depth - 1)
        if sock is not None:
            return sock
    return None


class Link:

    """Sender and receiver over a scratch socket."""

    def __init__(self, kind, receiver, sender, ctx):
        import shutil
        import tempfile
        from klang.connections import MessageInput
        if kind == 'unix':
            folder = tempfile.mkdtemp(prefix='kv')
            ctx.defer(shutil.rmtree, folder, True)
            address = folder + '/s'
            self.inn = receiver(address)
        else:
            self.inn = receiver(('127.0.0.1', 0))
            address = find_socket(self.inn).getsockname()
        ctx.defer(find_socket(self.inn).close)
        self.out = sender(address)
        ctx.defer(find_socket(self.out).close)
        self.address = address
        self.sink = None
        if hasattr(self.inn.output, 'send'):
            self.sink = MessageInput(owner=None)
            self.inn.output.connect(self.sink)

    def raw(self, data):
        find_socket(self.out).sendto(data, self.address)


JUNK = ['not json', '{', '[1, 2', '"open', '\xff\xfe\x80', '\x80',
        '{"type": "Note", "pitch": 300}', '{"type": "Note"}',
        '{"type": "Note", "pitch": "x"}', '{"type": "Note", "tone": 3}',
        '{"type": "Note", "pitch": 60, "velocity": 2.0}',
        '{"type": "ndarray"}', '{"type": "ndarray", "data": "x", '
        '"dtype": "float64", "shape": [1]}',
        '{"type": "ndarray", "data": "AAAA", "dtype": "nonsense", '
        '"shape": [3]}', '{"type": "ndarray", "data": 3, "dtype": "float64", '
        '"shape": [3]}', '{"type": "ndarray", "data": "AAAA", "dtype": '
        '"uint8", "shape": "x"}', 'nul', '-', '\n', ' ', ',', '}{',
        '{"type": "ndarray", "data": "AAAA", "dtype": "object", "shape": [3]}',
        '{"type": "ndarray", "data": "\u1234", "dtype": "uint8", "shape": 3}']


def s_history():
    from hypothesis import strategies as st
    from vlib.gens import weighted, ops
    small = s_object().filter(
        lambda o: o[0] != 'array' or len(o[1]['shape']) != 1)
    op = weighted(
        (5, s_object().map(lambda o: ['send', o])),
        (3, st.just(['update'])),
        (3, st.sampled_from(JUNK).map(lambda j: ['junk', j])),
        (2, st.tuples(s_object(), st.integers(1, 10**4)).map(
            lambda t: ['cut', t[0], t[1]])),
        (2, st.one_of(st.lists(small, min_size=2, max_size=4),
                      st.lists(small, min_size=2, max_size=4),
                      st.tuples(st.lists(small, min_size=2, max_size=5),
                                st.integers(2, 6)).map(
                          lambda t: t[0] * t[1])).map(
            lambda l: ['several', l])),
        (1, st.tuples(small, st.sampled_from(JUNK)).map(
            lambda t: ['tail', t[0], t[1]])),
        (1, st.binary(min_size=1, max_size=20).map(
            lambda b: ['bytes', list(b)])))
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['unix', 'udp']),
        'blocks': st.sampled_from(['message', 'message', 'value']),
        'ops': ops(op, 30)})


def decodes(data):
    """Objects of a datagram of (possibly) malformed text by own reading."""
    import json
    from klang.network import klang_object_hook
    found = []
    try:
        text = data.decode()
        dec = json.JSONDecoder(object_hook=klang_object_hook)
        while text:
            obj, stop = dec.raw_decode(text)
            found.append(obj)
            text = text[stop:]
    except Exception:
        pass
    return found


def c_history(case, ctx):
    from klang import network as nw
    quiet()
    msgs = case['blocks'] == 'message'
    link = Link(case['kind'],
                nw.NetworkMessageIn if msgs else nw.NetworkIn,
                nw.NetworkMessageOut if msgs else nw.NetworkOut, ctx)
    pending, size, count = [], 0, 0
    value = link.inn.output.value if not msgs else None
    kinds, junk, after = set(), 0, 0

    def send(obj):
        if msgs:
            link.out.input.push(obj)
        else:
            link.out.input.set_value(obj)
        link.out.update()

    def update():
        nonlocal pending, size, count, value
        link.inn.update()
        if msgs:
            got = list(link.sink.receive())
            require(len(got) == len(pending), 'received %d objects %s, sent '
                    '%d: %s', len(got), list(map(show, got)), len(pending),
                    list(map(show, pending)))
            for a, b in zip(got, pending):
                require(equal(a, b), 'received %s, sent %s', show(a), show(b))
        else:
            if pending:
                value = pending[-1]
            require(equal(link.inn.output.value, value), 'value is %s, last '
                    'sent is %s', show(link.inn.output.value), show(value))
        pending, size, count = [], 0, 0

    for op in case['ops'] + [['update'], ['update']]:
        if size > 90000 or count >= 7 or len(pending) > 5:
            update()
        if op[0] == 'update':
            update()
            continue
        if op[0] == 'send':
            obj = build(op[1])
            string = nw.KlangJSONEncoder().encode(obj)
            if len(string) > 60000:
                continue
            if size + len(string) > 100000:
                update()
            send(obj)
            pending.append(obj)
            size += len(string)
            count += 1
            kinds.add(op[1][0])
            after += junk > 0
            if op[1][0] == 'array' and size > 1100:
                ctx.hit('large')
            continue
        if op[0] == 'junk':
            data = op[1].encode('latin-1', 'replace')
        elif op[0] == 'bytes':
            data = bytes(op[1])
        elif op[0] == 'cut':
            data = nw.KlangJSONEncoder().encode(build(op[1])).encode()
            data = data[:op[2] % len(data)] or b'?'
        else:
            objs = [build(o) for o in
                    (op[1] if op[0] == 'several' else op[1:2])]
            # Numbers and literals need a separator.
            strings = [nw.KlangJSONEncoder().encode(o) for o in objs]
            strings = [s for s in strings if s[:1] in '{["']
            if not strings:
                continue
            data = ''.join(strings).encode()
            if op[0] == 'tail':
                data += op[2].encode('latin-1', 'replace')
        if not data or len(data) > 60000:
            continue
        if size + len(data) > 100000:
            update()
        link.raw(data)
        found = decodes(data)
        if op[0] == 'several':
            objs = [o for o in objs
                    if nw.KlangJSONEncoder().encode(o)[:1] in '{["']
            require(len(found) == len(objs) and all(map(equal, found, objs)),
                    'objects in one datagram')
        if op[0] == 'junk':
            junk += 1
        pending.extend(found)
        size += len(data)
        count += 1
    if after:
        ctx.hit('after junk')
    if len(kinds) > 1:
        ctx.hit('kinds')


def c_codec(case, ctx):
    import json
    import numpy as np
    from klang import network as nw
    obj = build(case)
    enc = nw.KlangJSONEncoder()
    text = enc.encode(obj)
    json.loads(text)
    back = json.JSONDecoder(object_hook=nw.klang_object_hook).decode(text)
    require(equal(back, obj), '%s is decoded as %s', show(obj), show(back))
    if case[0] == 'array':
        arr = np.array(obj, copy=True)
        back = nw.array_from_dict(json.loads(json.dumps(
            nw.array_to_dict(obj))))
        require(equal(back, obj), 'array %s %s is %s', obj.shape, obj.dtype,
                show(back))
        require(np.array_equal(arr, obj), 'argument changed')
        if obj.size:
            ctx.hit(case[1]['layout'])
    else:
        ctx.hit(case[0])


def s_socket():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['unix', 'udp']),
        'sizes': st.lists(st.one_of(
            st.sampled_from([1, 1023, 1024, 1025, 2000, 20000, 40000,
                             60000]),
            st.integers(1, 30000)), min_size=1, max_size=3).filter(
                lambda sizes: sum(sizes) <= 120000)})


def c_socket(case, ctx):
    import socket
    from klang import network as nw
    quiet()
    for bad in (None, 3, b'x', ['127.0.0.1', 80]):
        try:
            nw.create_socket_from_address(bad)
        except ValueError:
            continue
        raise Fail('address %r is accepted' % (bad,))
    link = Link(case['kind'], nw.NetworkIn, nw.NetworkOut, ctx)
    sock = find_socket(link.inn)
    require(sock.type == socket.SOCK_DGRAM and sock.gettimeout() == 0,
            'not a non-blocking datagram socket')
    require(list(nw.receive_all_from(sock)) == [], 'data from nowhere')
    sent = [bytes([65 + i]) * n for i, n in enumerate(case['sizes'])]
    for data in sent:
        link.raw(data)
    got = list(nw.receive_all_from(sock))
    require(got == sent, 'received %s bytes, sent %s', list(map(len, got)),
            case['sizes'])
    link.raw(b'x' * 50)
    require(list(nw.receive_all_from(sock, 10)) == [b'x' * 10], 'buffer size')
    if len(sent) > 1:
        ctx.hit(case['kind'])


TESTS = [
    Test('codec', s_object, c_codec, quick=1000, thorough=30000),
    Test('history', s_history, c_history, quick=400, thorough=12000),
    Test('socket', s_socket, c_socket, quick=200, thorough=4000),
]
