"""Value propagation."""
from vlib.common import Test, require

META = {
    'title': 'Inputs always read the current value of what feeds them',
    'statement': (
        'Reading an input or relay yields the current value of the output it '
        'is connected to, through any number of relays, however often the '
        'wiring and the values changed before. An input or relay without '
        'source (never connected or disconnected again) yields the value last '
        'set on itself, initially its default, and setting a value on one '
        'port never changes what any port not downstream of it reads.'),
    'over': ['histories'],
    'quant': ('All interleavings of connecting, disconnecting, setting and '
              'reading over acyclic networks of outputs, relays and inputs.'),
    'why': ('Tests read one output-input pair and a single relay; chains, '
            'fan-out, rewiring after values were set, and the fallback value '
            'after a disconnect are not covered.'),
    'files': ['klang/connections.py'],
    'mechanism': [{'name': 'Input.value / get_value, Relay, _ValueContainer',
                   'where': 'klang/connections.py'}],
    'observe': ['value property, get_value() / set_value()'],
}
RULE = ('Cases are port sets plus sequences of connect / disconnect / set '
        'operations with all ports read after each. Non-trivial: a value was '
        'read through a link after it changed, and (a relay was crossed or a '
        'fallback value was read again after a disconnect).')


def strat():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist
    op = st.one_of(
        st.tuples(st.just('c'), st.integers(0, 9), st.integers(0, 9)),
        st.tuples(st.just('c'), st.integers(0, 9), st.integers(0, 9)),
        st.tuples(st.just('d'), st.integers(0, 9), st.integers(0, 9)),
        st.tuples(st.just('s'), st.integers(0, 9), st.integers(0, 99)),
        st.tuples(st.just('p'), st.integers(0, 9), st.integers(0, 99)),
        # A list which other ports may have got, too
        st.tuples(st.sampled_from(['s', 'p']), st.integers(0, 9),
                  st.integers(100, 102)),
    ).map(list)
    return st.fixed_dictionaries({
        'kinds': st.lists(st.sampled_from(['O', 'R', 'I', 'R']), min_size=3,
                          max_size=9),
        'init': st.lists(st.one_of(st.none(), st.integers(100, 120)),
                         min_size=9, max_size=9),
        'ops': oplist(op, 45)})


def check(case, ctx):
    from klang.connections import Input, Output, Relay
    kinds = case['kinds']
    n = len(kinds)
    ports, own = [], []
    for kind, init in zip(kinds, case['init']):
        if kind == 'R' or init is None:
            ports.append({'O': Output, 'I': Input, 'R': Relay}[kind]())
            own.append(0.)
        else:
            ports.append({'O': Output, 'I': Input}[kind](value=init))
            own.append(init)
    links = {}
    shared = [[1, 2], [], [3]]
    srcs = [i for i in range(n) if kinds[i] != 'I']
    dsts = [i for i in range(n) if kinds[i] != 'O']

    def resolve(i):
        hops = 0
        while i in links:
            i = links[i]
            hops += 1
        return i, hops

    changed = deep = fallback = False
    for op, a, b in case['ops']:
        if op in 'cd':
            if op == 'c':
                if not srcs or not dsts:
                    continue
                a, b = srcs[a % len(srcs)], dsts[b % len(dsts)]
                if a == b:
                    continue
                if b in links or resolve(a)[0] == b:
                    continue
                ports[a].connect(ports[b])
                links[b] = a
            else:
                if not links:
                    continue
                b = sorted(links)[b % len(links)]
                if a % 2 and kinds[b] in ('I', 'MI'):
                    ports[b].disconnect(ports[links[b]])
                else:
                    ports[links[b]].disconnect(ports[b])
                del links[b]
                fallback = True
        else:
            a %= n
            val = b
            if b >= 100:
                val = shared[b - 100]
            elif b % 10 == 0:
                val = [b]  # Identity must survive as well
            elif b % 10 == 1:
                val = [None, False, '', (), 0., {}, True, 1, 1., -0.][
                    b // 10 % 10]
            if op == 's':
                ports[a].set_value(val)
            else:
                ports[a].value = val
            own[a] = val
            changed = changed or a in links.values()
        for i in range(n):
            src, hops = resolve(i)
            deep = deep or hops > 1
            for got in (ports[i].value, ports[i].get_value()):
                # An equal value of another type is another value
                require(got is own[src] or repr(got) == repr(own[src]),
                        'after %s: port %d (%s) reads %r instead of %r',
                        [op, a, b], i, kinds[i], got, own[src])
        require(shared == [[1, 2], [], [3]], 'value altered: %s', shared)
    if deep:
        ctx.label('relay')
    if fallback:
        ctx.label('fallback')
    if changed and (deep or fallback):
        ctx.hit()


TESTS = [Test('values', strat, check, quick=3000, thorough=200000)]
