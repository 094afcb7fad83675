"""Connection book-keeping."""
from vlib.common import Test, require

META = {
    'title': 'Wiring stays consistent over any connect / disconnect history',
    'statement': (
        'After any history of connecting and disconnecting ports (from either '
        'end, directly or via relays) every link is visible from both of its '
        'ends, an input or relay has at most one source while an output or '
        'relay may feed many, and a block reports exactly the links to other '
        'blocks as its in- and outgoing connections and neighbours. Only '
        'compatible ports get linked (output or relay to relay or input, never '
        'across the value / message families): anything else is refused as '
        'incompatible, and a second source for an input is refused as already '
        'connected. A refused connect, or a disconnect of ports which are not '
        'linked, leaves the wiring as it was.'),
    'over': ['histories'],
    'quant': ('All sequences of connect / disconnect calls over all mixes of '
              'value, message and base ports, with or without owner blocks.'),
    'why': ('The tests make and break single hand-picked links; they never '
            'refuse or break a link in the middle of a longer history and then '
            'look at the rest of the wiring.'),
    'files': ['klang/connections.py', 'klang/block.py'],
    'mechanism': [
        {'name': 'make_connection / break_connection / validate_connection',
         'where': 'klang/connections.py'},
        {'name': 'input_connections, output_connections, input_neighbors, '
                 'output_neighbors', 'where': 'klang/block.py'}],
    'state': [
        {'name': 'outgoingConnections', 'meaning': 'set of fed inputs',
         'where': 'klang/connections.py OutputBase'},
        {'name': 'incomingConnection', 'meaning': 'the one source',
         'where': 'klang/connections.py InputBase'}],
    'observe': ['connect()/disconnect() and the exceptions they raise',
                'is_connected, are_connected, connected',
                'incomingConnection / outgoingConnections',
                'block connection and neighbour iterators'],
}
RULE = ('Cases are generated port sets plus sequences of connect/disconnect '
        'calls. Non-trivial: at least one link was made and at least one call '
        'was refused or broke a link while another link existed.')

KINDS = ['O', 'R', 'I', 'MO', 'MR', 'MI', 'OB', 'RB', 'IB']


def strat():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist, weighted

    def build(kinds, owners, ops):
        return {'kinds': kinds, 'owners': owners, 'ops': ops}

    kinds = st.one_of(
        st.lists(st.sampled_from(['O', 'R', 'I']), min_size=3, max_size=9),
        st.lists(st.sampled_from(['MO', 'MR', 'MI']), min_size=3, max_size=9),
        st.lists(st.sampled_from(KINDS), min_size=3, max_size=10))
    op = st.tuples(weighted((5, st.just('c')), (2, st.just('d')),
                            (2, st.just('D'))),
                   st.integers(0, 9), st.integers(0, 9)).map(list)
    return st.builds(build, kinds,
                     st.lists(st.integers(0, 4), min_size=10, max_size=10),
                     oplist(op, 40))


def family(kind):
    return {'M': 'm', 'O': 'v', 'R': 'v', 'I': 'v'}[kind[0]] \
        if not kind.endswith('B') else 'b'


def is_src(kind):
    return 'O' in kind or 'R' in kind


def is_dst(kind):
    return 'I' in kind or 'R' in kind


def check(case, ctx):
    from klang.block import (Block, collect_connections, input_connections,
                             input_neighbors, output_connections,
                             output_neighbors)
    from klang import connections as cx
    make = {'O': cx.Output, 'R': cx.Relay, 'I': cx.Input,
            'MO': cx.MessageOutput, 'MR': cx.MessageRelay,
            'MI': cx.MessageInput, 'OB': cx.OutputBase, 'RB': cx.RelayBase,
            'IB': cx.InputBase}
    kinds = case['kinds']
    blocks = [Block() for _ in range(4)]
    ports, owner = [], []
    for kind, own in zip(kinds, case['owners']):
        own = own if own < 4 and 'R' not in kind else None
        block = None if own is None else blocks[own]
        port = make[kind](owner=block)
        ports.append(port)
        owner.append(own)
        if block is not None:
            (block.inputs if 'I' in kind else block.outputs).append(port)
    n = len(ports)
    links = {}  # dst -> src
    made = refused = broken = 0

    def direction(a, b):
        """Who is source, who destination of ports[a].op(ports[b])."""
        ka, kb = kinds[a], kinds[b]
        if 'R' in ka:
            return (a, b) if is_dst(kb) else (b, a)
        return (b, a) if is_dst(ka) else (a, b)

    def verify(what):
        for a in range(n):
            if is_src(kinds[a]):
                fed = {d for d, s in links.items() if s == a}
                got = ports[a].outgoingConnections
                require(len(got) == len(fed) and all(
                    any(ports[d] is g for g in got) for d in fed),
                    '%s: outgoing links of port %d are wrong', what, a)
            if is_dst(kinds[a]):
                exp = ports[links[a]] if a in links else None
                require(ports[a].incomingConnection is exp,
                        '%s: source of port %d is wrong', what, a)
            if not (is_src(kinds[a]) and is_dst(kinds[a])):
                exp = (a in links) if is_dst(kinds[a]) \
                    else (a in links.values())
                require(bool(ports[a].connected) == exp,
                        '%s: connected flag of port %d is %r', what, a,
                        ports[a].connected)
            elif a in links:
                require(ports[a].connected,
                        '%s: fed relay %d not connected', what, a)
            for b in range(n):
                exp = links.get(b) == a and is_src(kinds[a])
                require(bool(cx.is_connected(ports[a], ports[b])) == exp,
                        '%s: is_connected(%d, %d) is not %r',
                        what, a, b, exp)

    for op, a, b in case['ops']:
        a, b = a % n, b % n
        if op == 'D':  # Aim at an existing link
            if not links:
                continue
            dst = sorted(links)[a % len(links)]
            a, b = (links[dst], dst) if b % 2 else (dst, links[dst])
            if direction(a, b) != (links[dst], dst):
                a, b = links[dst], dst
        if a == b:
            continue
        src, dst = direction(a, b)
        valid = (is_src(kinds[src]) and is_dst(kinds[dst])
                 and family(kinds[src]) == family(kinds[dst]))
        what = '%s(%d %s, %d %s)' % (op, a, kinds[a], b, kinds[b])
        if op == 'c':
            try:
                ports[a].connect(ports[b])
                outcome = 'ok'
            except cx.IncompatibleConnection:
                outcome = 'incompatible'
            except cx.InputAlreadyConnected:
                outcome = 'occupied'
            exp = ('incompatible' if not valid else
                   'occupied' if dst in links else 'ok')
            require(outcome == exp, '%s: %s instead of %s', what, outcome, exp)
            if exp == 'ok':
                links[dst] = src
                made += 1
            else:
                refused += bool(links)
        else:
            linked = valid and links.get(dst) == src
            try:
                ports[a].disconnect(ports[b])
                outcome = 'ok'
            except Exception:
                outcome = 'refused'
            if linked:
                require(outcome == 'ok', '%s: existing link not broken', what)
                del links[dst]
                broken += bool(links)
            else:
                refused += bool(links)
        verify(what)

    # Chains
    for dst, src in links.items():
        chain = [src, dst]
        while True:
            nxt = [d for d, s in sorted(links.items())
                   if s == chain[-1] and d not in chain]
            if not nxt:
                break
            chain.append(nxt[0])
        require(cx.are_connected(*[ports[i] for i in chain]),
                'chain %s not reported connected', chain)
        cut = chain + [chain[0]]
        if chain[0] not in links or links[chain[0]] != chain[-1]:
            require(not cx.are_connected(*[ports[i] for i in cut]),
                    'broken chain %s reported connected', cut)

    # Block level view
    def ids(pairs):
        return sorted((id(s), id(d)) for s, d in pairs)

    for i, block in enumerate(blocks):
        inc = [(ports[s], ports[d]) for d, s in links.items()
               if owner[d] == i and owner[s] != i]
        out = [(ports[s], ports[d]) for d, s in links.items()
               if owner[s] == i and owner[d] != i]
        require(ids(input_connections(block)) == ids(inc),
                'incoming links of block %d', i)
        require(ids(output_connections(block)) == ids(out),
                'outgoing links of block %d', i)
        require(ids(collect_connections(block)) == ids(inc + out),
                'links of block %d', i)
        require(sorted(map(id, input_neighbors(block))) == sorted(
            id(s.owner) for s, _ in inc if s.owner is not None),
            'input neighbours of block %d', i)
        require(sorted(map(id, output_neighbors(block))) == sorted(
            id(d.owner) for _, d in out if d.owner is not None),
            'output neighbours of block %d', i)
        if inc or out:
            ctx.label('block-links')
    if broken:
        ctx.label('broke-link')
    if refused:
        ctx.label('refused')
    if made and (refused or broken):
        ctx.hit()


def strat_chain():
    from hypothesis import strategies as st
    return st.integers(1, 24).flatmap(lambda n: st.fixed_dictionaries({
        'n': st.just(n), 'kind': st.sampled_from('vm'),
        # First and last may be plain ends
        'ends': st.tuples(st.booleans(), st.booleans()).map(list),
        'gaps': st.one_of(
            st.just([]), st.lists(st.integers(0, max(0, n - 2)),
                                  min_size=1, max_size=3)) if n > 1
        else st.just([]), 'skip': st.integers(-1, n)}))


def check_chain(case, ctx):
    import klang.connections as cx
    n = case['n']
    out, relay, inp = {
        'v': (cx.Output, cx.Relay, cx.Input),
        'm': (cx.MessageOutput, cx.MessageRelay, cx.MessageInput)}[
            case['kind']]
    ports = [relay() for _ in range(n)]
    if n > 1 and case['ends'][0]:
        ports[0] = out()
    if n > 1 and case['ends'][1]:
        ports[-1] = inp()
    gaps = set(case['gaps'])
    for i, (a, b) in enumerate(zip(ports, ports[1:])):
        a.connect(b)
    require(cx.are_connected(*ports), 'chain of %d not connected', n)
    for i in gaps:
        ports[i].disconnect(ports[i + 1])
    require(bool(cx.are_connected(*ports)) is not bool(gaps),
            'chain of %d, cut after %s', n, sorted(gaps))
    for i in range(n - 1):
        require(bool(cx.is_connected(ports[i], ports[i + 1]))
                is (i not in gaps), 'link %d of %d', i, n)
    # Leaving one out is no chain
    if 0 < case['skip'] < n - 1:
        some = ports[:case['skip']] + ports[case['skip'] + 1:]
        require(not cx.are_connected(*some), 'chain without member %d of %d',
                case['skip'], n)
        ctx.label('member left out')
    if n > 5 and gaps:
        ctx.hit('long chain')
    elif gaps:
        ctx.hit('chain')


TESTS = [Test('wiring', strat, check, quick=3000, thorough=200000),
         Test('chains', strat_chain, check_chain, quick=500,
              thorough=20000)]
