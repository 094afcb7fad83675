"""Message delivery."""
from vlib.common import Test, require

META = {
    'title': 'Messages arrive exactly once, in order, at every connected input',
    'statement': (
        'A sent message arrives exactly once at every message input connected '
        'to the sender at that time, directly or through relays, and nowhere '
        'else. An input hands out its pending messages oldest first, each only '
        'once, and keeps what it was not asked for; asking for the latest '
        'message yields the newest and discards the rest, or nothing if there '
        'is none. An input keeps the 50 newest undelivered messages, which '
        'survive rewiring, and overflowing never affects other inputs.'),
    'over': ['histories'],
    'quant': ('All interleavings of wiring changes, sends, bursts and partial '
              'or complete receives over networks of message ports.'),
    'why': ('Tests send a few messages over one link or one relay and drain '
            'the queue once; bursts, partial drains, rewiring in between and '
            'several receivers are not sampled.'),
    'files': ['klang/connections.py'],
    'mechanism': [
        {'name': 'MessageOutput.send, MessageRelay.push, _MessageQueue',
         'where': 'klang/connections.py'}],
    'observe': ['send(), push(), receive(), receive_latest()'],
}
RULE = ('Cases are message port sets plus operation sequences. Non-trivial: '
        'a message passed a relay or fan-out and a partial receive, latest-'
        'receive, overflow or rewiring with pending messages happened.')


def strat():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist
    idx = st.integers(0, 9)
    op = st.one_of(
        st.tuples(st.just('c'), idx, idx), st.tuples(st.just('c'), idx, idx),
        st.tuples(st.just('d'), idx, idx),
        st.tuples(st.just('send'), idx, st.sampled_from([1, 1, 2, 5, 30, 49,
                                                         50, 51, 120])),
        st.tuples(st.just('push'), idx, st.sampled_from([1, 1, 3, 60])),
        st.tuples(st.just('recv'), idx, st.sampled_from([0, 1, 2, 999])),
        st.tuples(st.just('echo'), idx, st.sampled_from([1, 2, 5])),
        st.tuples(st.just('latest'), idx, st.just(0))).map(list)
    return st.fixed_dictionaries({
        'kinds': st.lists(st.sampled_from(['MO', 'MR', 'MI', 'MI']),
                          min_size=4, max_size=9),
        'wire': st.lists(st.tuples(idx, idx).map(list), min_size=3, max_size=12),
        'notes': st.booleans(),
        # Many inputs at one port, behind a row of many relays
        'fan': st.one_of(st.just([0, 0, 0]), st.tuples(
            idx, st.sampled_from([1, 5, 12, 20, 40, 100]),
            st.sampled_from([0, 0, 1, 6, 30])).map(list)),
        'ops': oplist(op, 40)})


def check(case, ctx):
    from klang.connections import MessageInput, MessageOutput, MessageRelay
    from klang.messages import Note
    kinds = list(case['kinds'])
    n = len(kinds)
    make = {'MO': MessageOutput, 'MR': MessageRelay, 'MI': MessageInput}
    ports = [make[k]() for k in kinds]
    links = {}
    srcs = [i for i in range(n) if kinds[i] != 'MI']
    dsts = [i for i in range(n) if kinds[i] != 'MO']
    queues = {i: [] for i in range(n) if kinds[i] == 'MI'}
    counter, last = [0], [None]
    spread = special = False

    def root(i):
        while i in links:
            i = links[i]
        return i

    def receivers(i):
        if kinds[i] == 'MI':
            return [(i, 0)]
        out = []
        for dst, src in sorted(links.items()):
            if src == i:
                out += [(j, h + 1) for j, h in receivers(dst)]
        return out

    def deliver(i, msg):
        for j, _ in receivers(i):
            queues[j].append(msg)
            del queues[j][:-50]

    def connect(a, b):
        if not srcs or not dsts:
            return
        a, b = srcs[a % len(srcs)], dsts[b % len(dsts)]
        if a != b and b not in links and root(a) != b:
            ports[a].connect(ports[b])
            links[b] = a

    at, many, depth = case.get('fan') or [0, 0, 0]
    if many and srcs:
        at = srcs[at % len(srcs)]
        for kind in ['MR'] * depth + ['MI'] * many:
            i = len(kinds)
            kinds.append(kind)
            ports.append(make[kind]())
            if kind == 'MI':
                queues[i] = []
            ports[at].connect(ports[i])
            links[i] = at
            if kind == 'MR':
                at = i
        ctx.label('many receivers')
        dsts.extend(range(n, len(kinds)))

    for a, b in case['wire']:
        connect(a, b)
    for op, a, b in case['ops']:
        if op == 'c':
            connect(a, b)
        elif op == 'd':
            if links:
                b = sorted(links)[b % len(links)]
                if a % 2 and kinds[b] in ('I', 'MI'):
                    ports[b].disconnect(ports[links[b]])
                else:
                    ports[links[b]].disconnect(ports[b])
                special = special or bool(queues.get(b))
                del links[b]
        elif op in ('send', 'push'):
            a %= n
            if op == 'send' and kinds[a] == 'MI':
                continue
            if op == 'push' and kinds[a] == 'MO':
                continue
            rec = receivers(a)
            spread = spread or len(rec) > 1 or any(h > 1 for _, h in rec)
            for _ in range(b):
                counter[0] += 1
                msg = counter[0]
                if msg % 5 == 0 and counter[0] > 1:
                    msg = last[0]   # The very same once more
                elif msg % 7 == 0:
                    msg = None if msg % 21 == 0 else [msg]
                elif msg % 4 == 0:
                    # Messages which are false
                    msg = (0, False, 0., '', [], {}, ())[msg // 4 % 7]
                elif msg % 3 == 0 and case.get('notes'):
                    # On and off
                    msg = Note(pitch=msg % 128, velocity=float(msg % 2))
                last[0] = msg
                if op == 'send':
                    ports[a].send(msg)
                else:
                    ports[a].push(msg)
                deliver(a, msg)
            special = special or any(
                len(queues[j]) == 50 and b > 1 for j, _ in rec)
        else:
            mis = sorted(queues)
            if not mis:
                continue
            a = mis[a % len(mis)]
            if op == 'latest':
                got = ports[a].receive_latest()
                exp = queues[a][-1] if queues[a] else None
                special = special or len(queues[a]) > 1
                queues[a].clear()
                require(got == exp, 'latest of port %d: %r instead of %r',
                        a, got, exp)
            elif op == 'recv':
                got = []
                if b:
                    for msg in ports[a].receive():
                        got.append(msg)
                        if len(got) >= b:
                            break
                exp = queues[a][:b]
                del queues[a][:b]
                special = special or (b < 999 and bool(queues[a]))
                require(got == exp, 'receive of port %d: %r instead of %r',
                        a, got[:60], exp[:60])
            elif op == 'echo':
                # Messages which arrive while draining are handed out too.
                got, exp, left = [], list(queues[a]), b
                for msg in ports[a].receive():
                    got.append(msg)
                    if left:
                        left -= 1
                        ports[a].push(-left)
                        exp.append(-left)
                queues[a].clear()
                if len(exp) == len(got) + b:  # Was empty from the start
                    exp = []
                if exp and len(exp) <= 50:
                    require(got == exp, 'echo receive of port %d: %r instead '
                            'of %r', a, got[:60], exp[:60])
    for a in queues:
        got = list(ports[a].receive())
        require(got == queues[a], 'final drain of port %d: %r instead of %r',
                a, got[:60], queues[a][:60])
        require(list(ports[a].receive()) == []
                and ports[a].receive_latest() is None,
                'port %d is not empty after draining', a)
    if special and spread:
        ctx.hit()
    if spread:
        ctx.label('relay/fan-out')
    if special:
        ctx.label('partial/latest/overflow/rewired')


TESTS = [Test('messages', strat, check, quick=2500, thorough=150000)]
