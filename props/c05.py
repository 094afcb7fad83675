"""Composite blocks."""
from vlib.common import Test, require

META = {
    'title': 'Composites run exactly their inner blocks and keep their patching',
    'statement': (
        'A composite runs, once per update and in dependency order, exactly '
        'the blocks connected to its relays on the inside, never itself nor '
        'anything outside, whether it is patched up before or after and also '
        'when nested. Bundling blocks of a network into composites therefore '
        'does not change what the network computes, and determining the order '
        'or temporarily unpatching a block leaves all connections as they '
        'were, even if the code run meanwhile fails. A block that would run '
        'several times per cycle because it is part of the overall order '
        'twice is reported by a warning, and only then.'),
    'over': ['configurations', 'programs'],
    'quant': ('All loop-free networks of arithmetic blocks, all ways to cut '
              'a convex part out of them into (nested) composites, before or '
              'after patching the outside.'),
    'why': ('One test has two separate inner blocks and no outside; reaching '
            'through the outside, fan-out on relays, nesting and failures '
            'inside the unpatched section are not tested.'),
    'files': ['klang/composite.py', 'klang/execution.py', 'klang/klang.py'],
    'mechanism': [
        {'name': 'introspect, temporarily_unpatch, '
                 'Composite.update_internal_exec_order',
         'where': 'klang/composite.py'},
        {'name': 'unravel, validate_global_execution_order',
         'where': 'klang/klang.py'}],
    'observe': ['values at the outputs after running the execution order',
                'number of updates of every block', 'logger warnings'],
}
RULE = ('Cases are loop-free networks with a part moved into one or two '
        'nested composites. Non-trivial: the composite has at least two inner '
        'blocks and is connected to the outside.')


def strat():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'n': st.integers(3, 9),
        # src of each input slot: block i has up to 3 inputs
        'wires': st.lists(st.lists(st.integers(0, 20), min_size=0,
                                   max_size=3), min_size=9, max_size=9),
        'lo': st.integers(0, 8), 'len': st.integers(1, 5),
        'nest': st.integers(0, 3),
        'early': st.booleans(), 'cycles': st.integers(1, 3),
        'start': st.lists(st.integers(0, 8), min_size=1, max_size=2),
    })


def build_blocks():
    from klang.block import Block

    class Arith(Block):

        """Weighted sum of inputs plus a source term changing per cycle."""

        def __init__(self, idx, n_inputs):
            super().__init__(nInputs=n_inputs, nOutputs=1, name='b%d' % idx)
            self.idx = idx
            self.runs = 0

        def update(self):
            self.runs += 1
            self.output.set_value(formula(
                self.idx, self.runs, [i.value for i in self.inputs]))
    return Arith


def formula(idx, cycle, values):
    out = (idx + 1) * 101 + cycle * 7
    for k, val in enumerate(values):
        out = (out * 31 + (k + 3) * int(val)) % 1000003
    return out


def check(case, ctx):
    from klang.block import input_connections, output_connections
    from klang.composite import Composite
    from klang.connections import Relay
    from klang.execution import determine_execution_order, execute
    from klang.klang import unravel
    Arith = build_blocks()
    n = case['n']
    # Block i reads only blocks j < i, first input always connected so that
    # the part is not torn apart.
    src = []
    for i in range(n):
        if i == 0:
            src.append([])
        else:
            src.append([w % i for w in (case['wires'][i] or [i - 1])])
    lo = case['lo'] % n
    inner = list(range(lo, min(n, lo + case['len'])))
    # Inner blocks must be reachable from relays on the inside: keep those
    # weakly connected (inside) with a block that touches the outside.
    touch = {i for i in inner if any(s not in inner for s in src[i])
             or any(i in src[j] for j in range(n) if j not in inner)}
    todo, reach = list(touch), set()
    while todo:
        i = todo.pop()
        if i in reach:
            continue
        reach.add(i)
        todo += [s for s in src[i] if s in inner]
        todo += [j for j in inner if i in src[j]]
    inner = [i for i in inner if i in reach]
    blocks = [Arith(i, len(src[i])) for i in range(n)]
    comps = []

    def wrap(ids, parent_ids, early):
        """Patch ids into a new composite; returns (comp, in, out maps)."""
        comp = Composite(name='comp')
        inmap, outmap = {}, {}
        for i in ids:
            for s in src[i]:
                if s not in ids and s not in inmap:
                    relay = Relay(owner=comp)
                    comp.inputs.append(relay)
                    inmap[s] = relay
            if any(i in src[j] for j in range(n) if j not in ids):
                relay = Relay(owner=comp)
                comp.outputs.append(relay)
                outmap[i] = relay
        return comp, inmap, outmap

    # Sub-composite: prefix of inner
    sub = []
    if case['nest'] and len(inner) > 1:
        cut = 1 + case['nest'] % (len(inner) - 1)
        sub = inner[:cut]
        # The sub part must be reachable from its own relays as well
        seen, todo = set(), [i for i in sub if any(s not in sub for s in src[i])
                             or any(i in src[j] for j in range(n)
                                    if j not in sub)]
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            todo += [s for s in src[i] if s in sub]
            todo += [j for j in sub if i in src[j]]
        sub = [i for i in sub if i in seen]
    levels = {}
    for i in range(n):
        levels[i] = (2 if i in sub else 1 if i in inner else 0)
    comp = subc = None
    if inner:
        comp, cin, cout = wrap(inner, range(n), case['early'])
        comps.append(comp)
    if sub:
        subc, sin, sout = wrap(sub, inner, case['early'])
        comps.append(subc)

    def visible(s, dst_level_path):
        """Port which carries block s for a reader inside given path."""
        # Path of s from outside to inside
        port = blocks[s].output
        path_s = [c for c, ids in ((comp, inner), (subc, sub)) if s in ids]
        path_d = dst_level_path
        common = 0
        while (common < len(path_s) and common < len(path_d)
               and path_s[common] is path_d[common]):
            common += 1
        # go out of s
        for c in reversed(path_s[common:]):
            port = (cout if c is comp else sout)[s]
        for c in path_d[common:]:
            port = (cin if c is comp else sin)[s]
        return port

    def path(i):
        return [c for c, ids in ((comp, inner), (subc, sub)) if i in ids]

    links = []

    def link(a, b):
        if not any(x is a and y is b for x, y in links):
            links.append((a, b))

    for i in range(n):
        for k, s in enumerate(src[i]):
            link(visible(s, path(i)), blocks[i].inputs[k])
    if comp is not None:
        for s, relay in cin.items():
            link(blocks[s].output, relay)
        for i, relay in cout.items():
            link(sout[i] if i in sub else blocks[i].output, relay)
    if subc is not None:
        for s, relay in sin.items():
            link(cin[s] if s not in inner else blocks[s].output, relay)
        for i, relay in sout.items():
            link(blocks[i].output, relay)

    def depth(pair):
        """How many composites does the link run inside of?"""
        a = pair[0]
        for c, val in ((comp, 1), (subc, 2)):
            if c is not None and any(a is p for p in c.inputs):
                return val
            if c is not None and any(a is p for p in c.outputs):
                return val - 1
        return levels[a.owner.idx]

    if case['early']:  # Bottom up: order inside before the outside exists
        ctx.label('patched-later')
        phases = [[p for p in links if depth(p) == d] for d in (2, 1, 0)]
    else:
        phases = [links, [], []]
    for phase, done in zip(phases, ([subc], [comp], [])):
        for a, b in phase:
            a.connect(b)
        for c in done:
            if c is not None:
                c.update_internal_exec_order()

    def wiring_ok(what):
        for a, b in links:
            require(b.incomingConnection is a
                    and any(b is x for x in a.outgoingConnections),
                    '%s: a connection got lost', what)
        total = 0
        for port in ([p for b in blocks for p in b.outputs]
                     + [p for c in comps for p in c.inputs + c.outputs]):
            total += len(port.outgoingConnections)
        require(total == len(links), '%s: %d links instead of %d', what,
                total, len(links))

    wiring_ok('after ordering')
    if comp is not None:
        exp = [b for b in blocks if levels[b.idx] == 1]
        if subc is not None:
            exp.append(subc)
        require(sorted(map(id, comp.execOrder)) == sorted(map(id, exp)),
                'composite runs %s instead of %s',
                list(map(str, comp.execOrder)), list(map(str, exp)))
    if subc is not None:
        require(sorted(map(id, subc.execOrder)) == sorted(
            id(blocks[i]) for i in sub), 'inner composite runs %s',
            list(map(str, subc.execOrder)))
        ctx.label('nested')

    top = [b for b in blocks if not levels[b.idx]] + comps[:1]
    order = determine_execution_order(top)
    require(sorted(map(id, order)) == sorted(map(id, top)),
            'overall order %s', list(map(str, order)))
    flat = list(unravel(order))
    require(sorted(map(id, flat)) == sorted(map(id, blocks)),
            'flattened order %s', list(map(str, flat)))
    exp = None
    for cycle in range(1, case['cycles'] + 1):
        execute(order)
        exp = []
        for i in range(n):
            exp.append(formula(i, cycle, [exp[s] for s in src[i]]))
        got = [b.output.value for b in blocks]
        require(all(b.runs == cycle for b in blocks),
                'update counts %s in cycle %d', [b.runs for b in blocks],
                cycle)
        require(got == exp, 'cycle %d computes %s instead of %s', cycle, got,
                exp)
        if comp is not None:
            for i, relay in cout.items():
                require(relay.value == exp[i], 'relay of %d', i)
    wiring_ok('after running')
    # A second ordering of the patched composites changes nothing.
    for c in comps:
        before = list(map(id, c.execOrder))
        c.update_internal_exec_order()
        require(sorted(map(id, c.execOrder)) == sorted(before),
                'ordering again gives other blocks')
    wiring_ok('after ordering again')
    execute(determine_execution_order(top))
    exp = []
    for i in range(n):
        exp.append(formula(i, case['cycles'] + 1, [exp[s] for s in src[i]]))
    require([b.output.value for b in blocks] == exp, 'other result after '
            'ordering again')
    if len(inner) > 1 and any(True for _ in input_connections(comp)) | any(
            True for _ in output_connections(comp)):
        ctx.hit()


def strat_unpatch():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'n': st.integers(2, 6),
        'links': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 1),
                                    st.integers(0, 5)).map(list),
                          min_size=1, max_size=12),
        'msg': st.booleans(), 'block': st.integers(0, 5),
        'fail': st.sampled_from([None, None, 'KeyError', 'RuntimeError',
                                 'KeyboardInterrupt'])})


def check_unpatch(case, ctx):
    from klang.block import Block
    from klang.composite import temporarily_unpatch
    from klang.connections import (Input, MessageInput, MessageOutput,
                                   Output)
    n = case['n']
    blocks = [Block(name=str(i)) for i in range(n)]
    for block in blocks:
        block.outputs = [Output(owner=block), MessageOutput(owner=block)]
    links = []
    for a, port, b in case['links']:
        a, b = a % n, b % n
        dst = (MessageInput if port else Input)(owner=blocks[b])
        blocks[b].inputs.append(dst)
        blocks[a].outputs[port].connect(dst)
        links.append((a, port, b, dst))
    chosen = case['block'] % n

    def state(gone):
        for a, port, b, dst in links:
            there = not (gone and a != b and chosen in (a, b))
            require((dst.incomingConnection is blocks[a].outputs[port])
                    == there, 'link %d -> %d %s', a, b,
                    'missing' if there else 'still there')
            require((dst in blocks[a].outputs[port].outgoingConnections)
                    == there, 'link %d -> %d %s', a, b,
                    'missing' if there else 'still there')

    err = {'KeyError': KeyError, 'RuntimeError': RuntimeError,
           'KeyboardInterrupt': KeyboardInterrupt, None: None}[case['fail']]
    try:
        with temporarily_unpatch(blocks[chosen]):
            state(True)
            if err:
                raise err('injected')
    except (KeyError, RuntimeError, KeyboardInterrupt) as exc:
        require(type(exc) is err, 'other exception %r', exc)
    else:
        require(err is None, 'exception got lost')
    state(False)
    if any(a != b and chosen in (a, b) for a, _, b, _ in links):
        ctx.hit('failing-body' if err else None)


def strat_dup():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'plain': st.integers(0, 4),
        'comps': st.lists(st.lists(st.integers(0, 6), max_size=4),
                          max_size=3),
        'nest': st.booleans(), 'empty': st.booleans(),
        'names': st.sampled_from(['all', 'all', 'same', 'none'])})


def check_dup(case, ctx):
    from klang.block import Block
    from klang.composite import Composite
    from klang.klang import unravel, validate_global_execution_order
    names = case.get('names', 'all')
    blocks = [Block(name={'all': 'b%d' % i, 'same': 'block',
                          'none': ''}[names]) for i in range(7)]
    order = list(blocks[:case['plain']])
    expect = [b for b in order]
    comps = []
    for ids in case['comps']:
        comp = Composite(name='comp')
        # An inner order never repeats a block by itself
        comp.execOrder = [blocks[i] for i in dict.fromkeys(ids)]
        expect += comp.execOrder
        comps.append(comp)
    if case['nest'] and len(comps) > 1:
        comps[0].execOrder = comps[0].execOrder + [comps[1]]
        order += [comps[0]] + comps[2:]
    else:
        order += comps
    if not order:
        return
    flat = list(unravel(order))
    require(sorted(map(id, flat)) == sorted(map(id, expect)),
            'flattened order is %s', list(map(str, flat)))
    messages = []

    class Logger:
        def __getattr__(self, name):
            def log(fmt, *args):
                messages.append((name, fmt % args if args else fmt))
            return log

    validate_global_execution_order(order, Logger())
    warned = [m for lvl, m in messages if lvl in ('warning', 'warn', 'error')]
    dups = [b for b in blocks if sum(b is x for x in expect) > 1]
    require(bool(warned) == bool(dups), 'warnings %s for blocks running '
            'several times: %s', warned, list(map(str, dups)))
    for block in blocks:
        if warned and names == 'all':
            require((repr(block.name) in warned[0]) == (block in dups),
                    'warning %r about %s', warned[0], block)
    if dups:
        ctx.label('duplicates')
    if comps:
        ctx.hit()


def strat_mixed():
    from hypothesis import strategies as st
    idx = st.integers(0, 9)
    return st.fixed_dictionaries({
        'n': st.integers(1, 8),
        # From, to, message or value
        'links': st.lists(st.tuples(idx, idx, st.booleans()).map(list),
                          max_size=12),
        'ins': st.lists(st.tuples(idx, st.booleans()).map(list), max_size=3),
        'outs': st.lists(st.tuples(idx, st.booleans()).map(list), max_size=3),
        'given': st.booleans(), 'outer': st.booleans()})


def check_mixed(case, ctx):
    """Inner blocks which are reached over value and message relays."""
    from klang.block import Block
    from klang.composite import Composite
    from klang.connections import (Input, MessageInput, MessageOutput,
                                   MessageRelay, Output, Relay)
    n, ran = case['n'], []

    class Inner(Block):

        def __init__(self, i):
            super().__init__(name=str(i))
            self.i = i
            self.outputs = [Output(owner=self), MessageOutput(owner=self)]

        def update(self):
            ran.append(self.i)

    blocks = [Inner(i) for i in range(n)]

    def port(i, msg):
        blocks[i].inputs.append((MessageInput if msg else Input)(
            owner=blocks[i]))
        return blocks[i].inputs[-1]

    comp = Composite()
    edges, touch, kinds = [], [], set()
    for a, b, msg in case['links']:
        a, b = sorted((a % n, b % n))
        if a != b:
            blocks[a].outputs[msg].connect(port(b, msg))
            edges.append((a, b))
    for i, msg in case['ins']:
        relay = (MessageRelay if msg else Relay)(owner=comp)
        comp.inputs.append(relay)
        relay.connect(port(i % n, msg))
        touch.append(i % n)
        kinds.add(msg)
    for i, msg in case['outs']:
        relay = (MessageRelay if msg else Relay)(owner=comp)
        comp.outputs.append(relay)
        blocks[i % n].outputs[msg].connect(relay)
        touch.append(i % n)
        kinds.add(msg)
    outside = []
    if case['outer']:
        for relay in comp.inputs:
            src = Inner(100 + len(outside))
            src.outputs[isinstance(relay, MessageRelay)].connect(relay)
            outside.append(src)
        for relay in comp.outputs:
            dst = Inner(100 + len(outside))
            dst.inputs.append((MessageInput if isinstance(relay, MessageRelay)
                               else Input)(owner=dst))
            relay.connect(dst.inputs[0])
            outside.append(dst)
    start = list(touch)
    if case['given']:
        start = [0]
        comp.update_internal_exec_order(blocks[0])
    else:
        comp.update_internal_exec_order()
    exp, todo = set(), start
    while todo:
        i = todo.pop()
        if i not in exp:
            exp.add(i)
            todo += [b for a, b in edges if a == i]
            todo += [a for a, b in edges if b == i]
    comp.update()
    require(sorted(ran) == sorted(exp), 'composite ran %s instead of %s', ran,
            sorted(exp))
    for a, b in edges:
        require(a not in exp or ran.index(a) < ran.index(b),
                'block %d ran before %d: %s', b, a, ran)
    for relay in comp.inputs:
        require(len(relay.outgoingConnections) == 1
                and relay.connected == case['outer'], 'relay got repatched')
    if len(exp) > 1 and True in kinds:
        ctx.hit('message relays')


TESTS = [
    Test('compose', strat, check, quick=1500, thorough=60000),
    Test('mixed', strat_mixed, check_mixed, quick=500, thorough=20000),
    Test('unpatch', strat_unpatch, check_unpatch, quick=600, thorough=20000),
    Test('duplicates', strat_dup, check_dup, quick=400, thorough=10000),
]
