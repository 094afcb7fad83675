"""Pipe and mix operators."""
from vlib.common import Fail, Test, require

META = {
    'title': 'Pipe and mix operators build exactly the wiring they spell out',
    'statement': (
        'Piping left | right connects the primary output of the left operand '
        '(block or output) with the primary input of the right one (block or '
        'input) and returns the block at the right end, so that chains connect '
        'neighbour to neighbour. Adding blocks or outputs yields a mixer whose '
        'channels are fed by the operands in the order in which they are '
        'added, extending a mixer on the left instead of making a new one. '
        'Nothing else is '
        'connected, and impossible operands are refused without linking '
        'anything or adding channels.'),
    'over': ['programs'],
    'quant': ('All programs of pipe and mix expressions over blocks, mixers, '
              'inputs and outputs, value or message based.'),
    'why': ('The tests combine fresh pairs or triples; longer programs on '
            'shared operands, message ports and refused expressions in between '
            'are not covered.'),
    'files': ['klang/block.py', 'klang/audio/mixer.py'],
    'mechanism': [
        {'name': 'pipe_operator, mix_operator, fetch_input, fetch_output',
         'where': 'klang/block.py'},
        {'name': 'Mixer.__iadd__', 'where': 'klang/audio/mixer.py'}],
    'observe': ['results of the operators', 'connections of all operands'],
}
RULE = ('Cases are programs of up to 20 operator expressions over up to 8 '
        'operands. Non-trivial: at least two links were made by operators, '
        'one of them by mixing or in a chain.')


def strat():
    from hypothesis import strategies as st
    from vlib.gens import ops as oplist
    ref = st.tuples(st.integers(0, 11),
                    st.sampled_from(['b', 'b', 'b', 'o', 'i'])).map(list)
    op = st.one_of(
        st.tuples(st.just('|'), ref, ref),
        st.tuples(st.just('|'), ref, ref),
        st.tuples(st.just('+'), ref, ref),
        st.tuples(st.just('+='), ref, ref),
        st.tuples(st.just('chain'), ref, st.lists(ref, min_size=2,
                                                  max_size=4)),
    ).map(list)
    return st.fixed_dictionaries({
        'blocks': st.lists(st.tuples(
            st.sampled_from(['B', 'B', 'M', 'S', 'X', 'C']),
            st.integers(0, 3), st.integers(0, 2)).map(list),
            min_size=3, max_size=8),
        'ops': oplist(op, 20)})


def check(case, ctx):
    from klang.audio.mixer import Mixer, StereoMixer
    from klang.block import Block
    from klang.composite import Composite
    from klang.connections import (
        IncompatibleConnection, Input, InputAlreadyConnected, MessageInput,
        MessageOutput, Output, Relay)
    blocks = []
    for kind, n_in, n_out in case['blocks']:
        if kind == 'B':
            block = Block(n_in, n_out)
        elif kind == 'M':
            block = Mixer(n_in)
        elif kind == 'S':
            block = StereoMixer(n_in)
        elif kind == 'C':
            block = Composite()
            block.inputs = [Relay(owner=block) for _ in range(n_in)]
            block.outputs = [Relay(owner=block) for _ in range(n_out)]
        else:
            block = Block()
            block.inputs = [MessageInput(owner=block) for _ in range(n_in)]
            block.outputs = [MessageOutput(owner=block)
                             for _ in range(n_out)]
        blocks.append(block)
    links = []  # (src port, dst port)

    def operand(ref):
        block = blocks[ref[0] % len(blocks)]
        if ref[1] == 'o' and block.outputs:
            return block.outputs[ref[0] % len(block.outputs)]
        if ref[1] == 'i' and block.inputs:
            return block.inputs[ref[0] % len(block.inputs)]
        return block

    def is_mixer(x):
        return isinstance(x, Mixer)

    def first_output(x):
        if isinstance(x, Block):
            return x.outputs[0] if x.outputs else None
        return x

    def compatible(src, dst):
        if isinstance(src, (Output, Relay)) and isinstance(dst, Input):
            return True
        return isinstance(src, MessageOutput) and isinstance(
            dst, MessageInput)

    def verify(what, mixers):
        ports = {}
        for block in blocks:
            for port in list(block.inputs) + list(block.outputs):
                ports[id(port)] = port
        total = sum(len(p.outgoingConnections) for p in ports.values()
                    if hasattr(p, 'outgoingConnections'))
        for src, dst in links:
            require(dst.incomingConnection is src,
                    '%s: a link is missing', what)
        require(total == len(links), '%s: %d links instead of %d', what,
                total, len(links))

    made = special = 0

    def pipe(left, right, what):
        nonlocal made
        src = first_output(left)
        dst = right
        if isinstance(right, Block):
            dst = right.inputs[0] if right.inputs else None
        ok = (src is not None and dst is not None
              and (isinstance(src, (Output, Relay, MessageOutput)))
              and isinstance(dst, (Input, MessageInput))
              and compatible(src, dst) and not dst.connected)
        if isinstance(left, Block) or isinstance(right, Block):
            pass
        else:
            return None  # Two bare ports: not an operator of ours
        try:
            out = left | right
        except (AttributeError, TypeError, IncompatibleConnection,
                InputAlreadyConnected) as err:
            require(not ok, '%s: valid pipe refused with %r', what, err)
            verify(what, 0)
            return None
        require(ok, '%s: impossible pipe not refused', what)
        owner = right if isinstance(right, Block) else right.owner
        require(out is owner, '%s: returns %s instead of %s', what, out,
                owner)
        links.append((src, dst))
        made += 1
        verify(what, 0)
        return out

    for op, a, b in case['ops']:
        what = '%s %s %s' % (op, a, b)
        if op == '|':
            pipe(operand(a), operand(b), what)
        elif op == 'chain':
            cur = operand(a)
            for ref in b:
                cur = pipe(cur, operand(ref), what)
                if cur is None:
                    break
            else:
                special += 1
        else:
            left, right = operand(a), operand(b)
            if not (isinstance(left, Block) or isinstance(right, Block)):
                continue
            if left is right and is_mixer(left):
                continue
            if is_mixer(left) and is_mixer(right) and op == '+' \
                    and type(left) is not type(right):
                continue
            lsrc, rsrc = first_output(left), first_output(right)
            done = None
            if is_mixer(left):
                target, feeds = left, [rsrc]
            elif is_mixer(right):
                # Either extended or mixed into a new one, depending on who
                # gets to handle the operator. Both spell out the same sum.
                if isinstance(lsrc, Relay):
                    continue
                size, out = len(right.inputs), None
                if isinstance(lsrc, Output):
                    out = left + right
                if out is None:
                    target, feeds = None, [lsrc, rsrc]
                elif out is right:
                    target, feeds, done = right, [lsrc], size
                else:
                    target, feeds, done = None, [lsrc, rsrc], 0
            else:
                target, feeds = None, [lsrc, rsrc]
            ok = all(f is not None and (isinstance(f, Output) or (
                isinstance(f, Relay) and target is not None))
                for f in feeds)
            if not ok:
                sizes = [len(b.inputs) for b in blocks]
                try:
                    if target is left and op == '+=':
                        left += right
                    else:
                        _ = left + right
                except (AttributeError, TypeError, IncompatibleConnection):
                    verify(what, 0)
                    require([len(b.inputs) for b in blocks] == sizes,
                            '%s: refused, but a channel was added', what)
                    continue
                raise Fail('%s: impossible mix not refused' % what)
            before = list(target.inputs) if target is not None else []
            if done is not None:
                before = before[:done]
            elif op == '+':
                out = left + right
            else:
                out = left
                out += right
            require(isinstance(out, Mixer), '%s: no mixer but %s', what, out)
            if target is None:
                require(not any(out is b for b in blocks),
                        '%s: existing block reused', what)
                blocks.append(out)
            else:
                require(out is target, '%s: mixer not reused', what)
            now = list(out.inputs)
            require(len(now) == len(before) + len(feeds) and all(
                x is y for x, y in zip(before, now)),
                '%s: %d channels instead of %d', what, len(now),
                len(before) + len(feeds))
            for chan, feed in zip(now[len(before):], feeds):
                require(chan.incomingConnection is feed,
                        '%s: channel fed by something else', what)
                links.append((feed, chan))
                made += 1
            require(len(out.gains) == len(now) and all(
                g == 1. for g in out.gains[len(before):]),
                '%s: gains %s', what, out.gains)
            special += 1
            verify(what, 1)
    if made >= 2 and special:
        ctx.hit()
    if special:
        ctx.label('mixed or chained')


TESTS = [Test('operators', strat, check, quick=2500, thorough=100000)]
