"""Execution order of block networks."""
from vlib.common import Test, require

META = {
    'title': 'Execution order: every block once, after everything it depends on',
    'statement': (
        'For any wiring, including feedback loops, parallel links and separate '
        'networks, the execution order found from some starting blocks '
        'contains each block connected with them in any direction exactly '
        'once and no other. A block comes after every block feeding it; this '
        'may be given up only for a link that closes a feedback loop formed by '
        'links which are respected, so that links outside of loops always '
        'are. The same holds for ordering a plain adjacency matrix.'),
    'over': ['configurations', 'inputs'],
    'quant': ('All directed multigraphs of blocks (up to a few dozen blocks, '
              'any loops) and all non-empty sets of starting blocks.'),
    'why': ('Some fifteen hand-drawn graphs are tested; order bugs depend on '
            'node numbering, loop shapes and where the traversal starts.'),
    'files': ['klang/execution.py', 'klang/graph.py', 'klang/block.py'],
    'mechanism': [
        {'name': 'traverse_network, determine_execution_order',
         'where': 'klang/execution.py'},
        {'name': 'find_back_edges, topological_sorting',
         'where': 'klang/graph.py'}],
    'observe': ['determine_execution_order(blocks)',
                'topological_sorting(graph_matrix(edges))'],
}
RULE = ('Cases are random directed (multi)graphs: DAGs under a random '
        'numbering, graphs with loops, layered and chain shapes. Non-trivial: '
        'at least 4 connected nodes and at least 4 edges between them.')


def strat_edges(n_max):
    from hypothesis import strategies as st

    def build(n, raw, shape, perm_seed):
        perm = list(range(n))
        # Deterministic shuffle from the drawn integers
        for i, r in enumerate(perm_seed[:n]):
            j = r % n
            perm[i], perm[j] = perm[j], perm[i]
        edges = []
        for a, b in raw:
            a, b = a % n, b % n
            if shape == 'dag' and a != b:
                a, b = min(a, b), max(a, b)
            if shape == 'near':
                b = (a + 1 + b % 3) % n
            edges.append([perm[a], perm[b]])
        return {'n': n, 'edges': edges}

    def sized(lo, hi):
        return st.lists(st.tuples(st.integers(0, n_max - 1),
                                  st.integers(0, n_max - 1)),
                        min_size=lo, max_size=hi)

    return st.builds(
        build, st.one_of(st.integers(2, 6), st.integers(4, n_max)),
        st.one_of(sized(1, 8), sized(5, 20), sized(12, 40)),
        st.sampled_from(['dag', 'dag', 'any', 'near']),
        st.lists(st.integers(0, 1000), min_size=n_max, max_size=n_max))


def reach_closure(n, edges):
    reach = [set() for _ in range(n)]
    succ = [[] for _ in range(n)]
    for a, b in edges:
        succ[a].append(b)
    for i in range(n):
        stack = list(succ[i])
        while stack:
            j = stack.pop()
            if j not in reach[i]:
                reach[i].add(j)
                stack.extend(succ[j])
    return reach


def judge_order(order, nodes, edges, n, ctx):
    """Order is a permutation of nodes respecting edges up to loops."""
    require(sorted(order) == sorted(nodes),
            'order %s is not a permutation of the nodes %s',
            order, sorted(nodes))
    pos = {node: i for i, node in enumerate(order)}
    inside = [(a, b) for a, b in edges if a in pos and b in pos and a != b]
    kept = [(a, b) for a, b in inside if pos[a] < pos[b]]
    reach_all = reach_closure(n, inside)
    reach_kept = reach_closure(n, kept)
    for a, b in inside:
        if pos[a] > pos[b]:
            require(a in reach_all[b],
                    'link %d -> %d is in no loop but order is %s', a, b, order)
            require(a in reach_kept[b],
                    'link %d -> %d is violated though it closes no loop of '
                    'respected links; order %s', a, b, order)
            ctx.label('loop')
    if len(nodes) >= 4 and len(set(inside)) >= 4:
        ctx.hit()


def strat_blocks():
    from hypothesis import strategies as st
    return st.tuples(strat_edges(16), st.lists(
        st.integers(0, 15), min_size=1, max_size=5), st.booleans()).map(
            lambda t: dict(t[0], start=t[1], msg=t[2]))


def strat_islands():
    """Many small networks, run together."""
    from hypothesis import strategies as st

    def build(sizes, steps, twice):
        edges, start, n = [], [], 0
        for size, step in zip(sizes, steps):
            edges += [[i, i + 1] for i in range(n, n + size - 1)]
            start.append(n + step % size)
            n += size
        order = sorted(range(len(start)), key=lambda i: steps[i] * 7919 % 101)
        start = [start[i] for i in order]
        return {'n': n, 'edges': edges, 'start': start + start[:twice],
                'msg': False}

    return st.builds(build, st.lists(st.integers(1, 4), min_size=2,
                                     max_size=60),
                     st.lists(st.integers(0, 100), min_size=60, max_size=60),
                     st.integers(0, 5))


def check_blocks(case, ctx):
    from klang.block import Block
    from klang.connections import Input, MessageInput, MessageOutput, Output
    from klang.execution import determine_execution_order
    n = case['n']
    blocks = [Block(name=str(i)) for i in range(n)]
    for i, block in enumerate(blocks):
        block.outputs = [Output(owner=block), MessageOutput(owner=block)]
        block.inputs = []
    edges = []
    for k, (a, b) in enumerate(case['edges']):
        if case['msg'] and k % 3 == 0:
            src = blocks[a].outputs[1]
            dst = MessageInput(owner=blocks[b])
        else:
            src = blocks[a].outputs[0]
            dst = Input(owner=blocks[b])
        blocks[b].inputs.append(dst)
        src.connect(dst)
        edges.append((a, b))
    # Ports without an owner are none of the network's business.
    free = Output()
    extra = Input(owner=blocks[0])
    blocks[0].inputs.append(extra)
    free.connect(extra)
    start = [s % n for s in case['start']]
    order = determine_execution_order([blocks[s] for s in start])
    index = {id(b): i for i, b in enumerate(blocks)}
    for block in order:
        require(id(block) in index, 'foreign block %s in order', block)
    order = [index[id(b)] for b in order]
    # Weakly connected closure of the start blocks
    nodes, todo = set(), list(start)
    while todo:
        i = todo.pop()
        if i in nodes:
            continue
        nodes.add(i)
        for a, b in edges:
            if a == i:
                todo.append(b)
            if b == i:
                todo.append(a)
    if len(nodes) < n:
        ctx.label('separate')
    judge_order(order, nodes, edges, n, ctx)


def strat_long():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'parts': st.lists(st.tuples(
            st.sampled_from(['chain', 'ring', 'ring', 'back', 'fan-in',
                             'fan-out']),
            st.integers(2, 90)).map(list), min_size=1, max_size=3),
        'joins': st.lists(st.tuples(st.integers(0, 300), st.integers(0, 300),
                                    ).map(list), max_size=3),
        'start': st.integers(0, 300), 'step': st.integers(0, 300)})


def strat_large():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'parts': st.lists(st.tuples(
            st.sampled_from(['chain', 'ring', 'back', 'fan-in', 'fan-out',
                             'fan-in', 'fan-out']),
            st.integers(120, 330)).map(list), min_size=1, max_size=2),
        'joins': st.lists(st.tuples(st.integers(0, 500), st.integers(0, 500),
                                    ).map(list), max_size=3),
        'start': st.integers(0, 500), 'step': st.integers(0, 500)})


def check_long(case, ctx):
    """Long rows, loops and stars of blocks."""
    import math
    from klang.block import Block
    from klang.execution import determine_execution_order
    edges, n = [], 0
    for kind, size in case['parts']:
        row = list(range(n, n + size))
        if kind == 'fan-in':
            edges += [(i, row[0]) for i in row[1:]]
        elif kind == 'fan-out':
            edges += [(row[0], i) for i in row[1:]]
        else:
            edges += list(zip(row, row[1:]))
        if kind == 'ring':
            edges.append((row[-1], row[0]))
        elif kind == 'back':
            edges.append((row[-1], row[size // 2]))
        if n:
            edges.append((n - 1, row[0]))
        n += size
    edges += [(a % n, b % n) for a, b in case['joins']]
    # Spread over the positions of the blocks
    step = next(k for k in range(1 + case['step'] % n, 2 * n + 2)
                if math.gcd(k, n) == 1)
    edges = sorted({(a * step % n, b * step % n) for a, b in edges if a != b})
    blocks = [Block(name=str(i)) for i in range(n)]
    for a, b in edges:
        blocks[b].inputs += Block(1).inputs
        blocks[b].inputs[-1].owner = blocks[b]
        if not blocks[a].outputs:
            blocks[a].outputs = Block(0, 1).outputs
            blocks[a].output.owner = blocks[a]
        blocks[a].output.connect(blocks[b].inputs[-1])
    order = determine_execution_order([blocks[case['start'] % n]])
    index = {id(b): i for i, b in enumerate(blocks)}
    judge_order([index[id(b)] for b in order], list(range(n)), edges, n, ctx)


def strat_matrix():
    return strat_edges(22)


def check_matrix(case, ctx):
    import numpy as np
    from klang.graph import (find_back_edges, get_predecessors, get_sinks,
                             get_sources, get_successors, graph_matrix,
                             remove_back_edges, topological_sorting)
    n, edges = case['n'], [tuple(e) for e in case['edges']]
    graph = graph_matrix(edges, order=n)
    require(graph.shape == (n, n), 'shape %s', graph.shape)
    dense = [[int((a, b) in edges) for b in range(n)] for a in range(n)]
    require(np.asarray(graph).astype(bool).astype(int).tolist() == dense,
            'adjacency matrix does not hold the edges')
    for i in range(n):
        require(sorted(map(int, get_successors(graph, i)))
                == [j for j in range(n) if dense[i][j]], 'successors of %d', i)
        require(sorted(map(int, get_predecessors(graph, i)))
                == [j for j in range(n) if dense[j][i]],
                'predecessors of %d', i)
    require(sorted(map(int, get_sources(graph))) == [
        j for j in range(n) if not any(dense[i][j] for i in range(n))],
        'sources')
    require(sorted(map(int, get_sinks(graph))) == [
        i for i in range(n) if not any(dense[i])], 'sinks')
    before = np.array(graph)
    back = [(int(a), int(b)) for a, b in find_back_edges(graph)]
    reach = reach_closure(n, edges)
    for a, b in back:
        require((a, b) in edges and (a == b or a in reach[b]),
                'back edge %s is in no loop', (a, b))
    dag = remove_back_edges(graph)
    left = [(a, b) for a in range(n) for b in range(n) if dag[a][b]]
    require(set(left) == set(edges) - set(back),
            'removing the back edges removed something else')
    closure = reach_closure(n, left)
    require(not any(i in closure[i] for i in range(n)),
            'graph still has loops without its back edges')
    order = [int(i) for i in topological_sorting(graph)]
    require((np.asarray(graph) == before).all(), 'sorting changed the graph')
    judge_order(order, range(n), edges, n, ctx)
    undirected = graph_matrix(edges, directed=False, order=n)
    require(np.asarray(undirected).astype(bool).tolist() == [
        [bool(dense[a][b] or dense[b][a]) for b in range(n)]
        for a in range(n)], 'undirected adjacency matrix')


TESTS = [
    Test('blocks', strat_blocks, check_blocks, quick=1200, thorough=60000),
    Test('islands', strat_islands, check_blocks, quick=60, thorough=2000),
    Test('long', strat_long, check_long, quick=60, thorough=2000),
    Test('large', strat_large, check_long, quick=12, thorough=150),
    Test('matrix', strat_matrix, check_matrix, quick=1200, thorough=60000),
]
