"""Plots of scales, metres and graphs."""
from vlib.common import Test, require

META = {
    'title': 'Plots show the scale, metre or graph they are given, where told',
    'statement': (
        'A scale in the circle of fifths is a polygon with one corner per '
        'pitch of the scale, each at the tick that carries the name of that '
        'pitch, and the twelve ticks stand evenly in clockwise fifths from C '
        'on top; a metre is one evenly spaced line per beat; a graph is one '
        'labelled circle per node at its position and one arrow per edge. '
        'Tick labels are the best fraction of the tick in lowest terms, '
        'a subplot layout has room for all plots without an empty column, '
        'and everything is drawn on the given axes and nowhere else.'),
    'over': ['inputs'],
    'quant': 'All scales, metres, ticks, graphs and numbers of plots.',
    'why': 'No test covers the plotting functions.',
    'files': ['klang/plotting.py', 'klang/graph.py', 'klang/music/scales.py',
              'klang/music/pitch.py'],
    'mechanism': [
        {'name': 'plot_scale_in_circle_of_fifth, fraction_ticks, plot_metre',
         'where': 'klang/plotting.py'},
        {'name': 'plot_graph', 'where': 'klang/graph.py'}],
    'observe': ['artists, ticks and labels of the axes (Agg back end)'],
    'oracle': 'the pitches, beats, fractions and edges computed anew',
}
RULE = ('Cases are a scale, metre, list of ticks, graph or number of plots. '
        'Non-trivial: a scale of 4 or more pitches, a fraction that has to be '
        'rounded, a graph with two edges.')
ASSUMPTIONS = ['rendering is the job of matplotlib: artists are inspected']
NAMES = ['C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B']


def axes(polar=False):
    """Two axes, the second of which is the current one."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    fig = plt.figure()
    ax = fig.add_axes((0, 0, .5, 1), polar=polar)
    other = fig.add_axes((.5, 0, .5, 1))
    plt.sca(other)
    return ax, other


def artists(ax):
    return len(ax.patches) + len(ax.lines) + len(ax.texts)


def strat_scale():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'pitches': st.lists(st.integers(0, 11), min_size=1, max_size=12,
                            unique=True).map(sorted),
        'given': st.booleans()})


def check_scale(case, ctx):
    import math
    import numpy as np
    from klang.music.scales import pitches_2_scale, scale_2_pitches
    from klang.plotting import plot_scale_in_circle_of_fifth
    pitches = [p - case['pitches'][0] for p in case['pitches']]
    scale = pitches_2_scale(np.array(pitches))
    require(list(scale_2_pitches(scale)) == pitches, 'pitches of %s', scale)
    ax, other = axes(True)
    if case['given']:
        poly = plot_scale_in_circle_of_fifth(scale, ax=ax)
    else:
        import matplotlib.pyplot as plt
        plt.sca(ax)
        poly = plot_scale_in_circle_of_fifth(scale)
    require(poly in ax.get_children(), 'polygon is not on the axes')
    require(artists(other) == 0, 'drawn on other axes')
    ticks = [float(t) for t in ax.get_xticks()]
    names = [t.get_text() for t in ax.get_xticklabels()]
    require(len(ticks) == 12 and len(names) == 12, '%d ticks', len(ticks))
    for i, tick in enumerate(ticks):
        require(abs(tick - i * math.tau / 12) < 1e-9, 'tick %d at %s', i, tick)
    from klang.music.pitch import PITCH_NAMES
    require(names == [PITCH_NAMES[7 * i % 12] for i in range(12)],
            'fifths are labelled %s', names)
    require(names[0] == 'C' and names[1] == 'G', 'labels %s', names)
    require(ax.get_theta_direction() == -1, 'not clockwise')
    require(abs(ax.get_theta_offset() - math.pi / 2) < 1e-9, 'C is not on top')
    require(len(ax.get_yticks()) == 0, 'radial ticks')
    xy = np.asarray(poly.get_xy())
    if len(pitches) > 1 or len(xy) > 1:
        if np.array_equal(xy[0], xy[-1]):
            xy = xy[:-1]
    require(len(xy) == len(pitches), '%d corners for %s', len(xy), pitches)
    require(np.all(xy[:, 1] == 1), 'radius %s', xy[:, 1])
    for pitch, angle in zip(pitches, xy[:, 0]):
        near = min(range(12), key=lambda i: abs(ticks[i] - angle))
        require(abs(ticks[near] - angle) < 1e-9
                and names[near] == PITCH_NAMES[pitch],
                'pitch %d of %s is at %s (%s)', pitch, pitches, angle,
                names[near])
    if len(pitches) > 3:
        ctx.hit()


def strat_ticks():
    from hypothesis import strategies as st
    from vlib.gens import weighted
    frac = st.tuples(st.integers(-40, 40), st.integers(1, 12)).map(
        lambda t: t[0] / t[1])
    return st.fixed_dictionaries({
        'ticks': st.lists(weighted((4, frac), (1, st.floats(-20, 20)),
                                   (1, st.just(0.)), (1, st.just(1.))),
                          min_size=1, max_size=8),
        'base': st.sampled_from([6.283185307179586, 3.141592653589793, 1., 2.5,
                                 .1]),
        'symbol': st.sampled_from(['\\tau', '\\pi', 'x']),
        'most': st.sampled_from([None, 1, 2, 3, 10, 16]),
        'axes': st.booleans()})


def parse(label, symbol):
    """Value of a label as (numerator, denominator)."""
    import re
    if label == '$0$':
        return 0, 1
    sym = re.escape(symbol)
    if label == '$%s$' % symbol:
        return 1, 1
    if label == '$-%s$' % symbol:
        return -1, 1
    found = re.fullmatch(r'\$\\frac\{%s\}\{(\d+)\}\$' % sym, label)
    if found:
        return 1, int(found.group(1))
    found = re.fullmatch(r'\$\\frac\{(-?\d+)\}\{(\d+)\}%s\$' % sym, label)
    if found:
        return int(found.group(1)), int(found.group(2))
    found = re.fullmatch(r'\$(-?\d+)%s\$' % sym, label)
    require(found is not None, 'unreadable label %r', label)
    return int(found.group(1)), 1


def best(value, most):
    """Smallest distance of a fraction with denominator up to most."""
    return min(abs(round(value * d) / d - value) for d in range(1, most + 1))


def compare(ticks, labels, base, symbol, most, ctx):
    import math
    require(len(labels) == len(ticks), '%d labels for %d ticks', len(labels),
            len(ticks))
    for tick, label in zip(ticks, labels):
        num, den = parse(label, symbol)
        value = tick / base
        require(math.gcd(num, den) == 1, 'not in lowest terms: %s', label)
        require(den <= most, 'denominator of %s above %d', label, most)
        require(abs(num / den - value) <= best(value, most) + 1e-9,
                '%s is labelled %s (value %s)', tick, label, value)
        if abs(num / den - value) > 1e-6:
            ctx.hit()
        if num > 1 and den > 1:
            ctx.hit()


def check_ticks(case, ctx):
    from klang.plotting import fraction_ticks, set_radian_xticks
    base, symbol = case['base'], case['symbol']
    ticks = [t * base for t in case['ticks']]
    if case['axes']:
        ax, other = axes()
        span = sorted([ticks[0], ticks[-1] + 1.])
        ax.set_xlim(*span)
        ax.set_xticks(ticks)
        set_radian_xticks(ax)
        compare([float(t) for t in ax.get_xticks()],
                [t.get_text() for t in ax.get_xticklabels()],
                6.283185307179586, '\\tau', 10, ctx)
        require(artists(other) == 0 and not other.get_xticklabels()[0]
                .get_text().startswith('$\\frac'), 'other axes changed')
        return
    kw = {} if case['most'] is None else {'maxDenominator': case['most']}
    labels = fraction_ticks(ticks, base, symbol, **kw)
    compare(ticks, labels, base, symbol, case['most'] or 10, ctx)


def strat_metre():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'num': st.one_of(st.integers(1, 12), st.integers(13, 40)), 'den': st.sampled_from([1, 2, 4, 8]),
        'shape': st.one_of(st.integers(1, 40), st.integers(1, 3000))})


def check_metre(case, ctx):
    import math
    from klang.music.metre import create_metre
    from klang.plotting import nice_plotting_shape, plot_metre
    metre = create_metre(case['num'], case['den'])
    num = case['num']
    ax, other = axes()
    plot_metre(ax, metre)
    at = []
    for line in ax.lines:
        xs = [float(x) for x in line.get_xdata()]
        require(xs[0] == xs[1], 'line from %s to %s', xs[0], xs[1])
        at.append(xs[0])
    require(len(at) == num, '%d lines for %s', len(at), metre)
    for i, x in enumerate(sorted(at)):
        require(abs(x - i * math.tau / num) < 1e-9, 'beat %d at %s', i, x)
    require(artists(other) == 0, 'drawn on other axes')
    n = case['shape']
    rows, cols = nice_plotting_shape(n)
    require(rows * cols >= n, '%d plots in %dx%d', n, rows, cols)
    require(rows * (cols - 1) < n, '%d plots in %dx%d', n, rows, cols)
    require(abs(rows - cols) <= 2, '%d plots in %dx%d', n, rows, cols)
    if num > 2:
        ctx.hit()


def strat_graph():
    from hypothesis import strategies as st

    def build(n):
        return st.fixed_dictionaries({
            'n': st.just(n),
            'edges': st.lists(st.tuples(st.integers(0, n - 1),
                                        st.integers(0, n - 1)),
                              max_size=10, unique=True),
            'pos': st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)),
                            min_size=n, max_size=n, unique=True),
            'given': st.booleans()})
    return st.integers(1, 6).flatmap(build)


def check_graph(case, ctx):
    import matplotlib.patches as mp
    import numpy as np
    from klang.graph import plot_graph
    n = case['n']
    graph = np.zeros((n, n))
    edges = [tuple(e) for e in case['edges']]
    for a, b in edges:
        graph[a, b] = 1
    pos = [tuple(p) for p in case['pos']]
    ax, other = axes()
    if case['given']:
        plot_graph(graph, pos, ax=ax)
    else:
        ax, other = other, ax
        plot_graph(graph, pos)
    require(artists(other) == 0, '%d artists on other axes', artists(other))
    arrows = [p for p in ax.patches if isinstance(p, mp.FancyArrowPatch)]
    circles = [p for p in ax.patches if isinstance(p, mp.Circle)]
    got = sorted(tuple(tuple(map(float, p)) for p in a._posA_posB)
                 for a in arrows)
    want = sorted((tuple(map(float, pos[a])), tuple(map(float, pos[b])))
                  for a, b in edges)
    require(got == want, 'arrows %s instead of %s', got, want)
    got = [tuple(map(float, c.center)) for c in circles]
    require(sorted(got) == sorted(tuple(map(float, p)) for p in pos),
            'circles at %s', got)
    require(len(ax.texts) == n, '%d labels', len(ax.texts))
    for text in ax.texts:
        x, y = pos[int(text.get_text())]
        require(text.xy[0] == x and abs(text.xy[1] - y) < .2,
                'label %s at %s', text.get_text(), text.xy)
    require(sorted(int(t.get_text()) for t in ax.texts) == list(range(n)),
            'labels %s', [t.get_text() for t in ax.texts])
    if len(edges) > 1:
        ctx.hit()


TESTS = [
    Test('scale', strat_scale, check_scale, quick=40, thorough=600),
    Test('ticks', strat_ticks, check_ticks, quick=200, thorough=3000),
    Test('metre', strat_metre, check_metre, quick=40, thorough=400),
    Test('graph', strat_graph, check_graph, quick=40, thorough=600),
]
