"""Progress bar."""
from vlib.common import Test, Fail, require

META = {
    'title': 'Progress bars show true progress and end their line exactly once',
    'statement': (
        'Wrapping a range yields exactly its numbers. Every rendering has '
        'the prefix, a bar of fixed width whose filled part is the fraction '
        'done (empty at the start, full at the last step, never shrinking) '
        'and the remaining time, which is the time since its own start '
        'scaled by the remaining progress. Each rendering replaces the previous one in '
        'place and only the last one ends the line.'),
    'over': ['inputs', 'schedules'],
    'quant': 'All lengths (also 0 and 1), widths, prefixes and schedules of '
             'step times.',
    'why': 'No test covers it.',
    'files': ['klang/progress_bar.py'],
    'mechanism': [{'name': 'ProgressBar', 'where': 'klang/progress_bar.py'}],
    'observe': ['ProgressBar.range() and the text written to its stream'],
    'oracle': 'fraction of steps, simulated clock',
}
RULE = ('Cases are a length, width, prefix and step times. Non-trivial: at '
        'least three steps and a width of at least two; two bars under way at '
        'the same time.')


def strat():
    from hypothesis import strategies as st
    from vlib.gens import weighted
    return st.fixed_dictionaries({
        'length': weighted(
            (9, st.integers(0, 5)), (9, st.integers(0, 60)),
            (1, st.integers(500, 3000))),
        'width': st.one_of(st.none(), st.integers(1, 60),
                           st.integers(1, 60), st.integers(61, 300)),
        'prefix': st.one_of(st.none(), st.text('abc :', max_size=6)),
        'steps': st.lists(st.floats(.001, 20.), min_size=1, max_size=5),
        'start': st.floats(0, 1000)})


def check(case, ctx):
    import io
    import re
    from klang.progress_bar import ProgressBar
    length, width = case['length'], case['width']
    kw = {}
    if width is not None:
        kw['width'] = width
    if case['prefix'] is not None:
        kw['prefix'] = case['prefix']
    now = case['start']

    class Bar(ProgressBar):
        stream = io.StringIO()
        clock = staticmethod(lambda: now)

    seen, times, texts = [], [], []
    for i in Bar.range(length, **kw):
        seen.append(i)
        times.append(now)
        texts.append(Bar.stream.getvalue())
        now += case['steps'][i % len(case['steps'])]
    require(seen == list(range(length)), 'yields %s', seen)
    width = width or 20
    prefix = case['prefix'] or ''
    last, before = -1, ''
    for i, text in enumerate(texts):
        require(text.startswith(before), 'output got lost')
        new = text[len(before):]
        before = text
        require(new.endswith('\n') == (i == length - 1)
                and new.count('\n') == (i == length - 1),
                'line %d of %d ends with %r', i, length, new[-3:])
        require(new.startswith('\33[2K\r'), 'line is not replaced: %r', new)
        body = new[5:].rstrip('\n')
        if prefix:
            require(body.startswith(prefix + ' '), 'prefix of %r', body)
            body = body[len(prefix) + 1:]
        found = re.fullmatch(r'\[(\**)( *)\] (\S+) sec', body)
        require(found is not None, 'rendered as %r', body)
        ticks = len(found.group(1))
        require(ticks + len(found.group(2)) == width, 'width of %r', body)
        require(ticks >= last, 'bar shrinks at %d', i)
        last = ticks
        if length > 1:
            done = i / (length - 1)
            require(abs(ticks - done * width) <= 1 and (i or not ticks)
                    and (i < length - 1 or ticks == width),
                    'step %d of %d: %r', i, length, body)
            if i:
                exp = (times[i] - times[0]) * (1 - done) / done
                require(abs(float(found.group(3)) - exp) <= .002 + 1e-9 * exp,
                        'step %d of %d: %s sec remaining instead of %.3f', i,
                        length, found.group(3), exp)
            else:
                require(found.group(3) == 'inf', 'remaining time at start')
    if length >= 3 and width >= 2:
        ctx.hit(str(min(length, 10)))


def s_nested():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'lengths': st.lists(st.integers(2, 30), min_size=2, max_size=4),
        'widths': st.lists(st.one_of(st.integers(1, 40), st.integers(
            1, 200)), min_size=4, max_size=4),
        'steps': st.lists(st.tuples(st.integers(0, 3), st.floats(.001, 20.)),
                          min_size=6, max_size=60)})


def c_nested(case, ctx):
    """Several bars in use at the same time, as in nested loops."""
    import io
    import re
    from klang.progress_bar import ProgressBar
    now = 0.

    class Bar(ProgressBar):
        stream = io.StringIO()
        clock = staticmethod(lambda: now)

    bars = [Bar(n, w, str(k)) for k, (n, w) in enumerate(
        zip(case['lengths'], case['widths']))]
    at, began = [0] * len(bars), [None] * len(bars)
    for k, seconds in case['steps']:
        k %= len(bars)
        i, n, w = at[k], case['lengths'][k], case['widths'][k]
        at[k] = (i + 1) % n
        if i == 0:
            began[k] = now
        Bar.stream.truncate(0)
        Bar.stream.seek(0)
        bars[k].print(i)
        text = Bar.stream.getvalue()
        found = re.fullmatch(
            '\33\\[2K\r%d \\[(\\**)( *)\\] (\\S+) sec(\n?)' % k, text)
        require(found is not None, 'bar %d prints %r', k, text)
        done = i / (n - 1)
        require(abs(len(found.group(1)) - done * w) <= 1
                and len(found.group(1) + found.group(2)) == w,
                'step %d of %d of bar %d: %r', i, n, k, text)
        require(bool(found.group(4)) == (i == n - 1), 'end of line in step %d '
                'of %d: %r', i, n, text)
        if i:
            exp = (now - began[k]) * (1 - done) / done
            require(abs(float(found.group(3)) - exp) <= .002 + 1e-9 * exp,
                    'bar %d, step %d of %d: %s sec remaining instead of %.3f',
                    k, i, n, found.group(3), exp)
            if sum(0 < a for a in at) > 1:
                ctx.hit('at once')
        else:
            require(found.group(3) == 'inf', 'remaining time at start')
        now += seconds


TESTS = [
    Test('nested', s_nested, c_nested, quick=400, thorough=12000),
    Test('range', strat, check, quick=400, thorough=12000),
]
