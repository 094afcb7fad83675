"""Euclidean rhythm."""
from vlib.common import Test, require

META = {
    'title': 'Euclidean rhythms: exact pulse count, spread as evenly as possible',
    'statement': (
        'The Euclidean rhythm of k pulses in n slots has n entries of 0 or 1 '
        'with exactly k pulses, and is maximally even: the distances between '
        'every two pulses j apart, around the circle, take at most two '
        'consecutive values, for every j. Hence all pulses are equally far '
        'apart if k divides n, and swapping pulses and rests is a rotation of '
        'the rhythm of n - k pulses. No pulses give silence and n pulses a '
        'pulse in every slot.'),
    'over': ['inputs'],
    'quant': 'All 0 <= k <= n.',
    'why': 'No test covers it; the recursion depends on the Euclidean chain.',
    'files': ['klang/music/rhythm.py'],
    'mechanism': [{'name': 'euclidian_rhythm, _compute_bitmap',
                   'where': 'klang/music/rhythm.py'}],
    'observe': ['euclidian_rhythm()'],
    'oracle': 'the definition of maximal evenness',
}
RULE = ('Cases are pairs of pulses and slots. Non-trivial: 2 <= k < n and k '
        'does not divide n.')


def strat():
    from hypothesis import strategies as st
    return st.one_of(st.integers(1, 40), st.integers(1, 40),
                     st.integers(1, 300)).flatmap(
        lambda n: st.tuples(st.integers(0, n), st.just(n)).map(list))


def check(case, ctx):
    from klang.music.rhythm import euclidian_rhythm
    k, n = case
    got = list(euclidian_rhythm(k, n))
    require(len(got) == n, '%d slots instead of %d', len(got), n)
    require(set(got) <= {0, 1} and sum(got) == k, '%s has not %d pulses', got,
            k)
    pos = [i for i, v in enumerate(got) if v]
    for j in range(1, k):
        dist = set((pos[(i + j) % k] - p) % n for i, p in enumerate(pos))
        require(dist <= {j * n // k, -(-j * n // k)}, 'distances %s of pulses '
                '%d apart in %s', sorted(dist), j, got)
    if k and n <= 60:
        inv = [1 - v for v in got]
        other = list(euclidian_rhythm(n - k, n))
        require(any(inv == other[i:] + other[:i] for i in range(n)),
                'rests of %s are not a rotation of %s', got, other)
    edited = euclidian_rhythm(k, n)
    if isinstance(edited, list):
        # Callers turn pulses into pitches
        edited[:] = [60] * (len(edited) + 1)
    require(list(euclidian_rhythm(k, n)) == got, 'not deterministic')
    if 2 <= k < n and n % k:
        ctx.hit('%d' % (n // 50 * 50))


TESTS = [Test('euclid', strat, check, quick=500, thorough=20000)]
