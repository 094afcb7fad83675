"""Prime numbers."""
from vlib.common import Test, Fail, require

META = {
    'title': 'Prime number helpers agree with the definition of primes',
    'statement': (
        'A number is reported prime exactly if it has two divisors, and the '
        'sieve yields exactly the primes up to its limit in order. The next '
        'prime of a number is the smallest prime not below it, also beyond '
        'the precomputed ones, and the next n primes are n different ones in '
        'order without gaps. The search in a sorted list returns the smallest '
        'element not below the value, or ValueError above the last one.'),
    'over': ['inputs', 'histories'],
    'quant': 'Integers up to 10**6 (and products of two primes up to 5000), sieve limits up '
             'to 4000, any sorted list; any prior growth of the cache.',
    'why': 'Tests check some small numbers.',
    'files': ['klang/primes.py'],
    'mechanism': [{'name': 'is_prime, sieve_of_sundaram, find_next_prime(s), '
                           'binary_search_with_upper, _increase_cache',
                   'where': 'klang/primes.py'}],
    'observe': ['the functions named above'],
    'oracle': 'trial division and linear search',
}
RULE = ('Cases are integers, limits and sorted lists. Non-trivial: numbers '
        'that are composite with no factor below 5 or prime and above 7; '
        'searches between elements or above the last; starts beyond the '
        'precomputed primes.')


def prime(n):
    if n < 2:
        return False
    i = 2
    while i * i <= n:
        if n % i == 0:
            return False
        i += 1
    return True


def square(a, b):
    """Product of the primes next to two numbers."""
    while not prime(a):
        a += 1
    while not prime(b):
        b += 1
    return a * b


def s_prime():
    from hypothesis import strategies as st
    few = st.sampled_from([5, 7, 11, 13, 17, 19, 23, 25, 29, 31, 35, 37, 49,
                           97, 101, 103, 541, 997])
    return st.fixed_dictionaries({
        'n': st.one_of(st.integers(-10, 400), st.integers(-10, 10**6),
                       st.tuples(few, few).map(lambda t: t[0] * t[1]),
                       few.map(lambda p: p * p), few,
                       st.integers(100, 5000).map(lambda i: square(i, i)),
                       st.tuples(st.integers(100, 4000), st.integers(
                           100, 4000)).map(lambda t: square(*t))),
        'limit': st.one_of(st.integers(-5, 60), st.integers(0, 4000)),
        'start': st.one_of(st.integers(-20, 120), st.integers(0, 440000),
                           st.integers(440900, 442000)),
        'count': st.integers(0, 12)})


def c_prime(case, ctx):
    from klang import primes as pr
    n = case['n']
    require(bool(pr.is_prime(n)) == prime(n), 'is_prime(%d) is %s', n,
            pr.is_prime(n))
    limit = case['limit']
    got = list(pr.sieve_of_sundaram(limit))
    require(got == [i for i in range(limit + 1) if prime(i)],
            'primes up to %d are %s', limit, got)
    start, count = case['start'], case['count']
    if count % 3 == 0:
        cache = list(pr.PRIMES)
    exp, i = [], start
    while len(exp) < max(count, 1):
        if prime(i):
            exp.append(i)
        i += 1
    got = pr.find_next_prime(start)
    require(got == exp[0], 'next prime of %d is %s instead of %d', start, got,
            exp[0])
    got = pr.find_next_primes(count, start)
    require(list(got) == exp[:count], 'next %d primes of %d are %s instead '
            'of %s', count, start, got, exp[:count])
    if start <= 2:
        require(list(pr.find_next_primes(count)) == exp[:count], 'default')
    if count % 3 == 0:
        require(pr.PRIMES[:len(cache)] == cache
                and sorted(set(pr.PRIMES)) == pr.PRIMES, 'prime cache broken')
    if n > 7 and (prime(n) or (n % 2 and n % 3)):
        ctx.hit('prime' if prime(n) else 'composite')
    if start > 440000 and count:
        ctx.hit('cache')


def s_search():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'array': st.one_of(
            st.lists(st.integers(-60, 60), min_size=1, max_size=20),
            st.lists(st.floats(-5, 5), min_size=1, max_size=20)).map(sorted),
        'value': st.one_of(st.integers(-62, 62), st.floats(-6, 6)),
        'grow': st.integers(0, 40), 'from': st.integers(0, 30)})


def c_search(case, ctx):
    from klang import primes as pr
    arr, value = case['array'], case['value']
    exp = [v for v in arr if v >= value]
    try:
        got = pr.binary_search_with_upper(arr, value)
    except ValueError:
        require(not exp, 'no result for %s in %s', value, arr)
        ctx.hit('above')
    else:
        require(exp and got == exp[0], 'search of %s in %s: %s', value, arr,
                got)
        if len(exp) < len(arr) and got != value:
            ctx.hit('between')
    increase = getattr(pr, '_increase_cache', None)
    if increase is None:
        return
    first = [i for i in range(200) if prime(i)]
    cache = first[:case['from']]
    for _ in range(case['grow'] % 12):
        increase(cache)
    require(cache == first[:len(cache)]
            and len(cache) == case['from'] + case['grow'] % 12,
            'grown cache %s', cache)


TESTS = [
    Test('primes', s_prime, c_prime, quick=600, thorough=12000),
    Test('search', s_search, c_search, quick=800, thorough=20000),
]
