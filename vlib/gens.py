"""Hypothesis strategy helpers (CPython side only)."""
from hypothesis import strategies as st


def signals(n, amp=1.):
    """Compact signal descriptors, expanded by orc.signal()."""
    return st.one_of(
        st.builds(lambda s, a: {'k': 'noise', 'n': n, 's': s, 'a': a},
                  st.integers(0, 10**6),
                  st.sampled_from([amp, .5 * amp, .1 * amp])),
        st.builds(lambda i: {'k': 'imp', 'n': n, 'at': i, 'a': amp},
                  st.integers(0, max(0, n - 1))),
        st.just({'k': 'ramp', 'n': n, 'a': amp}),
        st.builds(lambda c: {'k': 'const', 'n': n, 'a': c},
                  st.sampled_from([0., amp, -amp, .25 * amp])),
        st.builds(lambda p: {'k': 'sine', 'n': n, 'a': amp, 'p': p},
                  st.floats(.001, .45)),
        st.just({'k': 'nyq', 'n': n, 'a': amp}),
    )


def chunks(min_len=0, max_len=300, max_chunks=8, special=()):
    """Lists of chunk lengths."""
    length = st.integers(min_len, max_len)
    if special:
        length = st.one_of(st.sampled_from(list(special)), length)
    return st.lists(length, min_size=1, max_size=max_chunks)


def weighted(*pairs):
    """one_of with integer weights: weighted((3, a), (1, b)).

    one_of() drops identical alternatives, hence the index.
    """
    index = [i for i, (weight, _) in enumerate(pairs) for _ in range(weight)]
    strats = [strat for _, strat in pairs]
    return st.sampled_from(index).flatmap(lambda i: strats[i])


def unit():
    return st.one_of(st.sampled_from([0., 1., .5]), st.floats(0., 1.))


def bipolar():
    return st.one_of(st.sampled_from([0., 1., -1., .5]), st.floats(-1., 1.))


def ops(strat, hi=40, lo=1):
    """Operation lists with a healthy share of long ones."""
    mid = max(lo + 1, hi // 3)
    return st.one_of(
        st.lists(strat, min_size=lo, max_size=max(lo, mid)),
        st.lists(strat, min_size=min(hi, mid), max_size=hi),
        st.lists(strat, min_size=max(lo, (2 * hi) // 3), max_size=hi))
