"""Look-up helpers."""
from vlib.common import Test, Fail, require

META = {
    'title': 'Name look-up and table parsing return the right entry or refuse',
    'statement': (
        'Parsing the text of a table returns every row under its name with '
        'numbers as numbers and other values as text. The edit distance is '
        'the least number of deletions, insertions and (weighted) '
        'substitutions. Looking up a full name returns its entry; an '
        'abbreviation - first letter and further letters in order - returns '
        'the entry if it fits exactly one name and otherwise raises '
        'ValueError listing all names it fits, and a name fitting none '
        'raises ValueError with the closest names, never another entry.'),
    'over': ['inputs'],
    'quant': 'All tables of names and values, all search texts (names, '
             'abbreviations, misspellings).',
    'why': 'No test covers the look-up.',
    'files': ['klang/util.py'],
    'mechanism': [{'name': 'parse_music_data_from_csv, levenshtein, find_item',
                   'where': 'klang/util.py'}],
    'observe': ['the functions named above'],
    'oracle': 'memoized recursive edit distance, subsequence test',
}
RULE = ('Cases are tables and search texts. Non-trivial: the search text is '
        'not itself a name; distances between different texts; tables with '
        'two or more rows.')
ASSUMPTIONS = [
    'The edit distance is judged with unit cost of deletions and insertions: '
    'with other costs the library charges unit costs at the start of the text '
    'on purpose of the look-up (abbreviations begin with the first letter).']


def s_table():
    from hypothesis import strategies as st
    name = st.text('abc xyz(1-9)#"', min_size=1, max_size=8)
    value = st.one_of(st.integers(-1000, 1000),
                      st.floats(-1e6, 1e6),
                      st.sampled_from(['3/2', ' 3/2', 'x', '1/1']))
    return st.fixed_dictionaries({
        'rows': st.dictionaries(name, st.lists(value, max_size=8),
                                min_size=1, max_size=8),
        'sep': st.sampled_from([',', ',', ';', '\t']),
        'bytes': st.booleans(), 'end': st.booleans()})


def c_table(case, ctx):
    import os
    import tempfile
    from klang.util import parse_music_data_from_csv, load_music_data_from_csv
    rows, sep = case['rows'], case['sep']
    text = '\n'.join(sep.join([name] + [str(v) for v in values])
                     for name, values in rows.items())
    text += '\n' * case['end']
    got = parse_music_data_from_csv(text.encode() if case['bytes'] else text,
                                    **({} if sep == ',' else {'sep': sep}))
    require(got == rows and [type(v) for k in sorted(rows) for v in got[k]]
            == [type(v) for k in sorted(rows) for v in rows[k]],
            'table %r is read as %r', text, got)
    require(list(got) == list(rows), 'order of the names')
    fd, path = tempfile.mkstemp(suffix='.csv')
    ctx.defer(os.unlink, path)
    with os.fdopen(fd, 'w') as f:
        f.write(text)
    require(load_music_data_from_csv(path, sep) == rows, 'table from file')
    if len(rows) > 1:
        ctx.hit()


def distance(a, b, sub):
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            cur.append(min(prev[j] + 1, cur[-1] + 1,
                           prev[j - 1] + (sub if x != y else 0)))
        prev = cur
    return prev[-1]


def s_edit():
    from hypothesis import strategies as st
    from vlib.gens import weighted
    text = st.one_of(st.text('ab', min_size=1, max_size=12),
                     st.text('abcd ', min_size=1, max_size=10),
                     st.text(min_size=1, max_size=6))
    long = st.tuples(st.text('ab', min_size=1, max_size=3),
                     st.text('ab', min_size=1, max_size=4),
                     st.integers(60, 200)).map(
        lambda t: [t[0], t[1] * t[2], 1])
    other = st.tuples(text, text, st.integers(1, 3)).map(list)
    return weighted((15, other), (1, long))


def c_edit(case, ctx):
    from klang.util import levenshtein
    a, b, sub = case
    exp = distance(a, b, 1)
    require(levenshtein(a, b) == exp, 'distance of %r and %r is %s instead '
            'of %d', a, b, levenshtein(a, b), exp)
    require(levenshtein(b, a) == exp, 'not symmetric')
    require(levenshtein(a, a) == 0, 'distance of %r to itself', a)
    require(levenshtein(a, b, substitutionCost=sub) == distance(a, b, sub),
            'distance of %r and %r with substitution cost %d is %s instead '
            'of %d', a, b, sub, levenshtein(a, b, substitutionCost=sub),
            distance(a, b, sub))
    if a != b:
        ctx.hit(str(min(exp, 6)))


def s_find():
    from hypothesis import strategies as st
    name = st.one_of(st.text('ab', min_size=1, max_size=7),
                     st.text('abcde ', min_size=1, max_size=10),
                     st.text(min_size=1, max_size=5))
    from vlib.gens import weighted
    few = st.lists(name, min_size=1, max_size=7, unique=True)
    # Many names which resemble each other
    many = st.tuples(name, st.integers(8, 60), st.sampled_from(['', ' '])).map(
        lambda t: ['%s%s%d' % (t[0], t[2], i) for i in range(t[1])])
    return st.fixed_dictionaries({
        'names': weighted((12, few), (1, many)),
        'empty': st.sampled_from([0, 0, 1, 2, 6]),
        'texts': st.lists(st.one_of(
            name, st.tuples(st.integers(0, 6),
                            st.one_of(st.integers(0, 2**12), st.just(2**12 - 1)),
                            st.sampled_from(['', '', '', 'a', 'z', ' ']))
            .map(list)), min_size=1, max_size=6)})


def c_find(case, ctx):
    from klang.util import find_item
    names = case['names']
    dct = dict((name, object()) for name in names)
    for i, val in enumerate([0, '', (), None, False, 0.][:case.get('empty', 0)]):
        dct[names[i % len(names)]] = val
    for text in case['texts']:
        if isinstance(text, list):  # Leave out letters of a name
            i, mask, add = text
            base = names[i % len(names)]
            text = base[:1] + ''.join(c for j, c in enumerate(base[1:])
                                      if mask >> j & 1) + add
        try:
            got, msg = find_item(dct, text), None
        except ValueError as err:
            got, msg = Ellipsis, str(err)
        if text in dct:
            require(got is dct[text], 'name %r not found', text)
            continue
        fits = []
        for name in names:
            it = iter(name[1:])
            if name[0] == text[0] and all(c in it for c in text[1:]):
                fits.append(name)
        if len(fits) == 1:
            require(got is dct[fits[0]], '%r finds %s instead of %r in %s',
                    text, [n for n in names if dct[n] is got], fits[0], names)
            ctx.hit('one')
            continue
        require(msg is not None, '%r finds %s in %s, fits %s', text,
                [n for n in names if dct[n] is got], names, fits)
        if fits:
            require(all(repr(name) in msg for name in fits), '%r fits %s: %s',
                    text, fits, msg)
            ctx.hit('ambiguous')
        else:
            require(any(repr(name) in msg for name in names),
                    'no alternatives: %s', msg)
            ctx.hit('none')
        require(repr(text) in msg, 'message %s', msg)
    require(list(dct) == names, 'table changed')


TESTS = [
    Test('tables', s_table, c_table, quick=600, thorough=20000),
    Test('distance', s_edit, c_edit, quick=1000, thorough=30000),
    Test('lookup', s_find, c_find, quick=800, thorough=30000),
]
