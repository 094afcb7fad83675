"""Web scraping of chord and scale tables."""
from vlib.common import Test, Fail, require

META = {
    'title': 'Scraped chord and scale tables yield every entry with its pitches',
    'statement': (
        'Scraping a page finds the table by its caption (ValueError if there '
        'is none) and returns for each supported row one entry per synonym '
        'of its name, which is in lower case without references, comments '
        'and quotes, with alternative data numbered; unsupported rows are '
        'skipped. A chord rises from pitch class to pitch class by the '
        'smallest steps, and the degrees of a scale with their accidentals '
        'become its intervals, which span an octave. The entries printed as '
        'a table are read back unchanged.'),
    'over': ['inputs'],
    'quant': 'All pages with any number of tables and rows in the format of '
             'the scraped articles.',
    'why': 'No test covers the module, chords beyond two octaves and '
           'alternatives are rare in the real pages.',
    'files': ['klang/scraping.py', 'klang/util.py', 'klang/music/scales.py'],
    'mechanism': [
        {'name': 'get_them, find_table, iter_table_rows, extract_chords, '
                 'extract_scales, print_dict_2_csv',
         'where': 'klang/scraping.py'},
        {'name': 'prettify_name, spawn_jobs, pitch_classes_2_chord, '
                 'parse_degrees', 'where': 'klang/scraping.py'}],
    'observe': ['get_them() on generated pages', 'print_dict_2_csv()'],
    'oracle': 'the entries the page was generated from',
}
RULE = ('Cases are pages generated from known chords or scales (the download '
        'is replaced). Non-trivial: a chord beyond one octave, a row with '
        'synonyms or alternatives, or a skipped row.')
ASSUMPTIONS = [
    'Cells have the layout of the two Wikipedia articles the module is made '
    'for: pitch classes and degrees separated by single spaces, synonyms of '
    'a name by " / " or " or ", references and comments at the end.']

WORDS = ['minor', 'major', 'sus', 'nine', 'ornate', 'flamenco', 'or1', 'dim']


def s_page():
    from hypothesis import strategies as st
    from vlib.gens import weighted
    word = st.sampled_from(WORDS)
    name = st.fixed_dictionaries({
        'words': st.lists(word, min_size=1, max_size=3),
        'upper': st.sampled_from([0, 0, 1, 2]),
        'quote': st.booleans(),
        'end': st.sampled_from(['', '', '[1]', '[a 1]', ' (guitar)',
                                ' (x) [2]',
                                ' (natural, in C or so) [note 2]'])})
    row = st.fixed_dictionaries({
        'names': st.lists(name, min_size=1, max_size=3),
        'sep': st.sampled_from([' / ', ' or ']),
        'data': st.lists(st.lists(st.integers(0, 11), min_size=1,
                                  max_size=9), min_size=1, max_size=3),
        'dsep': st.sampled_from([' / ', ' or ', 'or']),
        'style': st.integers(0, 5),
        'skip': weighted((6, st.just(0)), (1, st.integers(1, 4)))})
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['chords', 'scales']),
        'tags': st.booleans(),
        'rows': st.lists(row, max_size=8),
        'decoys': st.tuples(st.integers(0, 3), st.integers(0, 3)),
        'missing': weighted((9, st.just(False)), (1, st.just(True)))})


NATURAL = {0: '1', 2: '2', 4: '3', 5: '4', 7: '5', 9: '6', 11: '7'}


def degree(pitch, style):
    """Write a pitch as degree of the major scale with accidentals."""
    if pitch == 11 and style == 3:
        return '\u266d1'
    if pitch in NATURAL:
        return ('\u266e' if style % 3 == 1 else '') + NATURAL[pitch]
    if style % 2 and pitch - 1 in NATURAL:
        return '\u266f' + NATURAL[pitch - 1]
    if style == 4 and pitch - 2 in NATURAL:
        return '\u266f\u266f' + NATURAL[pitch - 2]
    return '\u266d' + NATURAL[pitch + 1]


def entries(case):
    """Rows of cells and the entries expected from them."""
    cells, exp, skipped = [], {}, 0
    for row in case['rows']:
        shown, names = [], []
        for name in row['names']:
            text = ' '.join(name['words'])
            names.append(text)
            text = [text, text.title(), text.upper()][name['upper']]
            if name['quote']:
                text = '"%s"' % text
            shown.append(text)
        # References and comments at the end of the whole cell
        title = row['sep'].join(shown) + row['names'][-1]['end']
        datas, skip = row['data'], row['skip']
        if case['kind'] == 'chords':
            ten, eleven = [('t', 'e'), ('A', 'B'), ('10', '11')][
                row['style'] % 3]
            texts = [' '.join({10: ten, 11: eleven}.get(pc, str(pc))
                              for pc in data) for data in datas]
            text = row['dsep'].join(texts)
            if row['style'] == 5 and not skip:
                title, names = 'Power chordP5', ['power chord', 'p5']
            values = []
            for data in datas:
                value = []
                for pc in data:
                    while value and pc < value[-1]:
                        pc += 12
                    value.append(pc)
                values.append(value)
            if skip:
                text += ' x'
            cells.append([title, '', '', '3-11', text, 'Minor'])
        else:
            values, texts = [], []
            for data in datas:
                pitches = sorted(set(data) | {0})
                values.append([b - a for a, b in zip(
                    pitches, pitches[1:] + [12])])
                texts.append(' '.join(degree(p, row['style'])
                                      for p in pitches))
            text = '\n'.join(texts)
            if row['style'] == 5 and not skip:
                title, names = 'Chromatic scale', ['chromatic scale']
                text, values = '1 2 3', [[1] * 12]
            if skip == 1:
                title = 'Quarter tone scale'
            elif skip:
                text = ['\u2014', '1 2 etc.', '1 (2) 3'][skip - 2]
            cells.append([title, '', '', text, 'H-W', str(len(values[0])),
                          '', '', ''])
        if skip:
            skipped += 1
            continue
        for name in names:
            for i, value in enumerate(values):
                exp[name + (' %d' % i if i else '')] = value
    return cells, exp, skipped


def page(case, cells, caption):
    """HTML page."""
    from html import escape
    tables = []

    def markup(text, i):
        if i % 2 and not case.get('tags'):
            return '<a href="x">%s</a>' % escape(text)
        if case.get('tags'):
            # References and accidentals are elements of their own
            text = escape(text)
            for sign in '\u266d\u266f\u266e':
                text = text.replace(sign, '<span>%s</span>' % sign)
            return '<i>%s</i>' % text.replace('[', '<sup>[').replace(
                ']', ']</sup>')
        return escape(text)

    def table(caption, cells):
        head = ('<caption>\n%s\n</caption>' % escape(caption)
                if caption is not None else '')
        rows = ['<tr><th>Name</th><th>Image</th></tr>']
        for row in cells:
            rows.append('<tr>%s</tr>' % ''.join(
                '<td>%s\n</td>' % markup(cell, i)
                for i, cell in enumerate(row)))
        return '<table>%s<tbody>%s</tbody></table>' % (head, '\n'.join(rows))

    decoy = [['a', 'b'], ['0 1', '2']]
    for k in range(case['decoys'][0]):
        tables.append(table([caption + ' (old)', None, caption.lower()][k],
                            decoy))
    if not case['missing']:
        tables.append(table(caption, cells))
    for k in range(case['decoys'][1]):
        tables.append(table([None, 'Others', caption.upper()][k], decoy))
    return '<html><head><meta charset="utf-8"></head><body><h1>%s</h1>%s</body></html>' % (
        caption, '<p>Text</p>'.join(tables))


def c_page(case, ctx):
    import contextlib
    import io
    import requests
    from klang import scraping
    from klang.util import parse_music_data_from_csv
    cells, exp, skipped = entries(case)
    caption = 'List of musical ' + case['kind']
    html = page(case, cells, caption).encode('utf-8')
    url, asked = 'http://localhost/' + case['kind'], []

    class Page:
        content = html
        text = html.decode('utf-8')
        status_code = 200
        ok = True

    def get(address, *args, **kwargs):
        asked.append(address)
        return Page

    ctx.swap(requests, 'get', get)
    try:
        got = scraping.get_them(url, caption=caption, extractor_func=getattr(
            scraping, 'extract_' + case['kind']))
    except ValueError:
        require(case['missing'], 'refused %s', cells)
        return
    require(not case['missing'], 'found a missing table')
    require(asked == [url], 'downloads %s', asked)
    require(set(got) == set(exp), 'names %s of %s', sorted(set(got) ^ set(exp)),
            cells)
    for name, value in exp.items():
        require([int(v) for v in got[name]] == value, '%s is %s instead of '
                '%s', name, list(got[name]), value)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        scraping.print_dict_2_csv(got)
    back = parse_music_data_from_csv(out.getvalue())
    require(back == exp, 'printed as %r and read back as %s', out.getvalue(),
            back)
    require(list(back) == sorted(exp), 'printed in order %s', list(back))
    if any(v[-1] >= 24 for v in exp.values()):
        ctx.hit('octaves')
    if any(len(r['names']) > 1 or len(r['data']) > 1 for r in case['rows']):
        ctx.hit('several')
    if skipped:
        ctx.hit('skipped')


TESTS = [Test('page', s_page, c_page, quick=500, thorough=15000)]
