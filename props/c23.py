import math
import re
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub, require
from vlib import gens

RULE = ('tables of 1 to 40 rows and 1 to 6 (sometimes 12) columns, with ties, constant columns, missing values (never a whole column), rows as tuples, lists or an array, '
        'number formats f, e and g of widths that hold the values, and unsorted data. Non-trivial: at least two columns and three rows.')
ASSUMPTIONS = ['columns without any value, and numbers wider than their column, are not claimed']


@st.composite
def tables(draw):
    nvar, n = draw(gens.ints(1, 6)), draw(st.one_of(gens.ints(1, 6), gens.ints(1, 40)))
    if n > 38:
        n = draw(gens.ints(40, 250))      # as many as in real projects
        nvar = min(nvar, 3)
    if n < 8 and draw(gens.ints(0, 4)) == 4:
        nvar = draw(gens.ints(7, 12))
    cols, fmts = [], []
    for j in range(nvar):
        kind = draw(gens.pick('coordinate', 'level', 'wide', 'ties', 'constant', 'ints', 'negative'))
        v = {'coordinate': gens.q(322000.0, 324000.0, 0.25), 'level': gens.sq(400, 0.01), 'wide': gens.slog(1e-4, 1e6), 'ties': gens.pick(1.0, 2.0, 2.5),
             'constant': st.just(draw(gens.sq(1000, 0.5))), 'ints': gens.ints(-50, 50), 'negative': gens.q(-500.0, -1.0, 0.01)}[kind]
        col = [draw(v) for _ in range(n)]
        if n > 1 and draw(gens.ints(0, 3)) == 0:
            keep = draw(gens.ints(0, n - 1))
            col = [c if i == keep or draw(gens.ints(0, 2)) else None for i, c in enumerate(col)]
        cols.append(col)
        fmts.append(draw(gens.pick('12.2f', '14.4f', '16.6f', '14.4e', '15.6e', '14.5g', '+14.3f', '18,.3f', '20.8f')))
    names = [draw(gens.pick('Easting', 'Northing', 'Head', 'Stdev', 'X', 'Q3', 'cnt', 'base')) for _ in range(nvar)]
    return dict(cols=cols, fmts=fmts, names=names, title=draw(gens.pick('Retained Observations', 'T', '', 'A TITLE WIDER THAN THE WHOLE TABLE BELOW IT, WITH A COMMA')),
                form=draw(gens.pick('tuples', 'lists', 'array')))


def words(line):
    return [(m.group(), m.end()) for m in re.finditer(r'\S+', line)]


def table(case, rec):
    from oneka.utilities import summary_statistics
    cols, fmts, names = case['cols'], case['fmts'], case['names']
    nvar, n = len(cols), len(cols[0])
    rec.hit(nvar > 1 and n > 2)
    rec.label('missing values' if any(v is None for c in cols for v in c) else 'complete', case['form'])
    nan = float('nan')
    rows = [tuple(nan if c[i] is None else c[i] for c in cols) for i in range(n)]
    values = dict(tuples=rows, lists=[list(r) for r in rows], array=np.array(rows, dtype=float))[case['form']]
    fm, nm = list(fmts), list(names)
    text = summary_statistics(values, nm, fm, case['title']).getvalue()
    require(fm == fmts and nm == names, 'the caller\'s lists were modified')
    lines = text.split('\n')
    require(any(case['title'] in t for t in lines), 'the title is missing')
    ends = None
    for t in lines:
        w = words(t)
        if [a for a, _ in w] == names and ends is None:
            ends = [b for _, b in w]
    require(ends is not None, 'no line with the names {} in order:\n{}', names, text)
    found = {}
    for t in lines:
        for key in ('cnt:', 'min:', 'med:', 'max:', 'avg:', 'std:'):
            if t.startswith(key):
                require(key not in found, 'two lines for {}', key)
                found[key] = words(t[:4].replace(key, '    ') + t[4:])
    for key in ('cnt:', 'min:', 'med:', 'max:', 'avg:', 'std:'):
        require(key in found, 'no line for {}', key)
        require(len(found[key]) == nvar, '{} entries for {} variables in line {}', len(found[key]), nvar, key)
        require([b for _, b in found[key]] == ends, 'the entries of line {} do not stand under their names:\n{}', key, text)
    for j, col in enumerate(cols):
        x = sorted(Fraction(float(v)) for v in col if v is not None)
        m = len(x)
        mean = sum(x) / m
        var = sum((v - mean)**2 for v in x) / m
        med = x[m // 2] if m % 2 else (x[m // 2 - 1] + x[m // 2]) / 2
        size = float(max(abs(x[0]), abs(x[-1])))
        want = {'min:': x[0], 'med:': med, 'max:': x[-1], 'avg:': mean, 'std:': math.sqrt(var)}
        require(found['cnt:'][j][0] == str(m), 'column {} has {} values, the count is {}', j, m, found['cnt:'][j][0])
        for key, v in want.items():
            got = found[key][j][0]
            v = float(v)
            g = float(got.replace(',', ''))
            require(format(g, fmts[j]).strip() == got, 'column {}, {} {} is not in format {}', j, key, got, fmts[j])
            if fmts[j][-1] == 'f':
                half = 0.5 * 10.0**-int(fmts[j].split('.')[1][:-1])
            else:
                half = 5.0 * 10.0**-int(fmts[j].split('.')[1][:-1]) * abs(v) + 1e-300
            require(abs(g - v) <= 1.001 * half + 1e-13 * size * (1 if key != 'std:' else 100), 'column {}, {} is given as {}, it is {}', j, key, got, v)


SUBS = [Sub('table', tables(), table, 24000, 192000, 'exact statistics with rational numbers')]
