"""C14: a level table is loaded from NIST whole or not at all."""
import csv
import io
import math
import os
import re
from urllib.parse import urlsplit, parse_qs

from .common import *
from .crashsafe import *
from ..interrupt import forked
from ..net import Net, http

ID = 'C14'
QUICK, THOROUGH = 520, 30000
RULE = ('1-4 loads of seeded level tables in one process, each answered by a simulated server - in seeded pieces, over connections of which '
        'some fail - and a third of them saved under a disk fault, interruption, crash or power loss; non-trivial: a network fault '
        'happened, or the answer came in more than three pieces, or a fault hit the saving over an existing copy')
STATES = 'distinct (network fault, byte range, outcome), (disk fault, operation, outcome) and interruption sites'
REAL = [REAL_LIB, 'urllib, http.client, pandas, csv, the file system']
STUB = ['name lookup, TCP and TLS', 'the NIST server: synthetic tables in the format of its CSV output',
        'disk seam (LD_PRELOAD) and power-loss model for saving', 'interruptions: raised by a sys.monitoring callback']
ASSUMPTIONS = ['answers are framed by Content-Length or chunks, so that a cut is visible to HTTP', 'NIST lists levels in order of energy, '
               'and every field in its ="..." form', 'what the loader makes of leading percentages is compared with an undisturbed load only']
SPECIES = ['Yb II', 'Tm II', 'Ca I', 'H I', 'Na I']
SAVES = ['levels', 'levels.csv', 'sub/a.b', True, 'x']
HTML = b'<!DOCTYPE html>\n<html><head><title>NIST ASD : Error</title></head>\n<body>\n<p>Unrecognized token, "Zz"</p>\n</body></html>\n'
HEADER = ['Configuration', 'Term', 'J', 'Prefix', 'Level (cm-1)', 'Suffix', 'Uncertainty (cm-1)', 'Lande', 'Leading percentages', 'Reference']
# configuration, terms, leading percentages
ENTRIES = [
    ('4f14.6s', ['2S', '2P*', 'a 2D', '2F*'], ['100', '', '99']),
    ('4f13.(2F*<7/2>).6s2', ['2F*', 'b 2F*'], ['', '98']),
    ('4f13.(2F*<7/2>).5d.6s.(3D)', ['3[3/2]*', '3[11/2]*', ''], ['81                :    11  (2F*<5/2>).5d2.(1D)            1[7/2]*',
                                                               '35  3[5/2]*       :    30                                 (2F*<7/2>)(3F) 3[3/2]*', '']),
    ('4f13.(2F*<7/2>).6s<1/2>', ['(7/2,1/2)*', '(7/2,1/2)', '*'], ['36  (7/2,1)       :    25  (2F*<7/2>).5d.6p.(1P*<1>)', '60', '']),
    ('4f13.(2F*).5d2.(3P)', ['4D*', '2[5/2]'], ['54                :    19                                 (2F*<5/2>)(3F*<2>)', '70']),
    ('3s2.3p6.4s.4p', ['3P*', '1P*'], ['', '96                :     3  4s.5p   1P*']),
    ('2s.2p<3/2>', ['(1/2,3/2)*'], ['']),
]
JS = ['1/2', '3/2', '5/2', '7/2', '0', '1', '2', '11/2', '3/2 or 5/2', '3/2,5/2', '1,2,3', '0 or 1', '1 or 2 or 3']


def setup():
    points.install()


def table(rng):
    n = rng.choice([1, 2, 3, 5, 8, 15])
    rows, e = [], 0.0
    limit = rng.choice([None, n, n, n, rng.randint(0, n)])
    for i in range(n + 1):
        if i == limit:
            rows.append(['Yb III (4f14 1S0)', 'Limit', '---', '', f'{e + 5:.2f}', '', '', '', '', 'L9'])
        if i == n:
            break
        conf, terms, pcts = rng.choice(ENTRIES)
        lv = f'{e:.{rng.choice([0, 2, 3, 6])}f}' if rng.random() < .9 else ''
        rows.append([conf, rng.choice(terms), rng.choice(JS), rng.choice(['', '', '[', '(']), lv, rng.choice(['', '', ']', '?', '+x']),
                     rng.choice(['', '0.001']), rng.choice(['', f'{rng.uniform(-1, 3):.3f}', '1.2', '0.0']), rng.choice(pcts), f'L{rng.randint(1, 9)}'])
        if rng.random() < .9:
            e += 10 ** rng.uniform(-2, 4.5)
    if limit is None and rng.random() < .3:     # a second limit, above the first
        rows.append(['Yb III (4f13 2F7/2)', 'Limit', '---', '', f'{e + 5:.2f}', '', '', '', '', 'L9'])
        rows.append(['Yb III (4f13 2F5/2)', 'Limit', '---', '', f'{e + 9:.2f}', '', '', '', '', 'L9'])
    cols = list(HEADER)
    if rng.random() < .2:
        cols.remove('Lande')
    if rng.random() < .2:
        cols.remove('Leading percentages')
    if rng.random() < .2:
        cols = [c for c in cols if c not in ('Prefix', 'Suffix', 'Reference')]
    return {'rows': rows, 'cols': cols, 'end': rng.choice(['\n', '\n', '\r\n']), 'comma': rng.random() < .5, 'trailing': rng.random() < .5}


def conn(rng, good=False):
    s = {'framing': rng.choice(['length', 'chunked']), 'chunks': rng.choice([[1000], [8192], [1, 7, 50], [3]]),
         'sizes': rng.choice([[65536], [65536], [1], [1, 2, 3], [1448], [17, 400], [rng.randint(1, 300) for _ in range(4)]])}
    if good:
        return s
    k = rng.choice(['open', 'end', 'end', 'end', 'page', 'midway', 'extra', 'status', 'redirect'])
    s['kind'] = k
    if k == 'open':
        s['open'] = rng.choice(['refuse', 'unreachable', 'dns', 'timeout', 'tls', 'cert'])
    elif k == 'end':
        s['at'] = rng.choice([0.0, .9999, .9999, round(rng.random(), 4), round(rng.random(), 4), round(rng.random(), 4)])
        s['how'] = rng.choice(['reset', 'timeout', 'eof', 'eof'])
        if rng.random() < .5:
            s['line'], s['back'] = rng.randint(0, 8), rng.choice([0, 0, 1, 2, 3, 4, 5])
    elif k == 'page':
        s['page'] = rng.choice(['html', 'empty', 'text'])
    elif k in ('midway', 'extra'):
        s['line'], s['with'] = rng.randint(0, 8), rng.randint(0, 2)
    elif k == 'status':
        s['status'] = rng.choice(['500 Internal Server Error', '503 Service Unavailable', '404 Not Found', '403 Forbidden', '429 Too Many Requests'])
        s['page'] = rng.choice(['html', 'empty', 'table'])
    return s


def generate(rng, tier):
    ops = []
    tables = [table(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    names = rng.sample(SAVES, rng.choice([1, 1, 2]))
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        op = {'species': rng.choice(SPECIES), 'table': rng.choice(tables), 'ordered': rng.random() < .2, 'conns': []}
        if r < .55:
            op['conns'] = [conn(rng) for _ in range(rng.choice([1, 1, 2]))]
        if r > .5 or rng.random() < .3:
            op['conns'].append(conn(rng, good=True))
        if rng.random() < .6:
            op['save'] = rng.choice(names)
            op['abs'] = rng.random() < .2
            if rng.random() < .7:
                op['fault'] = trial_spec(rng)
        ops.append(op)
    return {'ops': ops}


def body(t):
    f = lambda x: '"=""' + x.replace('"', '') + '"""'
    i = [HEADER.index(c) for c in t['cols']]
    lines = [','.join(t['cols'])] + [','.join(f(r[k]) for k in i) + ',' * t['comma'] for r in t['rows']]
    return (t['end'].join(lines) + (t['end'] if t['trailing'] else '')).encode()


def model(t):
    """[(configuration, term or None when it depends on the percentages, J, energy in 1/cm, Lande or None)]"""
    out = []
    for conf, term, J, _, lv, _, _, lande, pct, _ in t['rows']:
        if term == 'Limit':
            break
        if lv == '':
            continue
        for j in re.split(r',| or', J):
            out.append((conf, re.sub('[a-z] ', '', term) if term not in ('', '*') else None, j.strip(), float(lv),
                        float(lande) if lande and 'Lande' in t['cols'] else None))
    return out


def script(s, data):
    k = s.get('kind')
    if k == 'open':
        return {'open': s['open']}
    page = {'html': HTML, 'empty': b'', 'text': b'The server is busy, please try again later\n', 'table': data}
    if k == 'page':
        a = http(page[s['page']], s['framing'], chunks=s['chunks'], kind='text/html' if s['page'] == 'html' else 'text/plain')
    elif k == 'status':
        a = http(page[s['page']], s['framing'], s['status'], chunks=s['chunks'], kind='text/html')
    elif k in ('midway', 'extra'):
        lines = data.splitlines(keepends=True)
        if k == 'midway':       # the server's own connection to its database breaks, it says so where the next line would be
            j = min(s['line'], len(lines) - 1)
            lines[j:] = [[b'<p>Error: connection to the database lost</p>\n'], [b'Error\n', b'</body></html>\n'], [b'\n', b'Timeout\n']][s['with']]
        else:                   # a line that is not one of a table
            j = min(2 + s['line'], len(lines))
            lines.insert(j, b','.join([b'"x"'] * (13 + s['with'])) + b'\n')
        a = http(b''.join(lines), s['framing'], chunks=s['chunks'])
    elif k == 'redirect':
        a = http(b'', 'length', '302 Found', ['Location: https://physics.nist.gov/cgi-bin/ASD/moved?spectrum=x'])
    else:
        a = http(data, s['framing'], chunks=s['chunks'])
    out = {'answer': a, 'sizes': s['sizes']}
    if k == 'end':
        k = int(s['at'] * len(a))
        if 'line' in s:     # at the end of a line of the table
            line = data.splitlines(keepends=True)[min(s['line'], data.count(b'\n') - 1)]
            j = a.rfind(line)
            k = j + len(line) - s['back'] if j >= 0 else k
        out['end'] = [min(k, len(a) - 1), s['how']]
    return out


def plain(x):
    try:
        return repr(float(x))
    except (TypeError, ValueError):
        return str(x)


def frame(df):
    """a table as plain data"""
    out = {'index': [int(i) for i in df.index], 'columns': [str(c) for c in df.columns]}
    for c in out['columns']:
        col = list(df[c])
        out[c] = [None if x is None or (isinstance(x, float) and math.isnan(x)) else plain(x) if c.startswith(('Percentage', 'Lande')) else str(x) for x in col]
    out['E'] = [float(x.to('1/cm').magnitude) for x in df['Level (cm-1)']]
    out['Hz'] = [float(x.to('Hz').magnitude) for x in df['Level (Hz)']]
    return out


def compare(got, t, where):
    want = model(t)
    n = len(want)
    if got['index'] != list(range(n)):
        raise Violation('rows', f'{where}: {len(got["index"])} rows ({got["index"][:30]}), expected {n}')
    for i, (conf, term, J, E, lande) in enumerate(want):
        row = [got['Configuration'][i], got['Term'][i], str(got['J'][i]).strip(), got['E'][i], got['Lande'][i]]
        ok = (row[0] == conf and (term is None or row[1] == term) and row[2] == J and abs(row[3] - E) <= 1e-9 * max(1, E)
              and abs(got['Hz'][i] - E * 29979245800.0) <= 1e-9 * max(1.0, E * 29979245800.0)
              and (row[4] is None) == (lande is None) and (lande is None or abs(float(row[4]) - lande) < 1e-9))
        if not ok:
            raise Violation('row', f'{where}: row {i} is {row} ({got["Hz"][i]} Hz), expected {[conf, term, J, E, lande]}')


def tree(root):
    return {os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs}


def execute(case, ctx):
    from atomtoolkit.IO import load_NIST_data
    root = os.path.join(ctx.scratch, 'data')
    ref = os.path.join(ctx.scratch, 'ref')
    log = os.path.join(ctx.scratch, 'log')
    os.makedirs(os.path.join(root, 'sub'))
    os.makedirs(ref)
    os.chdir(root)
    files = {}

    def load(scripts, op, save):
        with Net(scripts) as net:
            try:
                return 'ok', load_NIST_data(op['species'], op['ordered'], save), net
            except Exception as e:
                return 'exc', e, net

    def undisturbed(data, op):
        """(table, bytes of its saved copy) of a load without any fault"""
        r, df, net = load([{'answer': http(data)}], op, os.path.join(ref, 'ref.csv'))
        if r == 'exc':
            raise df
        q = parse_qs(urlsplit(net.requests[0].sent.split(b' ')[1].decode()).query)
        if q.get('spectrum') != [op['species']]:
            raise Violation('request', f'asked for {q.get("spectrum")} instead of {op["species"]!r}')
        with open(os.path.join(ref, 'ref.csv'), 'rb') as f:
            return frame(df), f.read()

    for i, op in enumerate(case['ops']):
        t = op['table']
        if not model(t) or not op['conns']:
            continue
        data = body(t)
        where = f'load {i} ({op["species"]}, {len(t["rows"])} rows)'
        good, saved = forked(undisturbed, data, op)
        compare(good, t, where + ' undisturbed')
        rows = list(csv.DictReader(io.StringIO(saved.decode('utf-8'), newline='')))
        if [(r['Configuration'], r['J'].strip()) for r in rows] != [(m[0], m[2]) for m in model(t)]:
            raise Violation('saved-rows', f'{where}: the saved copy has {len(rows)} rows, expected {len(model(t))}')
        save = op.get('save', False)
        path = None
        if save:
            path = f'{op["species"]}_level_data.csv' if save is True else save if save.endswith('.csv') else save + '.csv'
            if save is not True and op['abs']:
                save = os.path.join(root, save)
            path = os.path.join(root, path)
        scripts = [script(s, data) for s in op['conns']]
        before = tree(root)
        box = {}

        def call():
            r, x, net = load(scripts, op, save)
            box['r'], box['net'] = (r, x), net
            if r == 'exc':
                raise x
        f = op.get('fault') if save else None
        failing = any(s.get('kind') for s in op['conns'])
        if f and not failing:
            st, e = attempt(call, f, root, ctx, log)
            if f['kind'] == 'plain' and st != 'ok':
                raise Violation('load-failed', f'{where}: nothing went wrong, but {e!r}')
            what = f'{where} saved with {f}'
        else:
            try:
                call()
                st, e = 'ok', None
            except Exception as x:
                st, e = 'failed', x
            what = f'{where} over {[{k: v for k, v in s.items() if k in ("kind", "open", "at", "how", "page", "status")} for s in op["conns"]]}'
            for k, n in box['net'].fired.items():
                ctx.fault('network: ' + k, n)
            for s in op['conns'][:max(1, box['net'].connections)]:
                if s.get('kind') in ('page', 'midway', 'extra', 'status', 'redirect'):
                    ctx.fault('network: ' + s['kind'] + ' ' + s.get('page', ''))
            ctx.nontrivial |= failing or box['net'].pieces > 3
            if st == 'failed' and not failing:
                raise Violation('load-failed', f'{where}: the network delivered everything (in {box["net"].pieces} pieces), but {e!r}')
            for s in op['conns']:
                ctx.state(s.get('kind'), s.get('open'), int(s.get('at', 0) * 12), s.get('how'), s.get('status'), s.get('page'), st)
        ctx.log(i, st, type(e).__name__)
        if st == 'ok' and 'r' in box and box['r'][0] == 'ok':
            got = frame(box['r'][1])
            compare(got, t, what)
            if got != good:
                bad = [c for c in good if got.get(c) != good[c]]
                raise Violation('differs', f'{what}: column {bad[0]} differs from that of an undisturbed load: {got.get(bad[0])} {good[bad[0]]}')
        if not (f and not failing) or f['kind'] == 'plain':
            new = tree(root) - before - {path}
            if new:
                raise Violation('other-file', f'{what} left {sorted(os.path.basename(x) for x in new)} behind')
        for p, b in list(files.items()) + ([(path, None)] if path and path not in files else []):
            now = None
            if os.path.exists(p):
                with open(p, 'rb') as h:
                    now = h.read()
            if p == path:
                ctx.nontrivial |= b is not None and st != 'ok'
                if st == 'ok' and now != saved:
                    raise Violation('not-saved', f'{what}: the saved copy is {"missing" if now is None else f"not the table ({len(now)} bytes instead of {len(saved)})"}')
                if st != 'ok' and now != b and now != saved:
                    raise Violation('copy-destroyed', f'{what} ({st}, {e!r:.200}): the saved copy is {"gone" if now is None else f"neither the old nor the new one ({len(now)} bytes)"}')
                if failing and st != 'ok' and now != b:
                    raise Violation('copy-destroyed', f'{what}: the load failed, but the saved copy changed')
                if now is not None:
                    files[p] = now
            elif now != b:
                raise Violation('other-file', f'{what} changed {os.path.basename(p)}')
    return None
