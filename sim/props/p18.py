"""P18: a markdown file converted to a notebook keeps every line or the conversion fails."""
import io
import json
import os
import re
import sys

from .. import common
from ..common import pick

RUNS = {'quick': 12000, 'thorough': 200000}
CAP = {'quick': 60, 'thorough': 600}
REAL = 'metaknowledge.bin.metaknowledgeMdToNb with argparse'
STUB = 'disk (real bytes, simulated calls, failures, short and torn reads and writes), console'
STATE_MEASURE = '(sorts of lines, ending of the file, kind of fault and the call it struck, how the conversion ended)'

LINES = ['', '', '', '# Heading', 'Some text', 'some more "quoted" text', 'a \\ backslash \\n and \\"', 'C:\\new\\table', 'tab\there', 'bell \x07 and \x1b', '{0} {} {{x}}',
         'ü 日本語 \U0001d4b3', 'one\u2028two\x85three', 'form\x0cfeed\x0bend', '* list', '  indented', '   ', '\\', '"', 'a [1] in the middle', ' [1]not code', '[x] no code', '[1 not code',
         '","', '\\u0041', '</script>', 'x' * 300, 'ends with space ', '\ufeffmark', "it's", '[-1]', '[1', '1]',
         '[1]import metaknowledge as mk', '[1]x = "a\\n"', '[1]', '[1]    return {"a": [1]}', '[2]y = x[1]', '[2]', '[12]print(\'\\t\')', '[]bare', '[](link)', '[3] spaced', '[1]#ü', '[1]"""doc"""', '[2]\\', '[01]z', '[1]a\u2028b\x85c', '[2]form\x0cfeed\x1c', '[1]x\ty \x0b', '[1] ', '[2]"{}".format(1)  ']
NAMES = ['a.md', 'b.md', 'sub/c.md', 'noext', 'ü x.md', 'x.y.md', 'd.txt', '.hidden', '~tilde.md', '-dash/e.md', 'sub/../f.md', 'CAPS.MD', 'g.ipynb.md']
OPS = ['open_w', 'write', 'close_w', 'open_w|write|close_w', 'open_r', 'read', 'read']


def gen(rng, i, tier):
    k = rng.choice([1, 1, 1, 2, 3, 4])
    names = rng.sample(range(len(NAMES)), k)
    files = []
    for n in names:
        pool = rng.sample(range(len(LINES)), rng.choice([2, 4, 8])) if rng.random() < .5 else range(len(LINES))
        files.append({'name': n, 'lines': [pick(rng, pool) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20, 20, 60]))], 'eol': pick(rng, ['\n', '\n', '\n', '\r\n', '\r']), 'last': rng.random() < .6,
                      'bad': rng.randrange(1000) if rng.random() < .05 else None})
    if rng.random() < .01:
        files[0]['lines'] = files[0]['lines'] * rng.choice([30, 300])
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        st = {'files': rng.sample(range(k), rng.randrange(1, k + 1)), 'abs': rng.random() < .3, 'self': rng.random() < .06, 'missing': rng.random() < .05, 'hit': None, 'add': None}
        if rng.random() < .4:
            st['hit'] = {'op': pick(rng, OPS), 'n': int(rng.random() ** 2 * pick(rng, [2, 6, 30])), 'kind': pick(rng, ['EIO', 'ENOSPC', 'EACCES', 'kbd']), 'sticky': rng.random() < .3}
        if rng.random() < .4:
            st['add'] = [rng.randrange(k), rng.randrange(len(LINES))]
        steps.append(st)
    return {'files': files, 'steps': steps, 'world': common.world_conf(rng, step_budget=400000)}


def render(f):
    """The bytes of a file."""
    eol = f['eol'] if f.get('eol') in ('\n', '\r\n', '\r') else '\n'
    ls = [LINES[n % len(LINES)] for n in f['lines']]
    t = eol.join(ls) + (eol if ls and f.get('last') else '')
    b = t.encode('utf-8')
    if f.get('bad') is not None:
        at = f['bad'] * len(b) // 1000
        b = b[:at] + b'\xff' + b[at:]
    return b


def cells(data):
    """What the notebook of a file has to hold: [kind, text] without the empty lines around a cell. None if the file is not text."""
    try:
        t = data.decode('utf-8')
    except UnicodeDecodeError:
        return None
    t = t.replace('\r\n', '\n').replace('\r', '\n')
    ls = t.split('\n')
    if ls[-1] == '':
        ls.pop()
    out, last = [], None
    blank = 0
    for l in ls:
        m = re.match(r'\[(\d*)\](.*)', l, re.S | re.A)
        if m:
            if last != ('code', m.group(1)):
                out.append(['code', []])
            last = ('code', m.group(1))
            out[-1][1].append(m.group(2))
            blank = 0
        else:
            if last != 'md' or blank > 1 and l:
                out.append(['markdown', []])
            last = 'md'
            out[-1][1].append(l)
            blank = 0 if l else blank + 1
    out = [[k, '\n'.join(v).strip('\n')] for k, v in out]
    return [c for c in out if c[1]]


def notebook(data):
    """The cells of a notebook file."""
    nb = json.loads(data.decode('utf-8'))
    if nb.get('nbformat') != 4 or nb['metadata']['kernelspec']['language'] != 'python':
        raise ValueError('not a python notebook of format 4')
    out = []
    for c in nb['cells']:
        if not isinstance(c['source'], list) or not isinstance(c['metadata'], dict) or any(not isinstance(s, str) for s in c['source']):
            raise ValueError('a cell {}'.format(sorted(c)))
        if c['cell_type'] == 'code' and (c['outputs'] != [] or c['execution_count'] is not None):
            raise ValueError('a code cell that was executed')
        out.append([c['cell_type'], ''.join(c['source']).strip('\n')])
    return [c for c in out if c[1]]


def target(name):
    return os.path.splitext(os.path.normpath(name))[0] + '.ipynb'


def run(ctx, sc):
    import metaknowledge.bin.metaknowledgeMdToNb as tool
    w = ctx.world(sc.get('world') or {}, tty=None)
    home = os.path.join(ctx.root, 'd')
    for d in ('sub', '-dash'):
        os.makedirs(os.path.join(home, d), exist_ok=True)
    have, specs = {}, []
    for f in sc.get('files') or []:
        name = NAMES[f['name'] % len(NAMES)]
        if name in have:
            continue
        specs.append((name, f))
        have[name] = render(f)
        common.put_file(w, 'd/' + os.path.normpath(name), have[name])
    if not specs:
        return
    done = {}       # notebooks: what they have to hold, or their bytes
    with w:
        os.chdir(home)
        for n, st in enumerate(sc.get('steps') or []):
            if st.get('add'):
                name, f = specs[st['add'][0] % len(specs)]
                f['lines'] = f['lines'] + [st['add'][1] % len(LINES)]
                have[name] = render(f)
                common.put_file(w, 'd/' + os.path.normpath(name), have[name])
            todo = list(dict.fromkeys(specs[k % len(specs)][0] for k in st.get('files') or [0]))
            args = [os.path.join(home, t) if st.get('abs') else t if not t.startswith('-') else './' + t for t in todo]
            own = None
            if st.get('self'):
                own = sorted(done)
                if own:
                    # a notebook among the files to be made into notebooks
                    own = own[0]
                    args.append(os.path.join(home, own))
            if st.get('missing'):
                args.append('missing.md')
            before = listing(home)
            h = st.get('hit')
            w.faults = [{'op': h['op'], 'path': 'd/*', 'n': h['n'], 'kind': h['kind'], 'sticky': bool(h.get('sticky'))}] if h else []
            k0 = len(w.fired_list)
            old = sys.argv
            sys.argv = ['mdtonb'] + args
            try:
                tool.mkMdToNb()
                end = None
            except (Exception, KeyboardInterrupt, SystemExit) as e:     # noqa
                end = e
            finally:
                sys.argv = old
                w.faults = []
            fired = w.fired_list[k0:]
            after = listing(home)
            what = 'step {}: {}'.format(n, args)
            ctx.state(sorted({'md' if not LINES[x % len(LINES)].startswith('[') else 'code' for nm in todo for x in dict(specs)[nm]['lines']}), [dict(specs)[nm].get('last') for nm in todo],
                      h and h['kind'], fired[0]['op'] if fired else None, type(end).__name__)
            # nothing but the notebooks asked for
            may = {target(t) for t in todo}
            for p in sorted(set(before) | set(after)):
                if p not in may:
                    ctx.check(before.get(p) == after.get(p), 'other-file', lambda: '{}: {} was {}'.format(what, p, 'made' if p not in before else 'removed' if p not in after else 'altered'))
            if fired:
                ctx.active = True
                ctx.note('conversions struck by a fault')
                ctx.check(end is not None and not (isinstance(end, SystemExit) and not end.code), 'error-swallowed',
                          lambda: '{}: {} of {} failed ({}) but the conversion says nothing'.format(what, fired[0]['op'], fired[0]['rel'], h['kind']))
                if h['kind'] == 'kbd':
                    ctx.check(isinstance(end, KeyboardInterrupt), 'error-swallowed', lambda: '{}: Ctrl-C came out as {!r}'.format(what, end))
            want = {t: cells(have[t]) for t in todo}
            text = all(v is not None for v in want.values())
            if end is not None and not fired:
                ctx.check(not text or st.get('missing') or own, 'raised', lambda: '{}: raised {!r}'.format(what, end))
            if end is None:
                ctx.check(text and not st.get('missing') and not own, 'accepted', lambda: '{}: nothing was said'.format(what))
            for t in todo:
                p = target(t)
                if end is None:
                    ctx.check(p in after, 'no-notebook', lambda: '{}: there is no {}'.format(what, p))
                    try:
                        got = notebook(after[p])
                    except (ValueError, KeyError, TypeError) as e:
                        ctx.fail('not-a-notebook', '{}: {} is no notebook: {!r}'.format(what, p, e))
                    d = common.diff(got, want[t])
                    ctx.check(d is None, 'cells', lambda: '{}: cells of {}: {} (right: the file)'.format(what, p, d))
                    ctx.note('notebooks compared')
                    done[p] = True
                elif p in after and want[t] is None:
                    ctx.check(before.get(p) == after[p], 'lost-notebook', lambda: '{}: {} could not be read but its notebook was altered'.format(what, t))
            if fired and h['kind'] != 'kbd' and all(f['op'] in ('open_r', 'read') for f in fired):
                # a file that cannot be read takes no notebook away
                hit = {os.path.normpath(f['rel'])[2:] for f in fired}
                for t in todo:
                    p = target(t)
                    if os.path.normpath(t) in hit:
                        ctx.check(before.get(p) == after.get(p), 'lost-notebook', lambda: '{}: {} could not be read but its notebook was altered'.format(what, t))


def listing(home):
    out = {}
    for d, _, fs in os.walk(home):
        for f in fs:
            p = os.path.join(d, f)
            with io.FileIO(p) as fh:
                out[os.path.relpath(p, home)] = fh.readall()
    return out
