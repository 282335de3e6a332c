"""P14: a command line session ends cleanly and writes exactly what was asked."""
import csv
import io
import os
import shutil
import sys
import types

from .. import common, corpus, mini, queries
from ..common import pick
from ..sched import Scheduler
from ..seams import HarnessError, Terminal, Budget
from .p12 import Process
from . import p13

RUNS = {'quick': 11500, 'thorough': 100000}
CAP = {'quick': 100, 'thorough': 800}
ROOT = 'slot'
REAL = 'metaknowledge.bin.metaknowledgeCLI with argparse and the console, loading, writing, networks, filters, journal database, gender data'
STUB = 'the drawing of a graph (records what it is given), the user (a list of answers, Ctrl-C and end of input at any prompt), terminal, disk (real bytes, simulated calls and failures), network (down or the gender archive)'
STATE_MEASURE = '(sequence of questions with their kind of answer, arguments, kind of fault and the call it struck, how it ended)'

MAXIMA = 'maxima'
KNOWN = {MAXIMA: ({'kind': 'mini', 'world': {}, 'specs': [{'k': k, 'au': [0, 1] if k else [0, 1, 2], 'kw': [], 'wc': [], 'cr': [], 'py': 1, 'j': 0, 'bp': k, 'f': 0} for k in range(3)], 'args': {'files': [0]}, 'maxima': 1,
                   'picks': [['w', 0], ['n', 5], ['t', 4], ['num', 1], ['t', 0], ['o', 1], ['name', 0]]}, 'files')}

NETS = ['1', '2', '3', '4', '5', '6']
BADMENU = ['', 'x', '99', ' 1', 'Q', '-1', '1.0', 'I', '１x']
NAMES = ['out', 'out', 'out2', 'old', 'old', '', 'nodir/out', 'ü', 'a b', 'out.csv', './out', 'lib/../out3', 'olddir']
NUMS = ['0', '1', '2', '3', '1.5', '-1', '1e3', 'inf', 'nan', ' 2 ']
BADNUM = ['', 'ten', '1,5', '0x1', '--1']
TAGS = ['AU', 'AF', 'PY', 'DE', 'ID', 'WC', 'TI', 'SO', 'J9', 'CR', 'UT', 'au', 'de', 'Au']
BADTAG = ['NOT A TAG', 'X', 'AU ', 'authors']
OLD = ['old.csv', 'old.txt', 'old.graphml', 'old_edgeList.csv', 'old_nodeAttributes.csv', 'out2.csv', 'out2_nodeAttributes.csv', 'olddir.csv', 'n.csv', 'n_edgeList.csv']


def gen(rng, i, tier):
    kind = pick(rng, ['mini', 'mini', 'mini', 'corpus'])
    sc = {'kind': kind, 'world': common.world_conf(rng, step_budget=300000)}
    if kind == 'mini':
        sc['specs'] = mini.specs(rng, 1, 5)
    else:
        sc['files'] = [common.file_spec(rng, corpus.RECORD_FMTS, j, kmax=20, nmax=3) for j in range(rng.choice([1, 1, 2, 3]))]
    sc['args'] = {'files': [rng.randrange(6) for _ in range(rng.choice([0, 0, 1, 1, 1, 2]))], 'n': pick(rng, [None, None, None, None, 'n', 'new']), 'd': rng.random() < .15, 'q': rng.random() < .75, 's': pick(rng, ['', '', '', '.isi', '.zzz'])}
    picks = []
    if rng.random() < .75:
        # a session that gets somewhere
        w = rng.randrange(7)
        picks.append(['w', w])
        if w in (1, 2, 3, 4, 5):
            picks += [['name', rng.randrange(len(NAMES))], ['y', rng.randrange(6)]] if rng.random() < .5 else [['name', rng.randrange(len(NAMES))]]
        if w in (0, 2, 4):
            n = rng.randrange(6)
            picks.append(['n', n])
            picks += [['tag', rng.randrange(100)] for _ in range([1, 2, rng.choice([1, 2, 3, 4]), 0, 0, 0][n])]
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                t = rng.randrange(1, 7)
                picks.append(['t', t])
                if t > 2:
                    picks.append(['num', rng.randrange(len(NUMS))])
            picks += [['t', 0], ['o', rng.randrange(5)], ['o', rng.randrange(4)], ['name', rng.randrange(len(NAMES))]]
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        picks.insert(rng.randrange(len(picks) + 1), [pick(rng, ['bad', 'bad', 'q', 'i', 'i', 'any']), rng.randrange(100)])
    picks += [['any', rng.randrange(100)] for _ in range(rng.choice([0, 3, 10, 25]))]
    sc['picks'] = picks
    x = rng.random()
    sc['end'] = [rng.randrange(14), pick(rng, ['eof', 'kbd', 'kbd'])] if x < .2 else None
    sc['fault'] = {'op': pick(rng, ['open_w', 'write', 'close_w', 'open_w|write|close_w']), 'path': 'd/*', 'n': int(rng.random() ** 2 * pick(rng, [3, 30])),
                   'kind': pick(rng, ['EIO', 'ENOSPC', 'EACCES', 'kbd']), 'sticky': rng.random() < .3} if .2 <= x < .45 else None
    sc['names'] = pick(rng, ['there', 'there', 'net', 'down'])
    sc['journals'] = [rng.randrange(8) for _ in range(rng.choice([0, 1, 2, 3]))]
    sc['switches'] = [[1 + int(rng.random() * 100), rng.randrange(4)] for _ in range(rng.choice([0, 5, 20]))]
    return sc


class Stop(Exception):
    def __init__(self, how):
        self.how = how


class Console(Exception):
    pass


EOF = object()
KBD = object()


class User:
    """Answers a dialogue from the picks and follows what the session has to do."""

    def __init__(self, ctx, mk, w, sc, argv_paths, paths, ref):
        self.ctx, self.mk, self.w, self.sc = ctx, mk, w, sc
        self.args = {'n': None, 'd': False, 'q': True, 's': ''}
        self.args.update({k: v for k, v in (sc.get('args') or {}).items() if k in self.args})
        self.files, self.paths, self.ref = argv_paths, paths, ref
        e = sc.get('end')
        self.end = e if isinstance(e, list) and len(e) == 2 else None
        self.picks = [p for p in sc.get('picks', []) if isinstance(p, list) and len(p) == 2]
        self.answers, self.asked, self.kinds = [], 0, []
        self.want = {}            # what the files hold afterwards; None: anything
        self.db = None            # (database, the journals to answer for, yes)
        self.n_db = None
        self.existing = set()
        self.steps = 0
        self.views = []

    # -- one question
    def ask(self, kind, good, bad, extra=False):
        """good, bad: lists of answers"""
        self.steps += 1
        if self.end and self.asked == self.end[0]:
            self.answers.append(KBD if self.end[1] == 'kbd' else EOF)
            raise Stop(self.end[1] if self.end[1] == 'kbd' else 'eof')
        self.asked += 1
        if not self.picks:
            self.answers.append(EOF)
            raise Stop('eof')
        p, n = self.picks.pop(0)
        n = n if isinstance(n, int) else 0
        if p == 'bad' and bad:
            a = bad[n % len(bad)]
        elif p == 'q' and extra:
            a = 'q'
        elif p == 'i' and extra:
            a = 'i'
        elif p == 'any' and n % 5 == 4 and bad:
            a = bad[n % len(bad)]
        else:
            a = good[n % len(good)]
        self.answers.append(a)
        self.kinds.append((kind, a if len(a) < 3 else 'bad' if a in bad else 'text'))
        return a

    def menu(self, kind, keys):
        while True:
            a = self.ask(kind, keys, BADMENU, True)
            if a in keys:
                return a
            if a == 'q':
                raise Stop('quit')
            if a == 'i':
                self.answers += ['x = 1 + 1', EOF]

    def yes(self, kind):
        while True:
            a = self.ask(kind, ['y', 'n', 'Y', '', 'N', 'y'], ['maybe', '0', 'yes'])
            if a.upper() in ('Y', ''):
                return True
            if a.upper() == 'N':
                return False

    def exists(self, p):
        return os.path.normpath(p) in self.existing or os.path.isdir(p)

    def name(self, suffix, checking=True):
        if self.args['n']:
            return self.args['n'] + suffix
        while True:
            s = self.ask('name', NAMES, []) + suffix
            if not s:
                checking = True
                continue
            if checking and self.exists(s):
                if self.yes('overwrite'):
                    return s
                checking = True
                continue
            return s

    def tag(self, C, stop=False):
        while True:
            t = self.ask('tag', TAGS + (['', ''] if stop else []), BADTAG + ([] if stop else [''])).upper()
            if t in C.tags():
                return t
            if stop and t == '':
                return None

    def number(self):
        while True:
            a = self.ask('num', NUMS, BADNUM)
            try:
                return float(a)
            except ValueError:
                pass

    # -- the parts of a session
    def load(self):
        files = self.files
        while not files:
            one = self.ask('files', [' '.join(self.paths[:1]), ' '.join(self.paths), self.paths[-1], self.paths[0]], ['nowhere', 'nowhere ' + self.paths[0], 'nowhere nix'])
            files = one.split(' ')
            if any(not os.path.exists(f) for f in files):
                files = []
        C = self.mk.RecordCollection(name='')
        for f in files:
            if not os.path.exists(os.path.abspath(f)):
                raise Stop('error')
            try:
                C |= self.mk.RecordCollection(os.path.abspath(f), extension=self.args['s'])
            except Exception:
                raise Stop('error')
        return C

    def lib(self, name, fn, targets=None):
        """The library writes the file: fn is given the path to write to."""
        targets = targets or [name]
        for t in targets:
            self.want[os.path.normpath(t)] = None
        tmp = os.path.join(self.ref, 'r')
        os.makedirs(tmp, exist_ok=True)
        for f in os.listdir(tmp):
            os.remove(os.path.join(tmp, f))
        d = os.path.dirname(name)
        if d and not os.path.isdir(d) or any(os.path.isdir(t) for t in targets):
            # the library itself cannot write there
            for t in targets:
                if not os.path.isdir(os.path.dirname(t) or '.') or os.path.isdir(t):
                    del self.want[os.path.normpath(t)]
            raise Stop('error')
        try:
            fn(os.path.join(tmp, 'x'))
        except Exception:
            raise Stop('error')
        for t in targets:
            # x, or x and what the library appends to it
            p = os.path.join(tmp, 'x' + (t[len(name):] if len(targets) > 1 else ''))
            with open(p, 'rb') as fh:
                self.want[os.path.normpath(t)] = fh.read()
            self.existing.add(os.path.normpath(t))

    def session(self):
        mk = self.mk
        C = self.C = self.load()
        o = int(self.menu('what', ['1', '2', '3', '4', '5', '6', '7']))
        if o in (2, 3):
            n = self.name('.txt')
            self.lib(n, lambda p: C.writeFile(fname=p))
        elif o in (4, 5):
            n = self.name('.csv')
            self.lib(n, lambda p: C.writeCSV(fname=p))
        elif o == 6:
            only = self.yes('journals')
            try:
                tbl = mk.journalAbbreviations.getj9dict() if only and any(R.get('citations') for R in C) else {}
            except Exception:
                raise Stop('error')
            cites = {str(c) for R in C for c in (R.get('citations') or []) if not only or tbl.get(getattr(c, 'journal', None), [''])[0]}
            n = self.name('.csv')

            def fn(p):
                with open(p, 'w', encoding='utf-8', newline='') as fh:
                    fh.write(''.join(sorted(c + '\n' for c in cites)))
            self.lib(n, fn)
        elif o == 7:
            self.journals(C)
        if o not in (1, 3, 5):
            return
        G = self.network(C)
        while True:
            t = int(self.menu('filter', ['0', '1', '2', '3', '4', '5', '6']))
            if t == 0:
                break
            n = self.number() if t > 2 else None
            try:
                if t == 1:
                    mk.dropNodesByDegree(G, minDegree=1)
                elif t == 2:
                    mk.dropEdges(G, dropSelfLoops=True)
                elif t == 3:
                    mk.dropEdges(G, minWeight=n)
                elif t == 4:
                    # KNOWN: the command line takes the maximum for a minimum; the probe asks for the right thing
                    mk.dropEdges(G, **{'maxWeight' if self.sc.get('maxima') else 'minWeight': n})
                elif t == 5:
                    mk.dropNodesByDegree(G, minDegree=n)
                else:
                    mk.dropNodesByDegree(G, **{'maxDegree' if self.sc.get('maxima') else 'minDegree': n})
            except Exception:
                raise Stop('error')
        self.output(G)

    def journals(self, C):
        mk = self.mk
        db = self.ask('db', ['', 'mydb', ''], [])
        self.db = db or mk.journalAbbreviations.manualDBname
        try:
            tbl = mk.journalAbbreviations.getj9dict(manualDB=self.db) if any(R.get('citations') for R in C) else {}
        except Exception:
            raise Stop('error')
        js = []
        for R in C:
            for c in R.get('citations') or []:
                j = getattr(c, 'journal', None)
                if j is not None and j not in tbl and j not in js:
                    js.append(j)
        # the order in which they are asked about is not promised: one answer for all of them
        self.db_yes = bool(self.picks and isinstance(self.picks[0][1], int) and self.picks[0][1] % 2)
        self.db_all = js
        self.n_db = 0
        for j in js:
            if self.end and self.asked == self.end[0]:
                self.answers.append(KBD if self.end[1] == 'kbd' else EOF)
                raise Stop(self.end[1] if self.end[1] == 'kbd' else 'eof')
            self.asked += 1
            if self.asked % 4 == 0:
                self.answers.append('perhaps')
            self.answers.append('y' if self.db_yes else 'n')
            self.n_db += 1
        self.kinds.append(('cite', len(js)))

    def network(self, C):
        n = int(self.menu('net', NETS))
        if n == 1:
            t = [self.tag(C)]
        elif n == 2:
            t = [self.tag(C), self.tag(C)]
        elif n == 3:
            t = [self.tag(C)]
            while True:
                x = self.tag(C, True)
                if x is None:
                    break
                t.append(x)
        try:
            if n == 1:
                return C.networkOneMode(t[0])
            if n == 2:
                return C.networkTwoMode(t[0], t[1])
            if n == 3:
                return C.networkMultiMode(t)
            return [C.networkCitation, C.networkCoCitation, C.networkCoAuthor][n - 4]()
        except Exception:
            raise Stop('error')

    def output(self, G):
        mk = self.mk
        self.G = G
        o = 0
        while not o:
            o = int(self.menu('out', ['1', '2', '3', '4', '0']))
            if not o:
                self.views.append(queries.graph(G))
        if o == 1:
            while True:
                n = self.name('', checking=False)
                t = [n + '_edgeList.csv', n + '_nodeAttributes.csv']
                taken = any(os.path.normpath(x) in self.existing for x in t)
                nodir = os.path.dirname(n) and not os.path.isdir(os.path.dirname(n))
                if (taken or nodir) and not self.args['n']:
                    if not self.yes('overwrite'):
                        continue
                self.lib(n, lambda p: mk.writeGraph(G, p), t)
                return
        n = self.name('.graphml' if o == 4 else '.csv')
        if o == 2:
            self.lib(n, lambda p: mk.writeEdgeList(G, p))
        elif o == 3:
            self.lib(n, lambda p: mk.writeNodeAttributeFile(G, p))
        else:
            import networkx as nx
            self.lib(n, lambda p: nx.write_graphml(G, p))


def listing(d):
    out = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isdir(p):
            for k, v in listing(p).items():
                out[os.path.join(f, k)] = v
        else:
            with open(p, 'rb') as fh:
                out[f] = fh.read()
    return out


def canon(name, data, directed):
    """The contents, without the order in which sets were walked."""
    if name.endswith('.graphml'):
        import networkx as nx
        try:
            return queries.graph(nx.parse_graphml(data))
        except Exception:
            return sorted(data.split(b'\n'))
    if name.endswith('.csv'):
        rows = list(csv.reader(io.StringIO(data.decode('utf-8'), newline='')))
        if rows and rows[0][:2] == ['From', 'To'] and not directed:
            rows = [sorted(r[:2]) + r[2:] for r in rows]
        if rows:
            head = rows[0]
            if len(set(head)) == len(head):
                return [sorted(head), sorted(sorted(zip(head, r)) + [('', x) for x in r[len(head):]] for r in rows[1:])]
        return sorted(rows)
    return sorted(data.split(b'\n'))


def run(ctx, sc):
    mk = ctx.mk
    import metaknowledge.bin.metaknowledgeCLI as cli
    for d in (mk.genders, mk.journalAbbreviations):
        here = os.path.dirname(d.__file__)
        for f in os.listdir(here):
            if not f.endswith('.py') and f != '__pycache__':
                os.remove(os.path.join(here, f))
    proc = Process()
    w = ctx.world(sc.get('world') or {}, tty=None)
    home = os.path.join(ctx.root, 'd')
    ref = os.path.join(ctx.root, 'ref')
    shutil.rmtree(ref, ignore_errors=True)
    os.makedirs(ref)
    os.makedirs(os.path.join(home, 'lib'), exist_ok=True)
    if sc.get('kind') == 'mini':
        common.put_file(w, 'd/lib/m.isi', mini.render(mini.clean(sc['specs'])))
    else:
        for f in sc.get('files') or []:
            if isinstance(f, dict) and f['recs']:
                common.put_file(w, 'd/lib/' + f['name'], corpus.render(dict(f, recs=list(dict.fromkeys(f['recs'])))))
    paths = ['lib'] + ['lib/' + f for f in sorted(os.listdir(os.path.join(home, 'lib')))]
    for f in OLD:
        common.put_file(w, 'd/' + f, b'old,contents\n')
    os.makedirs(os.path.join(home, 'olddir'), exist_ok=True)
    argv_paths = [(paths + ['lib', 'nowhere'])[n % (len(paths) + 2)] for n in (sc.get('args') or {}).get('files', []) if isinstance(n, int)]
    with w:
        mk.VERBOSE_MODE = False
        w.net = down
        ja = mk.journalAbbreviations
        cites = sorted({c.journal for R in mk.RecordCollection(os.path.join(home, 'lib')) for c in (R.get('citations') or []) if getattr(c, 'journal', None)})
        ja.addToDB(dict({'SOME J': 'Some Journal'}, **{cites[n % len(cites)]: 'A Journal' for n in sc.get('journals', []) if cites and isinstance(n, int)}), dbname=ja.abrevDBname)
        if sc.get('names') != 'down':
            w.net = p13.Site(w, 0, None)
        if sc.get('names') == 'there':
            mk.genders.downloadData()
        w.settle()
        proc.restart()
        mk.VERBOSE_MODE = False
        net0 = listing(os.path.dirname(mk.genders.__file__)).get('namesData.csv')
        # what has to come of the session
        before = listing(home)
        u = User(ctx, mk, w, sc, argv_paths, paths, ref)
        a = u.args
        u.existing = {os.path.normpath(f) for f in before}
        try:
            u.session()
            end = 'done'
        except Stop as e:
            end = e.how
        if listing(home) != before:
            raise HarnessError('the reference touched the session\'s files: {}'.format([k for k, v in listing(home).items() if before.get(k) != v]))
        directed = getattr(u, 'G', None) is not None and u.G.is_directed()
        db0 = {}
        if u.db:
            db0 = manual(ja, u.db, w)
        # the gender data was downloaded by the reference: not for the session
        if net0 is None:
            p = os.path.join(os.path.dirname(mk.genders.__file__), 'namesData.csv')
            if os.path.exists(p):
                os.remove(p)
        w.settle()
        proc.restart()
        # the session
        answers = list(u.answers)
        extra = [0]

        def answer(prompt):
            if answers:
                x = answers.pop(0)
            else:
                extra[0] += 1
                if extra[0] > 50:
                    raise Budget('the session goes on asking after the end of input: {!r}'.format(prompt[:200]))
                x = EOF
            if x is EOF:
                raise EOFError()
            if x is KBD:
                raise KeyboardInterrupt()
            w.event('answer', x)
            return x
        w.answers = answer
        term = w.term = Terminal(w)
        old_argv = sys.argv
        sys.argv = ['metaknowledge'] + argv_paths + (['-q'] if a['q'] else []) + (['-d'] if a['d'] else []) + (['-n', a['n']] if a['n'] else []) + (['-s', a['s']] if a['s'] else [])
        # a process of the command line shows progress unless told not to
        mk.VERBOSE_MODE = True
        views = []
        plots = types.ModuleType('metaknowledge.contour')
        plots.quickVisual = lambda G, *args, **kwargs: views.append(queries.graph(G))
        missing = object()
        old_plots = sys.modules.get('metaknowledge.contour', missing), mk.__dict__.get('contour', missing)
        sys.modules['metaknowledge.contour'] = mk.contour = plots
        s = Scheduler(w, [x for x in sc.get('switches', []) if isinstance(x, list) and len(x) == 2 and x[0] > 0])
        fault = sc.get('fault')
        n_fired = len(w.fired_list)
        if fault:
            w.faults = [dict(fault)]
        try:
            try:
                got = ('ret', cli.mkCLI())
            except (HarnessError, Budget):
                raise
            except SystemExit as e:
                got = ('exit', e)
            except BaseException as e:      # noqa
                got = ('raise', e)
            w.faults = []
            left = [t for t in s.live()]
            ctx.check(not left, 'thread-left', lambda: 'the display is still running after the session: {} {}\n{}'.format(got, [(t.name, t.state) for t in left], term.text()[-1500:]))
        except BaseException:
            s.kill_all()
            raise
        finally:
            w.sched = None
            w.faults = []
            sys.argv = old_argv
            for at, name, v in ((sys.modules, 'metaknowledge.contour', old_plots[0]), (mk.__dict__, 'contour', old_plots[1])):
                if v is missing:
                    del at[name]
                else:
                    at[name] = v
            mk.VERBOSE_MODE = False
            w.answers = None
        w.term = None
        fired = len(w.fired_list) > n_fired
        after = listing(home)
        text = term.text()
        failed = got[0] == 'raise' or got[0] == 'ret' and isinstance(got[1], BaseException)
        how = 'quit' if got[0] == 'exit' else 'error' if failed else 'kbd' if got[0] == 'ret' and type(got[1]) is int and got[1] == 0 else 'done'
        what = 'arguments {} answers {}'.format(argv_paths + [a], [x if isinstance(x, str) else 'EOF' if x is EOF else 'Ctrl-C' for x in u.answers])
        ctx.note('sessions compared')
        ctx.note('answers given', len(u.answers) - len(answers))
        ctx.active = len(u.answers) > 2
        ctx.state(tuple(u.kinds), bool(argv_paths), a['n'], fault and fault['kind'], fired and w.fired_list[-1]['op'], how)
        if not fired:
            ctx.check(not answers and (not extra[0] or end == 'eof'), 'dialogue', lambda: '{}: the session took {} answers less, asked {} times more, and ended with {!r} (right: {})\n{}'.format(
                what, len(answers), extra[0], got[1], end, text[-600:]))
            ctx.check(views == u.views, 'shown', lambda: '{}: the session showed {} graphs (right: {})'.format(what, len(views), len(u.views)))
            right = {'eof': 'error'}.get(end, end)
            ctx.check(how == right, 'ended', lambda: '{}: the session ended with {} {!r} (right: {})\n{}'.format(what, got[0], got[1], end, text[-600:]))
        if failed and not a['d'] and got[0] != 'raise':
            ctx.check(type(got[1]).__name__ in text, 'silent', lambda: '{}: the session failed with {!r} and did not say so\n{}'.format(what, got[1], text[-400:]))
        # the files
        for f in sorted(set(before) | set(after) | set(u.want)):
            asked = f in u.want
            if not asked:
                ctx.check(after.get(f) == before.get(f), 'files', lambda: '{}: {} was {} and nobody asked for that'.format(what, f, 'removed' if f not in after else 'written' if f not in before else 'changed'))
            elif u.want[f] is not None and (not fired or how == 'done'):
                ctx.check(f in after, 'files', lambda: '{}: {} was not written'.format(what, f))
                x, y = canon(f, after[f], directed), canon(f, u.want[f], directed)
                d = None if x == y else common.diff(x, y, f) or 'different'
                ctx.check(d is None, 'files', lambda: '{}: {} (right: what the library writes)'.format(what, d))
                ctx.note('files compared')
        if u.db and u.n_db is not None:
            now = manual(ja, u.db, w)
            new = {k: v for k, v in now.items() if db0.get(k) != v}
            lost = [k for k in db0 if k not in now]
            wrong = [k for k, v in new.items() if k not in u.db_all or v != (k if u.db_yes else '')]
            ctx.check(not lost and not wrong and (len(new) == u.n_db or fired), 'database', lambda: '{}: the database {} has {} new entries {} and lost {} (right: {} of {})'.format(
                what, u.db, len(new), dict(list(new.items())[:5]), lost, u.n_db, u.db_all[:8]))


def down(url):
    import urllib.error
    raise urllib.error.URLError('no network')


def manual(ja, db, w):
    """What the manual database holds, without starting a download."""
    here = os.path.dirname(ja.__file__)
    if not os.path.exists(os.path.join(here, db + '.dir')):
        return {}
    return {k: '|'.join(v) for k, v in ja.getj9dict(manualDB=db, returnDict='manual').items()}
