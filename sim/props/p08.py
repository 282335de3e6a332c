"""P08: the progress display never changes, delays for ever or breaks a result."""
import gc
import os

from .. import common, corpus, mini, queries
from ..common import pick
from ..sched import Scheduler
from ..seams import Terminal, Budget
from .p02 import Call, EXPORTS, load, put_files

RUNS = {'quick': 20000, 'thorough': 150000}
CAP = {'quick': 100, 'thorough': 800}
REAL = 'the progress display and its thread, every operation that shows it: loading, analyses, networks, exports, graph files'
STUB = 'terminal (size, resizes, encoding), clock and sleep, thread scheduling (chosen at executed lines), disk (real bytes, simulated calls and failures), Ctrl-C (raised at a chosen line)'
STATE_MEASURE = '(operation, terminal widths, fault kind, frames drawn, order of the first task switches)'
WIDTHS = [0, 1, 2, 5, 6, 7, 8, 9, 13, 14, 15, 20, 40, 79, 80, 200, 1000]
BARS = ['coauthor', 'cocite', 'citation', 'bibc', 'onemode', 'twomode', 'multimode', 'multilevel', 'local', 'nlp', 'burst', 'cooc', 'diff', 'diffgraph', 'x-load', 'x-load', 'x-graph', 'x-edges',
        'x-nodes', 'x-tnet', 'x-readgraph', 'x-merge', 'x-nlpfile', 'x-burstfile', 'x-diffadd', 'x-diffcount', 'x-drop', 'x-drop', 'x-empty', 'x-named', 'x-named']


def question(rng, kind):
    if kind == 'grants':
        return [pick(rng, ['x-load', 'x-named', 'coinv', 'onemode', 'cooc', 'x-inst']), rng.randrange(512)]
    if rng.random() < .85:
        return [pick(rng, BARS), rng.randrange(512)]
    return [pick(rng, [q for q in queries.RECORD_QUERIES if q != 'glimpse'] + ['x-' + x for x in EXPORTS]), rng.randrange(512)]


def gen(rng, i, tier):
    kind = pick(rng, ['mini', 'mini', 'corpus', 'grants'])
    sc = {'kind': kind, 'world': common.world_conf(rng, step_budget=3000000)}
    if kind == 'mini':
        sc['specs'] = mini.specs(rng, 1, 5)
    else:
        sc['files'] = [common.file_spec(rng, corpus.RECORD_FMTS if kind == 'corpus' else corpus.GRANT_FMTS, j, kmax=20, nmax=3) for j in range(rng.choice([1, 1, 2]))]
    sc['name'] = pick(rng, [0, 0, 1, 2, 3, 4, 5, 6])
    sc['calls'] = [question(rng, kind) for _ in range(2 if rng.random() < .12 else 1)]
    sc['tty'] = [pick(rng, WIDTHS) if rng.random() < .85 else -1 for _ in range(rng.choice([1, 1, 2, 4]))]
    sc['tty_every'] = pick(rng, [1, 2, 3, 7])
    sc['enc'] = pick(rng, ['utf-8', 'utf-8', 'utf-8', 'ascii', 'cp1252', 'latin-1'])
    sc['jumps'] = [[rng.randint(1, 12), pick(rng, [-1e9, -3600, -1, -.5, .5, 3600, 1e7, 3e9])] for _ in range(rng.choice([0, 0, 1, 1, 3]))]
    scale = rng.choice([1, 3, 20, 200, 2000])
    sc['switches'] = [[1 + int(rng.random() ** 2 * scale), rng.randrange(4)] for _ in range(rng.choice([0, 1, 3, 10, 40, 120]))]
    sc['lines'] = rng.random() < .7
    x = rng.random()
    sc['hit'] = None
    if x < .15:
        sc['hit'] = {'how': 'kbd', 'at': rng.random()}
    elif x < .35:
        sc['hit'] = {'how': 'err', 'at': rng.random(), 'kind': pick(rng, ['EIO', 'ENOSPC', 'EACCES']), 'sticky': rng.random() < .2}
    return sc


NAMES = [None, 'Sammlung Köln', '☃' * 30, 'caf\udce9', 'x' * 300, '', 'a\tb']


def make(ctx, w, sc, q, a, tag):
    mk = ctx.mk
    C = load(ctx, sc)
    name = NAMES[sc.get('name', 0) % len(NAMES)]
    if name is not None:
        C.name = name
    c = None
    if q == 'x-drop':
        G = [lambda: C.networkCoAuthor(), lambda: C.networkTwoMode('keywords', 'year'), lambda: C.networkCitation(nodeInfo=False), lambda: C.networkMultiLevel('keywords', 'journal')][a % 4]()

        def fn():
            H = G.copy()
            if a & 4:
                mk.dropEdges(H, minWeight=1 + (a >> 4 & 1), dropSelfLoops=bool(a & 32))
            elif a & 8:
                mk.dropNodesByDegree(H, minDegree=1 + (a >> 4 & 3))
            else:
                mk.dropNodesByCount(H, minCount=1 + (a >> 4 & 3))
            return queries.graph(H)
        c = Call(ctx, w, sc, C, 'x-load', a, tag)
        c.fn, c.res = fn, lambda v: v
    elif q == 'x-empty':
        E = mk.RecordCollection()
        fns = [lambda: queries.canon(mk.RecordCollection()), lambda: queries.graph(E.networkCoAuthor()), lambda: queries.graph(E.networkCoCitation()), lambda: queries.graph(E.networkBibCoupling()),
               lambda: queries.graph(E.networkMultiMode('AU', 'PY')), lambda: queries.rows(E.forNLP()), lambda: queries.canon(E.localCiteStats()), lambda: queries.canon(E.cooccurrenceCounts('AU', 'PY')),
               lambda: queries.graph(mk.diffusionGraph(E, E)), lambda: queries.canon(mk.RecordCollection('/nonexistent/of no records'))]
        c = Call(ctx, w, sc, C, 'x-load', a, tag)
        c.fn, c.res = fns[a % len(fns)], lambda v: v
    elif q == 'x-named':
        cls = mk.GrantCollection if sc['kind'] == 'grants' else mk.RecordCollection
        c = Call(ctx, w, sc, C, 'x-load', a, tag)
        c.fn, c.res = lambda: cls(os.path.join(ctx.root, 'lib'), name=name if name is not None else 'n'), lambda v: [v.name, sorted(str(R.id) for R in v), sorted(v.errors)]
    elif q == 'x-inst':
        c = Call(ctx, w, sc, C, 'x-load', a, tag)
        c.fn, c.res = lambda: queries.graph(C.networkCoInvestigatorInstitution()), lambda v: v
    else:
        c = Call(ctx, w, sc, C, q, a, tag)
    return c


def hit_faults(sc, n_io):
    h = sc['hit']
    if not h or h['how'] != 'err' or not n_io:
        return []
    return [{'op': 'open_r|open_w|read|write|close_w|listdir', 'n': int(h['at'] * n_io * .8), 'kind': h['kind'], 'sticky': h['sticky']}]


def ended(fn):
    try:
        return 'ok', fn()
    except Budget:
        raise
    except BaseException as e:      # noqa
        return 'raise', e


def run(ctx, sc):
    mk = ctx.mk
    w = ctx.world(sc['world'], tty=None)
    put_files(ctx, w, sc)
    prefix = os.path.join(ctx.code, 'metaknowledge') + os.sep
    calls = [c for c in sc['calls'] if isinstance(c, list) and len(c) == 2][:2]
    if not calls:
        return
    single = len(calls) == 1
    with w:
        mk.VERBOSE_MODE = False
        # the right answer: without the display, with the same failures of the disk
        refs, n_io, faults = [], 0, []
        for n, (q, a) in enumerate(calls):
            ref = make(ctx, w, sc, q, a, 'a{}'.format(n))
            io0 = w.steps
            st = ended(ref.result)
            n_io = w.steps - io0
            if st[0] == 'raise':
                refs.append({'raise': type(st[1]).__name__})
            else:
                refs.append(st[1])
        faults = hit_faults(sc, n_io) if single else []
        if faults:
            c = make(ctx, w, sc, calls[0][0], calls[0][1], 'b0')
            w.faults = [dict(f) for f in faults]
            st = ended(c.result)
            w.faults = []
            ref_hit = {'raise': type(st[1]).__name__} if st[0] == 'raise' else st[1]
        made = [make(ctx, w, sc, q, a, 'c{}'.format(n)) for n, (q, a) in enumerate(calls)]
        n_lines = 0
        if single and sc['hit'] and sc['hit']['how'] == 'kbd':
            c = make(ctx, w, sc, calls[0][0], calls[0][1], 'b0')
            s = Scheduler(w, (), line_prefix=prefix)
            s.call_kbd = 10 ** 9
            try:
                s.trace_on()
                ended(c.fn)
            finally:
                s.trace_off()
                w.sched = None
            n_lines = s.calls_main
        before = [c.snapshot() for c in made]
        # and now with the display on
        term = w.term = Terminal(w, encoding=sc['enc'])
        sizes = sc['tty'] or [80]
        asked = [0]

        def tty():
            asked[0] += 1
            n = sizes[asked[0] // max(1, sc['tty_every']) % len(sizes)]
            return None if n < 0 else (n, 24)
        w.tty = tty
        w.time_calls, w.clock_jumps = 0, [j for j in sc['jumps'] if isinstance(j, list) and len(j) == 2]
        mk.VERBOSE_MODE = True
        kbd = 1 + int(sc['hit']['at'] * n_lines) if n_lines else None
        s = Scheduler(w, sc['switches'], line_prefix=prefix, line_points=bool(sc['lines']))
        s.call_kbd = kbd
        got, raised = [None] * len(made), [None] * len(made)
        try:
            if single:
                w.faults = [dict(f) for f in faults]
                try:
                    s.trace_on()
                    st = ended(made[0].fn)
                finally:
                    s.trace_off()
                    w.faults = []
                check_quiet(ctx, s, calls[0], term)
                n_out = len(term.chunks)
            else:
                tasks = [s.spawn('caller{}'.format(n), c.fn) for n, c in enumerate(made)]
                s.run_all(tasks)
                check_quiet(ctx, s, calls, term)
                n_out = len(term.chunks)
            mk.VERBOSE_MODE = False
            left = s.drain(50)
            ctx.check(not left, 'thread-left', lambda: '{}: {} still running long after the call'.format(calls, [t.name for t in left]))
        except BaseException:
            s.kill_all()
            raise
        finally:
            w.sched = None
            mk.VERBOSE_MODE = False
            w.clock_jumps = []
        results = [st] if single else [t.result for t in tasks]
        for n, r in enumerate(results):
            if r[0] == 'raise':
                raised[n] = r[1]
                got[n] = {'raise': type(r[1]).__name__}
            else:
                got[n] = {'ok': made[n].res(r[1])}
        hit = faults and w.fired_list and w.fired_list[-1]['kind'] == faults[0]['kind']
        frames = len(term.chunks)
        ctx.active = frames > 3 and s.switch_count > 1
        ctx.note('frames and lines shown', frames)
        ctx.note('task switches', s.switch_count)
        ctx.note('calls compared', len(calls))
        ctx.state(tuple(q for q, _ in calls), tuple(sizes), sc['hit'] and sc['hit']['how'], min(frames, 40), tuple(n for n, _ in s.trace_sig[:8]))
        for n, (q, a) in enumerate(calls):
            want = ref_hit if faults else refs[n]
            if kbd and s.call_kbd is None and n == 0:
                ctx.check(isinstance(raised[0], KeyboardInterrupt), 'interrupt-swallowed', lambda: '{}({}): Ctrl-C at the {}th function of the call, but it ended with {!r}'.format(q, a, kbd, raised[0]))
            else:
                d = common.diff(got[n], want, q)
                ctx.check(d is None, 'result', lambda: '{}({}) with the display on: {} (right: with it off){}'.format(q, a, d, '' if raised[n] is None else '; it raised {!r}'.format(raised[n])))
            d = common.diff(made[n].snapshot(), before[n])
            ctx.check(d is None, 'argument-changed', lambda: '{}({}) with the display on: {} (right: before)'.format(q, a, d))
        # nothing may be shown once the call is over, not even when its remains are collected
        raised = results = st = tasks = r = None
        got = None
        gc.collect()
        w.advance(5)
        late = term.chunks[n_out:]
        ctx.check(not late, 'late-output', lambda: '{}: {!r} was written to the terminal after the call had ended'.format(calls, late[:3]))
        if single:
            c = made[0]
            w.tty, w.term = None, None
            c2 = make(ctx, w, sc, calls[0][0], calls[0][1], 'c0')
            st = ended(c2.result)
            again = {'raise': type(st[1]).__name__} if st[0] == 'raise' else st[1]
            d = common.diff(again, refs[0], calls[0][0])
            ctx.check(d is None, 'result', lambda: '{}: with the display off again: {} (right: the first time)'.format(calls, d))


def check_quiet(ctx, s, what, term):
    live = [t.name for t in s.live()]
    ctx.check(not live, 'thread-left', lambda: '{}: the thread of the display is still running after the call ({} frames shown)'.format(what, len(term.chunks)))
    for t in s.tasks[1:]:
        e = t.exc
        if isinstance(e, Budget):
            raise e
        ctx.check(e is None, 'display-died', lambda: '{}: the thread of the display died of {!r}'.format(what, e))
