"""P10: several threads may read one collection at the same time, switched at any line or system call."""
import csv
import io
import os

from .. import common, corpus, mini, queries
from ..common import pick
from ..sched import Scheduler

RUNS = {'quick': 23500, 'thorough': 120000}
CAP = {'quick': 100, 'thorough': 800}
REAL = 'collections, records, citations, all analyses, networks and exports, run by real threads'
STUB = 'thread scheduling (every executed line and simulated system call of metaknowledge is a switch point decided by the scenario), disk (real bytes, simulated calls)'
STATE_MEASURE = '(questions asked at the same time, first switches between the threads)'
EXPORTS = ['csv', 'bib', 'file', 'csvsplit']


def question(rng, kind, favourite):
    if kind == 'grants':
        return [pick(rng, queries.GRANT_QUERIES), rng.randrange(512)]
    if favourite is not None and rng.random() < .4:
        return list(favourite)
    if rng.random() < .15:
        return ['x-' + pick(rng, EXPORTS), rng.randrange(512)]
    if rng.random() < .25:
        return [pick(rng, ['field', 'contains', 'items', 'bib', 'cite', 'misc', 'pickle', 'copy']), rng.randrange(512)]
    return [pick(rng, queries.RECORD_QUERIES), rng.randrange(512)]


def gen(rng, i, tier):
    kind = pick(rng, ['mini', 'mini', 'mini', 'corpus', 'corpus', 'grants'])
    sc = {'kind': kind, 'world': common.world_conf(rng, step_budget=3000000)}
    if kind == 'mini':
        sc['specs'] = mini.specs(rng, 1, 4)
    else:
        sc['files'] = [common.file_spec(rng, corpus.RECORD_FMTS if kind == 'corpus' else corpus.GRANT_FMTS, j, kmax=20, nmax=2) for j in range(rng.choice([1, 1, 2]))]
    n = rng.choice([2, 2, 2, 3, 4])
    fav = question(rng, kind, None) if rng.random() < .5 else None
    sc['threads'] = [[question(rng, kind, fav) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)]
    sc['share'] = rng.randrange(16) if rng.random() < .4 else 0      # these threads read another collection of the same record objects
    sc['census'] = rng.randrange(1, 99) if rng.random() < .3 else 0
    scale = rng.choice([2, 20, 200, 2000])
    sc['switches'] = [[1 + int(rng.random() ** 2 * scale), rng.randrange(4)] for _ in range(rng.choice([1, 3, 10, 40, 120] if tier == 'quick' else [10, 40, 150, 400]))]
    return sc


def build(ctx, w, sc):
    mk = ctx.mk
    if sc['kind'] == 'mini':
        specs = mini.clean(sc['specs'])
        common.put_file(w, 'm.isi', mini.render(specs))
        return mk.RecordCollection(os.path.join(ctx.root, 'm.isi'))
    os.makedirs(os.path.join(ctx.root, 'lib'), exist_ok=True)
    for f in sc['files']:
        if isinstance(f, dict) and f['recs']:
            common.put_file(w, 'lib/' + f['name'], corpus.render(dict(f, recs=list(dict.fromkeys(f['recs'])))))
    cls = mk.GrantCollection if sc['kind'] == 'grants' else mk.RecordCollection
    return cls(os.path.join(ctx.root, 'lib'))


def lines(w, rel):
    return sorted(common.get_file(w, rel).decode('utf-8').split('\n'))


def table(w, rel):
    # the order of the columns is that of the first record written
    rows = list(csv.reader(io.StringIO(common.get_file(w, rel).decode('utf-8'), newline='')))
    return sorted((sorted(zip(rows[0], r)) for r in rows[1:]), key=repr) if rows else []


def ask(ctx, w, C, q, a, tag):
    """The canonical answer; exports go to files of their own."""
    mk = ctx.mk
    if not q.startswith('x-'):
        return queries.run(mk, C, q, a)
    name = 'out-' + tag
    path = os.path.join(ctx.root, name)
    if q == 'x-csv':
        C.writeCSV(path, genderCounts=False, numAuthors=bool(a & 1), longNames=bool(a & 2), onlyTheseTags=['UT', 'PY', 'CR', 'AF'] if a & 4 else None)
        return table(w, name)
    elif q == 'x-csvsplit':
        C.writeCSV(name, genderCounts=False, splitByTag=['year', 'journal'][a % 2])
        return [[f[:-len(name)], table(w, f)] for f in common.ls(w) if f.endswith('-' + name)]
    elif q == 'x-bib':
        C.writeBib(path, maxStringLength=1000, wosMode=bool(a & 1), reducedOutput=bool(a & 2), niceIDs=bool(a & 4))
    else:
        C.writeFile(path)
    return lines(w, name)


def run(ctx, sc):
    w = ctx.world(sc['world'], tty=None)
    with w:
        alone = {}
        for n, t in enumerate(sc['threads']):
            for q, a in t:
                sh = sc['share'] >> n & 1
                if (q, a, sh) not in alone:
                    C = build(ctx, w, sc)
                    alone[(q, a, sh)] = answer(ctx, w, second(C, sc) if sh else C, q, a, 'alone-{}'.format(len(alone)))
        C = build(ctx, w, sc)
        before = common.dump_collection(C)
        C2 = second(C, sc)
        s = Scheduler(w, sc['switches'], line_prefix=os.path.join(ctx.code, 'metaknowledge') + os.sep, line_points=True)
        got = {}

        def client(n, qs):
            def fn():
                for m, (q, a) in enumerate(qs):
                    got[(n, m)] = answer(ctx, w, C2 if sc['share'] >> n & 1 else C, q, a, 't{}-{}'.format(n, m))
            return fn
        try:
            tasks = [s.spawn('client{}'.format(n), client(n, qs)) for n, qs in enumerate(sc['threads'])]
            s.run_all(tasks)
        except BaseException:
            s.kill_all()
            raise
        finally:
            w.sched = None
        ctx.note('task switches', s.switch_count)
        ctx.note('scheduling points', s.points)
        ctx.active = s.switch_count > len(sc['threads'])
        ctx.state(tuple(q for t in sc['threads'] for q, _ in t), tuple(n for n, _ in s.trace_sig[:12]))
        for n, t in enumerate(tasks):
            if t.result[0] == 'raise':
                ctx.fail('thread-died', 'client {} ({}): {!r}'.format(n, sc['threads'][n], t.result[1]))
        for n, qs in enumerate(sc['threads']):
            for m, (q, a) in enumerate(qs):
                d = common.diff(got[(n, m)], alone[(q, a, sc['share'] >> n & 1)], q)
                ctx.check(d is None, 'thread-answer', lambda: 'client {} asked {}({}): {} (right: asked alone)'.format(n, q, a, d))
                ctx.note('answers compared')
        d = common.diff(common.dump_collection(C), before)
        ctx.check(d is None, 'collection-changed', lambda: 'the collection afterwards: {} (right: before)'.format(d))
        if sc.get('census'):
            d = common.diff(queries.census(C, sc['census']), queries.census(build(ctx, w, sc), sc['census']), 'record')
            ctx.check(d is None, 'answer-afterwards', lambda: 'fields afterwards: {} (right: asked alone)'.format(d))
        for n, ((q, a, sh), want) in enumerate(sorted(alone.items())):
            d = common.diff(answer(ctx, w, C2 if sh else C, q, a, 'after-{}'.format(n)), want, q)
            ctx.check(d is None, 'answer-afterwards', lambda: 'asked {}({}) afterwards: {} (right: asked alone)'.format(q, a, d))


def second(C, sc):
    # made the same way each time: ties are reported in the order of iteration
    C2 = C.copy() if sc['share'] & 1 else type(C)(list(C))
    C2.name = C.name
    return C2


def answer(ctx, w, C, q, a, tag):
    try:
        return {'ok': ask(ctx, w, C, q, a, tag)}
    except Exception as e:      # noqa
        return {'raise': [type(e).__name__, str(e).replace(tag, '')[:200]]}
