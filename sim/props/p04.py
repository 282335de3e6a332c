"""P04: what a record was asked before never changes what it answers."""
import copy
import io
import os
import pickle

from .. import common, corpus, queries, truth
from ..common import pick
from ..queries import canon
from .p09 import interrupted, investigators

RUNS = {'quick': 20000, 'thorough': 200000}
CAP = {'quick': 100, 'thorough': 800}
CROSS = True
REAL = 'record parsing, field processing and memoising, citations, bibtex, copies and pickles of records and grants'
STUB = 'disk (real bytes, simulated calls), hash seed of the process, Ctrl-C (raised at a chosen line)'
STATE_MEASURE = '(record format, question, how many questions were asked before, kind of the object asked)'
COLL = [q for q in queries.RECORD_QUERIES if q not in ('pickle', 'chunk', 'sets', 'copy', 'glimpse')]
GSET = ['PI Names', 'AwardAmount', 'Investigator', 'Institution', 'Name-Nom', 'Note', 'x', 'Cle', 'CoAppName-Nom', 'AwardTitle']


def ask(R, q, a):
    """One question to one record; (what, answer)."""
    t = queries.tag_names(a)
    if q == 'get':
        return canon(R.get(t))
    if q == 'default':
        return canon(R.get(t, default='none of that'))
    if q == 'raw':
        return canon(R.get(t, raw=True))
    if q == 'item':
        return queries.outcome(lambda: canon(R[t]))
    if q == 'in':
        return t in R
    if q == 'alt':
        alt = R.getAltName(t)
        return [alt, canon(R.get(t)) == canon(R.get(alt)) if alt is not None else None]
    if q == 'items':
        return [canon(list(R.items(raw=bool(a & 1)))), canon(list(R.values(raw=bool(a & 1))))]
    if q == 'keys':
        return [list(R.keys()), list(R), len(R), R.id, R.sourceLine, bool(R.bad), R.encoding()]
    if q == 'cite':
        return [str(c) for c in R.createCitation(multiCite=True)] if a & 1 else cite(R.createCitation())
    if q == 'bib':
        return queries.outcome(lambda: R.bibString(maxLength=[1000, 60, 7][a % 3], WOSMode=bool(a & 4), restrictedOutput=bool(a & 8), niceID=bool(a & 16)))
    if q == 'write':
        def one():
            f = io.StringIO()
            R.writeRecord(f)
            return f.getvalue()
        return queries.outcome(one)
    if q == 'bytes':
        return queries.outcome(lambda: canon(bytes(R)))
    if q == 'names':
        return [R.title, canon(R.authors), str(R), repr(R)]
    if q == 'citations':
        f = [None, 'year', 'author', 'journal', 'V', 'nothing'][a % 6]
        v = [None, None, 2001, ['NATURE', 1998], 'Smith A'][a // 6 % 5]
        return canon(R.getCitations(field=f, values=v, pandasFriendly=False)) if a & 64 else queries.rows(R.getCitations(field=f, values=v))
    if q == 'citeparts':
        return [cite(c) for c in R.get('citations') or []]
    if q == 'sub':
        return canon(R.subDict([queries.tag_names(a + 13 * j) for j in range(3)], raw=bool(a & 1)))
    raise KeyError(q)


def cite(c):
    return [str(c), c.ID(), c.allButDOI(), c.Extra(), c.bad, c.isAnonymous(), canon(getattr(c, 'extraAuthors', None))] + [canon(getattr(c, x, None)) for x in ('author', 'year', 'journal', 'V', 'P', 'DOI', 'misc', 'name')]


ASKS = ['get', 'get', 'get', 'get', 'raw', 'raw', 'item', 'in', 'in', 'alt', 'default', 'items', 'keys', 'cite', 'bib', 'bib', 'write', 'bytes', 'names', 'citations', 'citeparts', 'sub']


def gen(rng, i, tier):
    n = rng.choice([4, 8, 15, 30] if tier == 'quick' else [10, 30, 80, 150])
    if rng.random() < .2:
        return {'mode': 'grants', 'files': [common.file_spec(rng, corpus.GRANT_FMTS, j, kmax=12, nmax=4) for j in range(rng.randint(1, 2))], 'world': common.world_conf(rng),
                'steps': [{'op': pick(rng, ['set', 'set', 'del', 'update', 'copy', 'copy', 'pickle', 'setbad', 'pop', 'setdefault', 'clear']), 'x': rng.randrange(12), 'y': rng.randrange(12),
                           't': rng.randrange(40), 'a': rng.randrange(100)} for _ in range(n)]}
    f = common.file_spec(rng, corpus.RECORD_FMTS + ['wos', 'sco'], 0, kmax=120, nmax=3)
    steps = []
    # a few favourite tags, so that aliases and repeated questions meet
    tags = [rng.randrange(512) for _ in range(4)]
    for _ in range(n):
        s = {'op': pick(rng, ['ask'] * 8 + ['copy', 'copy', 'pickle', 'deepcopy', 'coll', 'coll', 'state']), 'x': rng.randrange(12), 'q': pick(rng, ASKS), 'c': pick(rng, COLL),
             'a': pick(rng, tags) if rng.random() < .5 else rng.randrange(512)}
        if rng.random() < .15:
            s['kbd'] = int(2 ** (rng.random() * 9))
        steps.append(s)
    return {'mode': 'records', 'files': [f], 'world': common.world_conf(rng), 'steps': steps}


def run(ctx, sc):
    w = ctx.world(sc['world'], tty=None)
    with w:
        if sc['mode'] == 'grants':
            grants(ctx, w, sc)
        else:
            records(ctx, w, sc)


def records(ctx, w, sc):
    mk = ctx.mk
    f = dict(sc['files'][0])
    f['recs'] = list(dict.fromkeys(f['recs'])) or [0]
    want = dict(truth.record_entries(f))
    common.put_file(w, f['name'], corpus.render(f))
    path = os.path.join(ctx.root, f['name'])

    def load():
        return {R.id: R for R in mk.RecordCollection(path)}
    first = load()
    ctx.check(set(first) == set(want), 'load', lambda: 'ids {} instead of {}'.format(sorted(first), sorted(want)))
    pool = [[first[i], i, 'original'] for i in sorted(first)]
    asked = {}

    def reference(i, q, a):
        if (i, q, a) not in asked:
            asked[(i, q, a)] = ask(load()[i], q, a)
            ctx.observe('{}:{}:{}'.format(i, q, a), asked[(i, q, a)])
        return asked[(i, q, a)]

    for n, s in enumerate(sc['steps']):
        R, i, kind = pool[s['x'] % len(pool)]
        op = s['op']
        if op in ('ask', 'coll'):
            if op == 'coll':
                C = mk.RecordCollection({i: R}.values())

                def fn():
                    return common.outcome(lambda: queries.run(mk, C, s['c'], s['a']))
            else:
                def fn():
                    return ask(R, s['q'], s['a'])
            if 'kbd' in s:
                interrupted(ctx, w, fn, s['kbd'])
            if op == 'ask':
                got, ref = fn(), reference(i, s['q'], s['a'])
                d = common.diff(common.plain(got), common.plain(ref))
                ctx.check(d is None, 'answer', lambda: 'step {}: {} of {} asked {}({}): {} (right: asked first of all)'.format(n, kind, i, s['q'], queries.tag_names(s['a']), d))
                if s['q'] == 'alt':
                    ctx.check(got[1] is not False, 'alias', lambda: '{}: {} and its other name {} give different values'.format(i, queries.tag_names(s['a']), got[0]))
                ctx.note('answers compared')
            else:
                fn()
            ctx.state(f['fmt'], s['q'] if op == 'ask' else s['c'], min(n, 30), kind)
        else:
            if op == 'copy':
                D = R.copy() if s['a'] & 1 else copy.copy(R)
            elif op == 'deepcopy':
                D = copy.deepcopy(R)
            elif op == 'pickle':
                D = pickle.loads(pickle.dumps(R, s['a'] % 6))
            else:
                st = pickle.loads(pickle.dumps(R.__getstate__()))
                D = R.copy()
                D.__setstate__(st)
            ctx.check(D == R and hash(D) == hash(R) and D.id == R.id and type(D) is type(R), 'copy', lambda: 'step {}: {} of {} is not equal to it'.format(n, op, i))
            if len(pool) < 12:
                pool.append([D, i, op + ' of ' + kind if len(kind) < 60 else op])
        ctx.active = True
        # the raw fields of every object stay what the file holds
        for Q, j, k in pool:
            d = common.diff(common.raw_fields(Q), dict(sorted(want[j]['fields'].items())))
            ctx.check(d is None, 'raw', lambda: 'step {} ({}): raw fields of {} of {}: {} (right: in the file)'.format(n, op, k, j, d))


def grants(ctx, w, sc):
    mk = ctx.mk
    os.makedirs(os.path.join(ctx.root, 'g'))
    for f in sc['files']:
        if isinstance(f, dict) and f['recs']:
            common.put_file(w, 'g/' + f['name'], corpus.render(dict(f, recs=list(dict.fromkeys(f['recs'])))))
    C = mk.GrantCollection(os.path.join(ctx.root, 'g'))
    objs = [[G, {k: copy.deepcopy(G[k]) for k in G.keys()}, False] for G in sorted(C, key=lambda G: G.id)]
    if not objs:
        return
    ids = [G.id for G, _, _ in objs]
    for n, s in enumerate(sc['steps']):
        G, m, bad = o = objs[s['x'] % len(objs)]
        op = s['op']
        tags = sorted(m) + GSET
        t = tags[s['t'] % len(tags)]
        if op in ('copy', 'pickle'):
            D = pickle.loads(pickle.dumps(G)) if op == 'pickle' else G.copy() if s['a'] & 1 else copy.copy(G)
            if len(objs) < 12:
                objs.append([D, dict(m), bad])
                ids.append(D.id)
            ctx.check(D == G and hash(D) == hash(G) and D.id == G.id, 'copy', lambda: 'step {}: {} of {} is not equal to it'.format(n, op, G.id))
        elif op == 'set':
            v = ['value {}'.format(s['a']), '', 'A; B'][s['a'] % 3]
            G[t] = v
            m[t] = v
        elif op == 'setdefault':
            got = G.setdefault(t, 'default')
            ctx.check(canon(got) == canon(m.setdefault(t, 'default')), 'mutation', lambda: 'setdefault gave {!r}'.format(got))
        elif op == 'setbad':
            st, e = common.outcome(lambda: G.__setitem__(s['a'], 'x'))
            ctx.check(st == 'raise' and isinstance(e, KeyError), 'mutation', lambda: 'a field named {!r} was accepted'.format(s['a']))
        elif op in ('del', 'pop'):
            st, e = common.outcome(lambda: G.__delitem__(t) if op == 'del' else G.pop(t))
            ctx.check((st == 'ok') == (t in m), 'mutation', lambda: '{} of {!r}: {!r}'.format(op, t, e))
            m.pop(t, None)
        elif op == 'clear' and s['a'] % 4 == 0:
            G.clear()
            m.clear()
        elif op == 'update':
            H, hm, hbad = objs[s['y'] % len(objs)]
            if type(G) is type(H):
                G.update(H)
                if type(G).__name__ == 'NSERCGrant':
                    for k, v in list(hm.items()):
                        if v != '':
                            m[k] = v if m.get(k, '') == '' else '{}; {}'.format(m[k], v)
                else:
                    m.update(hm)
        ctx.active = True
        ctx.state(type(G).__name__, op, len(m), len(objs))
        for j, (Q, qm, _) in enumerate(objs):
            d = common.diff(common.plain(dict(Q.items())), common.plain(qm))
            ctx.check(d is None, 'mutation', lambda: 'step {} ({} on object {}): object {} ({}): {} (right: as set)'.format(n, op, s['x'] % len(objs), j, Q.id, d))
            ctx.check(Q.id == ids[j], 'mutation', lambda: 'the id of {} became {}'.format(ids[j], Q.id))
        if type(G).__name__ in ('NSERCGrant', 'NSFGrant') and all(isinstance(v, (str, list)) for v in m.values()):
            for inst in (False, True):
                got = sorted((G.getInstitutions if inst else G.getInvestigators)())
                want = sorted(a for a, _ in investigators({'type': type(G).__name__, 'fields': m}, None, inst))
                ctx.check(got == want, 'answer', lambda: 'step {}: {} of {} are {} instead of {}'.format(n, 'institutions' if inst else 'investigators', G.id, got, want))
