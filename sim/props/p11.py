"""P11: collections behave as sets of records that remember what went wrong, through any history of operations."""
import copy
import os
import pickle

from .. import common, corpus, queries
from ..common import pick
from .p09 import interrupted

RUNS = {'quick': 23500, 'thorough': 200000}
CAP = {'quick': 100, 'thorough': 800}
REAL = 'file parsing, record identity and hashing, all collection operators and filters'
STUB = 'disk (real bytes, simulated calls, damaged files), directory order, Ctrl-C (raised at a chosen line)'
STATE_MEASURE = '(operation, sizes of the operands and of the result, errors known)'
OPS = ['or', 'and', 'sub', 'xor', 'ior', 'iand', 'isub', 'ixor', 'copy', 'copy', 'deepcopy', 'pickle', 'iter', 'gen', 'add', 'add', 'discard', 'remove', 'removeid', 'discardid',
       'pop', 'clear', 'chunk', 'split', 'years', 'cites', 'citesof', 'bad', 'dropbad', 'nonjournals', 'plus', 'adderror', 'wrongadd', 'wrongop', 'compare', 'load', 'query', 'badier', 'fromrc']


def gen(rng, i, tier):
    kind = pick(rng, ['records', 'records', 'records', 'grants'])
    fmts = corpus.RECORD_FMTS + ['wos', 'wos'] if kind == 'records' else corpus.GRANT_FMTS
    files = []
    for j in range(rng.choice([1, 2, 3])):
        f = common.file_spec(rng, fmts, j, kmax=8, nmax=5)
        r = rng.random()
        if r < .25:
            f['damage'] = [{'kind': 'cut', 'at': rng.random()}]
        elif r < .4:
            f['damage'] = [{'kind': 'bytes', 'at': rng.random(), 'hex': pick(rng, ['ff', '00', '0a', '5858', '22']), 'del': rng.randrange(3)}]
        if f.get('damage') and f['fmt'] != 'nsf':
            # what a damaged file says about an entry may differ from what another file says
            f['recs'] = [k + 100 * (j + 1) for k in f['recs']]
        files.append(f)
    world = common.world_conf(rng)
    common.enlarge(rng, files, .003, world)
    n = rng.choice([3, 6, 10, 20] if tier == 'quick' else [10, 20, 40, 60])
    return {'kind': kind, 'files': files, 'world': world, 'ops': [op(rng) for _ in range(n)]}


def op(rng):
    o = {'op': pick(rng, OPS), 'x': rng.randrange(6), 'y': rng.randrange(6), 'a': rng.randrange(64)}
    if rng.random() < .06:
        o['kbd'] = int(2 ** (rng.random() * 9))
    return o


class Slot:
    def __init__(self, C, toks, errors, bad):
        self.C, self.toks, self.errors, self.bad = C, set(toks), dict(errors), bad


class Model:
    def __init__(self, ctx, w, sc):
        self.ctx, self.w, self.mk = ctx, w, ctx.mk
        self.records = sc['kind'] == 'records'
        self.cls = ctx.mk.RecordCollection if self.records else ctx.mk.GrantCollection
        self.slots, self.info, self.nth = [], {}, 0
        self.files = [f for f in sc['files'] if isinstance(f, dict)]
        self.reg = {}

    def tok(self, R):
        if not R.bad:
            return R.id
        return 'bad:' + repr((R.id, '{}: {}'.format(type(R.error).__name__, R.error), common.raw_fields(R)))

    def load(self, n):
        f = self.files[n % len(self.files)]
        p = os.path.join(self.ctx.root, f['name'])
        if not common.exists(self.w, f['name']):
            common.put_file(self.w, f['name'], corpus.render(f))
        st, C = common.outcome(lambda: self.cls(p))
        if st == 'raise':
            return
        # the details used by the filters are read from another collection of the same file
        for R in self.cls(p):
            t = self.tok(R)
            if self.records:
                st, v = common.outcome(lambda: {'year': R.get('year'), 'pt': R.get('pubType'), 'cites': [str(c) for c in R.get('citations') or []],
                                                'cids': [c.ID() for c in R.get('citations') or []], 'self': R.createCitation().ID()})
                self.info[t] = v if st == 'ok' else None
            else:
                self.info[t] = None
        toks = [self.tok(R) for R in C]
        self.ctx.check(len(set(toks)) == len(toks) == len(C), 'set', lambda: 'the loaded collection holds equal entries twice')
        for R in C:
            self.reg.setdefault(self.tok(R), R)
        self.put(C, toks, {str(k): str(v) for k, v in C.errors.items()}, C.bad)

    def put(self, C, toks, errors, bad):
        s = Slot(C, toks, errors, bad)
        if len(self.slots) < 6:
            self.slots.append(s)
        else:
            self.slots[self.nth % 6] = s
            self.nth += 1
        return s

    def adopt(self, C, toks):
        """A result whose errors are not specified (chunks, filters): only its members are checked now, all of it later."""
        self.members(C, toks)
        self.put(C, toks, {str(k): str(v) for k, v in C.errors.items()}, C.bad)

    def members(self, C, toks):
        got = sorted(self.tok(R) for R in C)
        self.ctx.check(got == sorted(toks), 'set', lambda: '{}: members are {}, should be {}'.format(self.what, short(got), short(sorted(toks))))

    def verify(self):
        for n, s in enumerate(self.slots):
            self.members(s.C, s.toks)
            self.ctx.check(len(s.C) == len(s.toks), 'set', lambda: '{}: len of slot {} is {}, should be {}'.format(self.what, n, len(s.C), len(s.toks)))
            errs = {str(k): str(v) for k, v in s.C.errors.items()}
            self.ctx.check(errs == s.errors, 'errors', lambda: '{}: slot {} knows the errors {}, should know {}'.format(self.what, n, errs, s.errors))
            self.ctx.check(bool(s.C.bad) == bool(s.bad), 'errors', lambda: '{}: slot {} has bad={}, should be {}'.format(self.what, n, s.C.bad, s.bad))
        s = self.slots[self.ctx.steps % len(self.slots)] if self.slots else None
        if s is None:
            return
        for t, R in self.reg.items():
            inn = t in s.toks
            self.ctx.check((R in s.C) == inn, 'set', lambda: '{}: {!r} in the collection is {}'.format(self.what, short(t), not inn))
            if R.bad:
                continue
            self.ctx.check(bool(s.C.containsID(R.id)) == any(x == t for x in s.toks), 'set', lambda: '{}: containsID({!r}) is {}'.format(self.what, R.id, s.C.containsID(R.id)))
            g = s.C.getID(R.id)
            self.ctx.check((g is not None and g.id == R.id) if inn else g is None, 'set', lambda: '{}: getID({!r}) gives {!r}'.format(self.what, R.id, g))
        b = s.C.badEntries()
        self.ctx.check(sorted(self.tok(R) for R in b) == sorted(t for t in s.toks if t.startswith('bad:')), 'bad-entries',
                       lambda: '{}: badEntries() gives {} of {} entries marked bad'.format(self.what, len(b), sum(t.startswith('bad:') for t in s.toks)))


def short(v):
    s = repr(v)
    return s if len(s) < 240 else s[:240] + '...'


def run(ctx, sc):
    mk = ctx.mk
    w = ctx.world(sc['world'], tty=None)
    m = Model(ctx, w, sc)
    if not m.files:
        return
    ctx.steps = 0
    with w:
        m.what = 'load'
        for n in range(len(m.files)):
            m.load(n)
        m.put(m.cls(), [], {}, False)
        m.verify()
        for o in sc['ops']:
            ctx.steps += 1
            m.what = 'step {} ({})'.format(ctx.steps, o['op'])
            step(ctx, w, m, o)
            m.verify()
            ctx.active = True
        ctx.note('operations', ctx.steps)


BIN = {'or': (lambda a, b: a | b, set.__or__), 'and': (lambda a, b: a & b, set.__and__), 'sub': (lambda a, b: a - b, set.__sub__), 'xor': (lambda a, b: a ^ b, set.__xor__),
       'plus': (lambda a, b: a + b, set.__or__)}


def ior(a, b):
    a |= b
    return a


def iand(a, b):
    a &= b
    return a


def isub(a, b):
    a -= b
    return a


def ixor(a, b):
    a ^= b
    return a


IN = {'ior': (ior, set.__or__), 'iand': (iand, set.__and__), 'isub': (isub, set.__sub__), 'ixor': (ixor, set.__xor__)}


def step(ctx, w, m, o):
    mk = ctx.mk
    k = o['op']
    x, y = m.slots[o['x'] % len(m.slots)], m.slots[o['y'] % len(m.slots)]
    C, a = x.C, o['a']
    toks = sorted(m.reg)

    def do(fn):
        """fn() that only reads its operands, possibly after a first try that was interrupted."""
        if 'kbd' in o:
            interrupted(ctx, w, fn, o['kbd'])
            m.verify()
        return fn()
    ctx.state(k, len(x.toks), len(y.toks), bool(x.errors), bool(y.errors))
    if k in BIN:
        if k == 'plus' and not m.records:
            return
        fn, f = BIN[k]
        R = do(lambda: fn(C, y.C))
        ctx.check(type(R) is m.cls, 'set', lambda: '{}: gives a {}'.format(m.what, type(R).__name__))
        m.put(R, f(x.toks, y.toks), dict(x.errors, **y.errors), x.bad or y.bad)
    elif k in IN:
        fn, f = IN[k]
        R = fn(C, y.C)
        ctx.check(R is C, 'set', lambda: m.what + ': the in-place operator made another collection')
        x.toks = set(f(x.toks, y.toks))
        x.errors = dict(x.errors, **y.errors)
        x.bad = x.bad or y.bad
    elif k == 'copy':
        m.put(do(C.copy), x.toks, x.errors, x.bad)
    elif k == 'deepcopy':
        m.put(do(lambda: copy.deepcopy(C)), x.toks, x.errors, x.bad)
    elif k == 'pickle':
        m.put(do(lambda: pickle.loads(pickle.dumps(C))), x.toks, x.errors, x.bad)
    elif k in ('iter', 'gen', 'fromrc'):
        chosen = [R for R in C if a & 1 or hash_bit(m.tok(R), a)]
        if k == 'fromrc':
            m.adopt(do(lambda: m.cls(C)), set(x.toks))
        else:
            m.adopt(do(lambda: m.cls((R for R in chosen) if k == 'gen' else list(chosen) * 2)), {m.tok(R) for R in chosen})
    elif k == 'add':
        if toks:
            t = toks[a % len(toks)]
            C.add(m.reg[t])
            x.toks.add(t)
    elif k in ('discard', 'remove', 'removeid', 'discardid'):
        if not toks:
            return
        t = toks[a % len(toks)]
        R = m.reg[t]
        if k.endswith('id') and (R.bad or sum(z.split(':')[0] == 'x' for z in x.toks)):
            return
        st, e = common.outcome(lambda: {'discard': lambda: C.discard(R), 'remove': lambda: C.remove(R), 'removeid': lambda: C.removeID(R.id), 'discardid': lambda: C.discardID(R.id)}[k]())
        want = 'raise' if k.startswith('remove') and t not in x.toks else 'ok'
        ctx.check(st == want and (st == 'ok' or isinstance(e, KeyError)), 'set', lambda: '{}: {} {!r} although the record is {} the collection'.format(m.what, st, e, 'in' if t in x.toks else 'not in'))
        x.toks.discard(t)
    elif k == 'pop':
        st, R = common.outcome(C.pop)
        if not x.toks:
            ctx.check(st == 'raise' and isinstance(R, KeyError), 'set', lambda: m.what + ': pop from an empty collection gave {!r}'.format(R))
        else:
            ctx.check(st == 'ok' and m.tok(R) in x.toks, 'set', lambda: m.what + ': pop gave {!r}'.format(R))
            x.toks.discard(m.tok(R))
    elif k == 'clear':
        C.clear()
        x.toks, x.errors, x.bad = set(), {}, False
    elif k in ('chunk', 'split'):
        n = 1 + a % 4
        parts = (do(lambda: C.chunk(n)) if k == 'chunk' else C.split(n))
        got = [m.tok(R) for p in parts for R in p]
        ctx.check(sorted(got) == sorted(x.toks), 'set', lambda: '{}({}): the parts hold {} entries of {}'.format(m.what, n, len(got), len(x.toks)))
        ctx.check(all(1 <= len(p) <= n for p in parts) and len(parts) <= len(x.toks), 'set', lambda: '{}({}): sizes {}'.format(m.what, n, [len(p) for p in parts]))
        if k == 'split':
            x.toks, x.errors, x.bad = set(), {}, False
        for p in parts[:2]:
            m.adopt(p, {m.tok(R) for R in p})
    elif k in ('years', 'cites', 'citesof', 'nonjournals'):
        if not m.records or any(m.info.get(t) is None for t in x.toks):
            return
        if k == 'years':
            lo, hi = 1990 + a % 20, 2000 + a % 17
            m.adopt(do(lambda: C.yearSplit(lo, hi)), {t for t in x.toks if isinstance(m.info[t]['year'], int) and lo <= m.info[t]['year'] <= hi})
        elif k == 'cites':
            s, rev = ['A', 'NATURE', '2001', 'zz', ''][a % 5], bool(a & 8)
            m.adopt(do(lambda: C.citeFilter(s, reverse=rev)), {t for t in x.toks if any(s.upper() in c.upper() for c in m.info[t]['cites']) != rev})
        elif k == 'citesof':
            src = [t for t in toks if not t.startswith('bad:')]
            if src:
                t0 = src[a % len(src)]
                if m.info.get(t0):
                    m.adopt(do(lambda: C.localCitesOf(m.reg[t0])), {t for t in x.toks if m.info[t0]['self'] in m.info[t]['cids']})
        else:
            if any(m.info[t]['pt'] is None for t in x.toks if not t.startswith('bad:')):
                return
            inv = bool(a & 1)
            C.dropNonJournals(invert=inv)
            x.toks = {t for t in x.toks if not t.startswith('bad:') and (m.info[t]['pt'] == 'J') != inv}
            x.errors, x.bad = {}, False
    elif k == 'bad':
        m.adopt(do(C.badEntries), {t for t in x.toks if t.startswith('bad:')})
    elif k == 'dropbad':
        C.dropBadEntries()
        x.toks = {t for t in x.toks if not t.startswith('bad:')}
        x.errors, x.bad = {}, False
    elif k == 'adderror':
        C.errors['file{}'.format(a % 3)] = ValueError(str(a))
        C.bad = True
        x.errors['file{}'.format(a % 3)], x.bad = str(a), True
    elif k == 'badier':
        # marking a file that was known before must not reach copies
        C.errors.clear()
        C.bad = False
        x.errors, x.bad = {}, False
    elif k == 'wrongadd':
        st, e = common.outcome(lambda: C.add(['text', 5, None][a % 3]))
        ctx.check(st == 'raise', 'set', lambda: m.what + ': something that is no record was added')
        st, e = common.outcome(lambda: m.cls([m.reg[t] for t in toks[:3]] + ['no record']))
        ctx.check(st == 'raise', 'set', lambda: m.what + ': a collection was made of something that is no record')
    elif k == 'wrongop':
        for fn in list(BIN.values())[:4] + list(IN.values()):
            st, e = common.outcome(lambda: fn[0](C, set(m.reg.values())))
            ctx.check(st == 'raise' and isinstance(e, TypeError), 'set', lambda: m.what + ': an operator took a plain set')
        ctx.check(C != set(m.reg.values()) and not C == set(m.reg.values()), 'set', lambda: m.what + ': a collection is equal to a plain set')
        for fn in (lambda: C <= set(), lambda: C >= set(), lambda: m.cls(7), lambda: m.cls([R for R in C] + ['x'])):
            st, e = common.outcome(fn)
            ctx.check(st == 'raise' and isinstance(e, (TypeError, mk.mkException)), 'set', lambda: m.what + ': something that is no entry or collection was taken as one: {!r}'.format(e))
    elif k == 'compare':
        same = x.toks == y.toks
        ctx.check((C == y.C) == same and (C != y.C) != same, 'set', lambda: '{}: equality of collections with {} members is {}'.format(m.what, 'the same' if same else 'different', C == y.C))
        ctx.check(not same or hash(C) == hash(y.C), 'set', lambda: m.what + ': equal collections hash differently')
        ctx.check(C.isdisjoint(y.C) == (not x.toks & y.toks), 'set', lambda: m.what + ': isdisjoint is {}'.format(C.isdisjoint(y.C)))
        for sym, got, want in (('<=', C <= y.C, x.toks <= y.toks), ('<', C < y.C, x.toks < y.toks), ('>=', C >= y.C, x.toks >= y.toks), ('>', C > y.C, x.toks > y.toks)):
            ctx.check(got is want, 'set', lambda: '{}: C {} D is {} for the members {} and {}'.format(m.what, sym, got, short(sorted(x.toks)), short(sorted(y.toks))))
        for t, R in sorted(m.reg.items())[:6]:
            if not R.bad:
                ctx.check(C.getID(R.id) == (R if t in x.toks else None), 'set', lambda: '{}: getID({!r}) is {!r}'.format(m.what, R.id, C.getID(R.id)))
        p = C.peek()
        ctx.check(p is None if not x.toks else m.tok(p) in x.toks, 'set', lambda: m.what + ': peek gave {!r}'.format(p))
    elif k == 'load':
        m.load(a)
    elif k == 'query':
        qs = queries.RECORD_QUERIES if m.records else queries.GRANT_QUERIES
        f = lambda: queries.outcome(lambda: queries.run(mk, C, qs[a % len(qs)], a))     # noqa
        if 'kbd' in o:
            interrupted(ctx, w, f, o['kbd'] * 4)
        else:
            f()


def hash_bit(t, a):
    return (sum(map(ord, t)) >> (a % 5)) & 1
