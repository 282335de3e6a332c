"""P12: the journal abbreviation databases survive crashes and failed downloads, and lookups follow them."""
import functools
import http.client
import io
import os
import shutil
import string
import sys
import urllib.error

from .. import common
from ..common import pick
from ..sched import Scheduler
from ..seams import SimCrash, HarnessError, Budget

RUNS = {'quick': 15000, 'thorough': 120000}
CAP = {'quick': 100, 'thorough': 800}
ROOT = 'slot'
REAL = 'journalAbbreviations (adding, excluding, downloading, reading), journal lookups of Citation, filterNonJournals, dbm.dumb, shutil'
STUB = 'disk (real bytes, simulated calls, failures and power loss), network (a simulated site of 27 pages with failures), process restart (module state put back)'
STATE_MEASURE = '(what was there before, operation, kind of fault and the call it struck, how it ended, kind of power loss)'

J = ['J APPL PHYS', 'OPT COMMUN', 'A', "O'NEIL J", 'Z PHYS', 'UEBERS Ü', 'BOOK', 'SAY "X"', 'B\\C', 'LONG ' * 130, 'NEW\nLINE', 'W0', 'W1', 'W2', 'WA', 'WZ', 'WSHARED']
NAMES = ['Journal of Applied Physics', 'Optics|Optics Communications', '', 'Zeitschrift für Physik', 'X' * 600, '|', 'a|', 'A', 'é|中']
PAGES = ['0-9'] + list(string.ascii_uppercase)
ERR = ['EIO', 'EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'kbd']
NETERR = ['down', 'http', 'cut', 'reset', 'timeout', 'garbage', 'nothing']
OPS = ['*', 'write', 'open_w', 'close_w', 'rename', 'fsync', 'open_r', 'read', 'rename|remove', 'open_w|write|close_w|rename', 'remove']


def gen_step(rng):
    x = rng.random()
    db = pick(rng, [1, 1, 1, 0, 2])
    if x < .22:
        kind = pick(rng, ['str', 'dict', 'dict', 'dict', 'none', 'bad', 'badvalue'])
        return {'do': 'add', 'db': db, 'how': kind, 'j': [rng.randrange(len(J)) for _ in range(rng.choice([1, 1, 2, 4, 8]))], 'v': [rng.randrange(len(NAMES)) for _ in range(8)]}
    if x < .34:
        return {'do': 'exclude', 'db': db, 'how': pick(rng, ['str', 'list', 'tuple', 'none', 'bad', 'badvalue']), 'j': [rng.randrange(len(J)) for _ in range(rng.choice([1, 1, 2, 4]))]}
    if x < .46:
        return {'do': 'cite', 'db': db, 'j': rng.randrange(len(J)), 'name': pick(rng, [None, None] + list(range(len(NAMES)))), 'invert': rng.random() < .35}
    if x < .58:
        return {'do': 'update', 'db': pick(rng, [0, 0, 0, 1]), 'v': rng.randrange(4), 'raw': rng.random() < .1, 'net': [pick(rng, NETERR), rng.randrange(54 if rng.random() < .2 else 27)] if rng.random() < .35 else None}
    if x < .68:
        return {'do': 'look', 'db': [pick(rng, [0, 0, 0, 2]), pick(rng, [1, 1, 2])], 'ret': pick(rng, ['both', 'both', 'WOS', 'manual']), 'v': rng.randrange(4), 'net': [pick(rng, NETERR), rng.randrange(27)] if rng.random() < .4 else None}
    if x < .9:
        return {'do': 'is', 'db': [pick(rng, [0, 0, 0, 2]), pick(rng, [1, 1, 2])], 'ret': pick(rng, ['both', 'both', 'both', 'WOS', 'manual']), 'j': [rng.randrange(len(J)) for _ in range(3)], 'how': pick(rng, ['is', 'is', 'excl', 'full', 'filter', 'filterinv']),
                'v': rng.randrange(4), 'net': [pick(rng, NETERR), rng.randrange(27)] if rng.random() < .3 else None}
    return {'do': 'restart'}


def gen(rng, i, tier):
    sc = {'world': common.world_conf(rng, step_budget=200000), 'start': [None if rng.random() < .4 else [[rng.randrange(len(J)), rng.randrange(len(NAMES))] for _ in range(rng.choice([0, 1, 3, 8]))] for _ in range(3)]}
    sc['steps'] = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
        st = gen_step(rng)
        x = rng.random()
        if st['do'] == 'restart':
            st['loss'] = [pick(rng, ['old', 'prefix', 'gone', 'full', 'prefix']), rng.random()] if x < .5 else None
        elif x < .22:
            st['fault'] = {'op': pick(rng, OPS), 'n': int(rng.random() ** 2 * 40), 'kind': pick(rng, ERR), 'sticky': rng.random() < .2}
        elif x < .27:
            st['fault'] = {'op': 'call', 'n': 1 + int(rng.random() ** 2 * 40), 'where': pick(rng, ['mk', 'dbm']), 'kind': 'kbd'}
        elif x < .5:
            st['fault'] = {'op': pick(rng, OPS[:1] + OPS), 'n': int(rng.random() ** 2 * 60), 'kind': 'crash', 'loss': [pick(rng, ['old', 'prefix', 'gone', 'full', 'prefix']), pick(rng, [0, .3, .5, .9, rng.random()])]}
        sc['steps'].append(st)
    return sc


# ------------------------------------------------------------------------------- a process starts anew
class Process:
    """The state of the modules at import, to start a new process in this one."""

    def __init__(self):
        self.mods = {}
        for name, mod in list(sys.modules.items()):
            if name == 'metaknowledge' or name.startswith('metaknowledge.'):
                self.mods[mod] = {k: (v, self.copy(v)) for k, v in vars(mod).items() if not k.startswith('__')}

    @staticmethod
    def copy(v):
        return v.copy() if type(v) in (dict, list, set) else None

    def restart(self):
        for mod, was in self.mods.items():
            for k in [k for k in vars(mod) if not k.startswith('__') and k not in was]:
                delattr(mod, k)
            for k, (v, c) in was.items():
                if type(v) in (dict, set):
                    v.clear()
                    v.update(c)
                elif type(v) is list:
                    v[:] = c
                elif isinstance(v, functools._lru_cache_wrapper):
                    v.cache_clear()
                setattr(mod, k, v)


# ------------------------------------------------------------------------------- the site
def listing(v):
    """The pages of a version of the list: [(abbreviation, name)] by page."""
    pages = {}
    for n, p in enumerate(PAGES):
        e = [('W' + p[0], 'Journal {} v{}'.format(p, v % 2))]
        if (n + v) % 3 == 0:
            e.append(('WSHARED', 'Shared {}'.format(n)))
        if (n + v) % 4 == 0:
            e += [('W' + p[0], 'Second name of {}'.format(p)), (J[(n + v) % 6], 'Listed {}'.format(n))]
        if n % 5 == v:
            e += [('W{}X{}'.format(p[0], k), 'Ñame {} of {}'.format(k, p)) for k in range(4)]
        pages[p] = e
    return pages


def page(entries):
    out = '<HTML>\n<HEAD><TITLE>Journal</TITLE></HEAD>\n<BODY>\n<DL>\n'
    for n, (a, name) in enumerate(entries):
        out += ('<A NAME="x"></A><DT>' if n == 0 else '</B><DT>') + name + '\n<B><DD>\t' + a + '\n'
    return (out + '</B></DL>\n</BODY>\n</HTML>\n').encode('utf-8')


def downloaded(v):
    out = {}
    for p in PAGES:
        for a, name in listing(v)[p]:
            out.setdefault(a, []).append(name)
    return out


class Reply(io.BytesIO):
    def __init__(self, data, fail=None):
        super().__init__(data)
        self.fail = fail

    def read(self, *a):
        if self.fail == 'cut':
            raise http.client.IncompleteRead(super().read()[:40], 5000)
        if self.fail == 'reset':
            raise ConnectionResetError(104, 'Connection reset by peer')
        if self.fail == 'timeout':
            raise TimeoutError('timed out')
        return super().read(*a)


class Site:
    def __init__(self, w, v, err):
        self.w, self.pages, self.err, self.asked = w, listing(v), err if isinstance(err, list) and len(err) == 2 else None, 0

    def __call__(self, url):
        name = url.rsplit('/', 1)[1][:-len('_abrvjt.html')]
        if name not in self.pages:
            raise HarnessError('no page {}'.format(url))
        n, self.asked = self.asked, self.asked + 1
        fail = self.err[0] if self.err and n == self.err[1] else None
        if fail:
            self.w.fired['net:' + fail] += 1
            self.w.fired_list.append({'op': 'net', 'kind': fail, 'rel': url, 'n': n})
            self.w.event('FAULT net', fail, n)
        if fail == 'down':
            raise urllib.error.URLError('no route to host')
        if fail == 'http':
            raise urllib.error.HTTPError(url, 503, 'Service Unavailable', {}, None)
        if fail == 'garbage':
            return Reply(b'<html>moved</html>\n')
        if fail == 'nothing':
            return Reply(page([]))
        return Reply(page(self.pages[name]), fail)


def down(url):
    raise urllib.error.URLError('no network')


# ------------------------------------------------------------------------------- the model
def merge(old, lst):
    new = dict(old or {})
    for k, v in lst.items():
        if k in new:
            have = new[k].split('|')
            add = [x for x in v if x not in have]
            if add:
                new[k] = '|'.join(have + add)
        else:
            new[k] = '|'.join(v)
    return new


def table(model, dbs, st):
    """What a lookup gives, and the databases afterwards: None when it has to fail."""
    dbs, ret = [dbs[0], dbs[1]], st['ret']
    new = dict(model)
    out = {}
    ok = not (isinstance(st.get('net'), list) and len(st['net']) == 2)
    if ret in ('both', 'WOS'):
        if not new[dbs[0]]:
            if not ok:
                return None, new
            new[dbs[0]] = merge(new[dbs[0]], downloaded(st['v']))
        out.update(new[dbs[0]])
    if ret in ('both', 'manual'):
        if new[dbs[1]] is None and ret == 'manual':
            if not ok:
                return None, new
            new[dbs[1]] = merge(None, downloaded(st['v']))
        out.update(new[dbs[1]] or {})
    return {k: v.split('|') for k, v in out.items()}, new


def run(ctx, sc):
    mk = ctx.mk
    ja = mk.journalAbbreviations
    names = [ja.abrevDBname, ja.manualDBname, 'm2']
    here = os.path.dirname(ja.__file__)
    for f in os.listdir(here):
        p = os.path.join(here, f)
        if f == 'j9Raws':
            shutil.rmtree(p)
        elif not f.endswith('.py') and f != '__pycache__':
            os.remove(p)
    proc = Process()
    w = ctx.world(sc['world'], tty=None)
    w.net = down
    model = {0: None, 1: None, 2: None}
    from metaknowledge.journalAbbreviations import backend

    def held(n):
        """What a fresh process finds in a database."""
        net, w.net = w.net, down
        try:
            d = ja.getj9dict(dbname=names[n], manualDB='none at all', returnDict='WOS')
        except (urllib.error.URLError, mk.mkExceptions.JournalDataBaseError):
            return None
        finally:
            w.net = net
        return {k: '|'.join(v) for k, v in d.items()}

    def same(a, b):
        return (a or None) == (b or None)

    with w:
        for n, start in enumerate(sc['start'][:3]):
            if start is not None:
                d = {J[a % len(J)]: NAMES[b % len(NAMES)] for a, b in start}
                ja.addToDB(d, dbname=names[n])
                model[n] = d
        w.settle()
        proc.restart()
        for si, st in enumerate(sc['steps']):
            new, want, fn, res = dict(model), None, None, None
            must_fail = False
            do = st['do']
            w.net = Site(w, st['v'] if isinstance(st.get('v'), int) else 0, st.get('net'))
            if do == 'restart':
                if isinstance(st.get('loss'), list):
                    w.power_cycle(st['loss'][0], st['loss'][1])
                    ctx.note('power losses')
                proc.restart()
                ctx.note('new sessions')
            elif do in ('add', 'exclude'):
                db, how = st['db'] % 3, st['how']
                ks = [J[j % len(J)] for j in st['j']] or [J[0]]
                if do == 'add':
                    vals = {k: NAMES[v % len(NAMES)] for k, v in zip(ks, st['v'] + [0] * 8)}
                    arg = {'str': ks[0], 'dict': vals, 'none': None, 'bad': 7, 'badvalue': dict(vals, zzz=7)}[how]
                    ch = {'str': {ks[0]: ks[0]}, 'dict': vals, 'none': {}}.get(how)
                    call = ja.addToDB
                else:
                    arg = {'str': ks[0], 'list': ks, 'tuple': tuple(ks), 'none': None, 'bad': 7, 'badvalue': ks + [[]]}[how]
                    ch = {'str': {ks[0]: ''}, 'list': {k: '' for k in ks}, 'tuple': {k: '' for k in ks}, 'none': {}}.get(how)
                    call = backend.excludeFromDB
                must_fail = ch is None
                if ch is not None:
                    new[db] = dict(model[db] or {}, **ch)

                def fn(call=call, arg=arg, db=db):
                    call(arg, dbname=names[db])
            elif do == 'cite':
                db, j = st['db'] % 3, J[st['j'] % len(J)]
                c = cite(mk, j)
                nm = None if st['name'] is None else NAMES[st['name'] % len(NAMES)]
                new[db] = dict(model[db] or {}, **{j: '' if st['invert'] else j if nm is None else nm})

                def fn(c=c, nm=nm, db=db, inv=st['invert']):
                    c.addToDB(manualName=nm, manualDB=names[db], invert=inv)
            elif do == 'update':
                db = st['db'] % 3
                must_fail = False
                if isinstance(st['net'], list) and len(st['net']) == 2:
                    # the pages saved as they are may be anything
                    k, at = st['net']
                    must_fail = at < 27 and not (st['raw'] and k in ('garbage', 'nothing')) or 27 <= at < 54 and bool(st['raw'])
                if not must_fail:
                    new[db] = merge(model[db], downloaded(st['v']))

                def fn(db=db, raw=st['raw']):
                    mk.updatej9DB(dbname=names[db], saveRawHTML=raw) if raw else mk.updatej9DB(dbname=names[db])
            elif do in ('look', 'is'):
                dbs = [st['db'][0] % 3, st['db'][1] % 3] if len(st['db']) == 2 else [0, 1]
                full = do == 'is' and st['how'] in ('full', 'filter', 'filterinv')
                if full:
                    st, dbs = dict(st, ret='both'), [0, 1]
                if dbs[0] == dbs[1]:
                    dbs = [0, 1]
                want, new = table(model, dbs, st)
                must_fail = want is None
                kw = {'dbname': names[dbs[0]], 'manualDB': names[dbs[1]], 'returnDict': st['ret']}
                if do == 'look':
                    def fn(kw=kw):
                        return ja.getj9dict(**kw)
                else:
                    want, fn = asked(mk, st, want, kw)
            else:
                raise HarnessError('unknown step {}'.format(do))
            ended = None
            if fn is not None:
                ended = perform(ctx, w, st, fn)
                what = 'step {} ({}{})'.format(si, do, '' if ended[0] == 'ok' else ', ' + describe(ended))
                if ended[0] == 'crash':
                    w.power_cycle(st['fault']['loss'][0], st['fault']['loss'][1])
                    ctx.note('power losses')
                    proc.restart()
                elif ended[0] == 'ok':
                    ctx.check(not must_fail, 'bad-accepted', lambda: '{}: {} was accepted (right: an error)'.format(what, {k: st[k] for k in st if k != 'fault'}))
                    if want is not None:
                        d = common.diff(ended[1], want, 'lookup')
                        ctx.check(d is None, 'lookup', lambda: '{} {}: {} (right: the databases)'.format(what, {k: st[k] for k in st if k != 'fault'}, d))
                        ctx.note('lookups compared')
                else:
                    hit = ended[2]
                    ctx.check(hit or must_fail, 'failed', lambda: '{}: no fault struck'.format(what))
            # nothing less than before, nothing but the change, all of it when it was reported as done
            for n in (0, 1, 2):
                got = held(n)
                done = ended is None or ended[0] == 'ok'
                right = [new[n]] if done else [model[n], new[n]]
                ctx.check(any(same(got, r) for r in right), 'database', lambda: 'after step {} ({}{}) the database {} holds {} (right: {})'.format(
                    si, do, '' if ended is None else ', ' + describe(ended), names[n], show(got, right[0]), ' or '.join(show(r, right[0]) for r in right)))
                if not got:
                    # empty or missing: the library tells these apart by the files
                    got = {} if os.path.exists(os.path.join(here, names[n] + '.dat')) and os.path.exists(os.path.join(here, names[n] + '.dir')) else None
                new[n] = got
            ctx.note('databases compared', 3)
            f = st.get('fault') or {}
            ctx.state(do, st.get('how'), [None if model[n] is None else min(2, len(model[n])) for n in range(3)], f.get('kind'), f.get('op'), ended and ended[0], f.get('loss', [None])[0], st.get('net') and st['net'][0])
            model = new


def describe(e):
    return e[0] if e[0] in ('ok', 'crash') else '{}: {}'.format(type(e[1]).__name__, common_clip(e[1]))


def common_clip(e):
    return str(e)[:200]


def show(d, ref):
    if d is None:
        return 'nothing'
    if len(d) <= 6:
        return repr(d)[:400]
    return '{} journals ({} of them as before)'.format(len(d), sum((ref or {}).get(k) == v for k, v in d.items()))


def cite(mk, j):
    c = mk.Citation('Someone A, 1999, X, V1, P1')
    c.journal = j
    return c


def asked(mk, st, tbl, kw):
    js = [J[j % len(J)] for j in st['j']]
    cs = [cite(mk, j) for j in js]
    how = st['how']
    get = (lambda j: tbl.get(j, [False])) if tbl is not None else None
    if how == 'is':
        return None if tbl is None else [get(j)[0] or False for j in js], lambda: [c.isJournal(**kw) for c in cs]
    if how == 'excl':
        return None if tbl is None else [j in tbl and tbl[j][0] == '' for j in js], lambda: [c.isJournal(checkIfExcluded=True, **kw) for c in cs]
    if how == 'full':
        return None if tbl is None else [get(j)[0] or None for j in js], lambda: [c.FullJournalName() for c in cs]
    inv = how == 'filterinv'
    return None if tbl is None else [j for j in js if bool(get(j)[0]) != inv], lambda: [c.journal for c in mk.filterNonJournals(cs, invert=inv)]


def perform(ctx, w, st, fn):
    """('ok', value) or ('raise', exception, whether a fault struck) or ('crash',)"""
    f = st.get('fault')
    n0 = len(w.fired_list)
    s = None
    if isinstance(f, dict):
        if f['op'] == 'call':
            import dbm.dumb
            s = Scheduler(w, (), line_prefix=os.path.join(ctx.code, 'metaknowledge') + os.sep if f['where'] == 'mk' else os.path.dirname(dbm.dumb.__file__) + os.sep)
            s.call_kbd = f['n']
        else:
            w.faults = [{k: f[k] for k in ('op', 'n', 'kind', 'sticky') if k in f}]
    fired0 = sum(w.fired.values())
    try:
        if s is not None:
            s.trace_on()
        try:
            r = fn()
        finally:
            if s is not None:
                s.trace_off()
                w.sched = None
            w.faults = []
    except SimCrash:
        return ('crash',)
    except (HarnessError, Budget):
        raise
    except BaseException as e:  # noqa
        if not isinstance(e, (Exception, KeyboardInterrupt)):
            raise
        return ('raise', e, sum(w.fired.values()) > fired0 or len(w.fired_list) > n0)
    if w.dead:
        return ('crash',)
    return ('ok', r)
