"""A second process with another hash seed, running the same code; it loads, unpickles and answers.

The server starts it when this module is imported; the children of the server take turns talking to it.
Every request starts on a new line and carries a token, so that a child that ended in mid-sentence confuses nobody.
"""
import base64
import json
import os
import pickle
import subprocess
import sys


def load(mk, req):
    cls = mk.GrantCollection if req['kind'] == 'grants' else mk.RecordCollection
    os.chdir(req['cwd'])
    return cls(req['path'], extension=req.get('ext', ''), cached=bool(req.get('cached')))


def outcome(fn, base):
    from . import common
    try:
        return 'ok', fn()
    except Exception as e:      # noqa
        return 'raise', strip('{}: {}'.format(type(e).__name__, e), base)


def strip(v, base):
    """A canonical view without the place the files were in."""
    if isinstance(v, str):
        for b in base:
            v = v.replace(b, '@')
        return v
    if isinstance(v, list):
        return [strip(x, base) for x in v]
    if isinstance(v, dict):
        return {strip(str(k), base): strip(x, base) for k, x in v.items()}
    return v


def view(C, base, name=True):
    from . import common
    d = common.dump_collection(C)
    if not name:
        d['name'] = None
    d['types'] = sorted(C._collectedTypes)
    d['sources'] = sorted([str(R.id), str(getattr(R, '_sourceFile', getattr(R, 'sourceFile', None))), str(getattr(R, '_sourceLine', None))] for R in C)
    return strip(d, base)


def meet(L, P):
    """What is wrong when a collection loaded here meets one that came from somewhere else; None if nothing."""
    if len(L) != len(P):
        return 'it has {} entries, not {}'.format(len(P), len(L))
    if not L == P or L != P or not P == L:
        return 'the collections are not equal'
    if len(L | P) != len(L) or len(L & P) != len(L) or len(L - P) or len(L ^ P) or not L <= P or not P <= L:
        return 'the operators see different entries: {} in both, {} in one, {} together'.format(len(L & P), len(L ^ P), len(L | P))
    for R in P:
        if R not in L:
            return '{} is not found in the collection'.format(R.id)
        if not R.bad:
            if not L.containsID(R.id):
                return 'the id {} is not found in the collection'.format(R.id)
            H = L.getID(R.id)
            if H is None or H != R or not R == H or hash(H) != hash(R):
                return '{} is not equal to the one found under its id'.format(R.id)
            try:
                a, b = H.get('citations'), R.get('citations')
            except Exception:       # noqa
                continue
            if a and b and (list(a) != list(b) or set(a) != set(b) or len(set(a) | set(b)) != len(set(a))):
                return 'the citations of {} are not equal: {} / {}'.format(R.id, list(map(str, a))[:4], list(map(str, b))[:4])
    return None


def answer(mk, req):
    out = {}
    base = req['base']
    k, L = outcome(lambda: load(mk, req), base)
    out['load'] = [k, view(L, base) if k == 'ok' else L]
    if k == 'ok':
        if req.get('use'):
            use(L)
        out['pickle'] = base64.b64encode(pickle.dumps(L, req.get('proto'))).decode()
        out['singles'] = [base64.b64encode(pickle.dumps(R, req.get('proto'))).decode() for R in sorted(L, key=lambda R: str(R.id))[:3]]
        out['after'] = view(L, base)
    if req.get('pickle'):
        P = pickle.loads(base64.b64decode(req['pickle']))
        out['theirs'] = view(P, base)
        if k == 'ok':
            out['met'] = meet(L, P)
            out['singles-met'] = singles(L, req.get('singles') or [])
    return out


def singles(L, pickles):
    for p in pickles:
        R = pickle.loads(base64.b64decode(p))
        if R not in L or not R.bad and L.getID(R.id) != R:
            return '{} is not found in the collection'.format(R.id)
    return None


def use(C):
    """Ask something of every entry, so that what it keeps for later questions is there."""
    for R in C:
        hash(R)
        for ask in (lambda: [(hash(c), c.ID()) for c in (R.get('citations') or [])], lambda: R.get('authorsFull'), lambda: R.get('year'), lambda: list(R.items())):
            try:
                ask()
            except Exception:       # noqa
                # fields of damaged files may be anything
                pass


def serve(code):
    sys.path.insert(0, code)
    import metaknowledge as mk
    mk.VERBOSE_MODE = False
    assert mk.__file__.startswith(code + os.sep)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        try:
            req = json.loads(line)
        except ValueError:
            continue
        try:
            res = answer(mk, req)
        except BaseException as e:      # noqa
            import traceback
            res = {'failed': '{}: {}'.format(type(e).__name__, e), 'where': traceback.format_exc()[-1500:]}
        try:
            os.chdir('/')
        except OSError:
            pass
        res['token'] = req.get('token')
        out.write(json.dumps(res) + '\n')
        out.flush()


class Peer:
    def __init__(self, code):
        env = dict(os.environ, PYTHONHASHSEED=str(int(os.environ.get('PYTHONHASHSEED', '0')) + 7))
        self.p = subprocess.Popen([sys.executable, '-m', 'sim.peer', code], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        self.n = 0

    def ask(self, req):
        self.n += 1
        req = dict(req, token='{}-{}'.format(os.getpid(), self.n))
        data = ('\n' + json.dumps(req) + '\n').encode()
        fd = self.p.stdin.fileno()
        while data:
            data = data[os.write(fd, data):]
        buf = b''
        while True:
            b = os.read(self.p.stdout.fileno(), 1 << 16)
            if not b:
                return {'failed': 'the other process ended'}
            buf += b
            while b'\n' in buf:
                line, _, buf = buf.partition(b'\n')
                try:
                    res = json.loads(line)
                except ValueError:
                    continue
                if res.get('token') == req['token']:
                    return res


PEER = None
if __name__ == '__main__':
    serve(sys.argv[1])
elif len(sys.argv) > 3 and os.path.basename(sys.argv[0]) in ('engine.py', '-m'):
    PEER = Peer(sys.argv[3])
