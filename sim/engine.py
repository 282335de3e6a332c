"""One simulated run: executes a scenario in a forked child and reports what happened as JSON."""
import gc
import hashlib
import importlib
import json
import os
import resource
import select
import shutil
import signal
import sys
import time as _time
import traceback
import warnings
from collections import Counter

from . import seams
from .seams import Violation, HarnessError, SimCrash, Budget, World

SIM_DIR = os.path.dirname(os.path.abspath(__file__))


class Ctx:
    """What a property module works with during one run."""

    def __init__(self, slot, code, root, seed):
        self.slot, self.code, self.root, self.seed = slot, code, root, seed
        self.worlds = []
        self.notes = Counter()          # named coverage counters ("probes")
        self.observed = []              # canonical observations, compared across processes when CROSS
        self.digest = hashlib.sha256()
        self.active = False             # something nontrivial happened
        self.scheds = []
        self.states = set()

    @property
    def mk(self):
        import metaknowledge
        return metaknowledge

    def fresh_root(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)

    def world(self, conf=None, **kw):
        conf = dict(conf or {})
        listing = conf.pop('listing', None)
        args = {}
        for k in ('bufsize', 'io_chunk', 'text_chunk', 'mtime_gran', 'start_time', 'locale_encoding', 'step_budget', 'tty'):
            if k in conf:
                args[k] = conf[k]
        args.update(kw)
        if 'tty' in args and isinstance(args['tty'], list):
            args['tty'] = tuple(args['tty'])
        w = World(self.root, faults=conf.get('faults', ()), **args)
        if listing is not None and 'listing' not in kw:
            w.listing = lambda names, key=listing: permuted(names, key)
        self.worlds.append(w)
        return w

    def note(self, name, n=1):
        self.notes[name] += n

    def state(self, *key):
        """A distinct abstract state reached (coverage measure)."""
        if len(self.states) < 400:
            self.states.add(hashlib.md5(repr(key).encode('utf-8', 'backslashreplace')).hexdigest()[:12])

    def observe(self, label, value):
        v = json.dumps(value, sort_keys=True, ensure_ascii=True, default=repr)
        self.digest.update((label + '=' + v + '\n').encode())
        self.observed.append([label, v if len(v) < 4000 else hashlib.sha256(v.encode()).hexdigest() + ':' + v[:600]])

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def check(self, cond, cls, msg):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)


def permuted(names, key):
    """A listing order that is a pure function of the names and an integer."""
    return sorted(names, key=lambda n: hashlib.md5('{}/{}'.format(key, n).encode('utf-8', 'backslashreplace')).digest())


def clip(v, n=600):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + '...'


def execute(module, scenario, slot, code):
    """Run in the forked child.  Returns the result dictionary."""
    root = os.path.join(slot, 'd') if getattr(module, 'ROOT', 'd') == 'd' else slot
    ctx = Ctx(slot, code, root, scenario.get('seed'))
    res = {'status': 'ok'}
    prefix = code + os.sep
    try:
        os.makedirs(os.path.join(slot, 'd'), exist_ok=True)
        for f in os.listdir(os.path.join(slot, 'd')):
            p = os.path.join(slot, 'd', f)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.remove(p)
        os.chdir(os.path.join(slot, 'd'))
        module.run(ctx, scenario)
    except Violation as e:
        res = {'status': 'violation', 'cls': e.cls, 'msg': clip(e.msg, 1500)}
    except Budget as e:
        res = {'status': 'violation', 'cls': 'no-progress', 'msg': str(e)}
    except HarnessError as e:
        res = {'status': 'harness', 'msg': '{}\n{}'.format(e, clip(traceback.format_exc(), 3000))}
    except MemoryError:
        res = {'status': 'violation', 'cls': 'out-of-memory', 'msg': clip(traceback.format_exc(), 1500)}
    except BaseException as e:                      # noqa
        tb = e.__traceback__
        inside = False
        where = ''
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(prefix):
                inside = True
                where = '{}:{}'.format(fn[len(prefix):], tb.tb_lineno)
            tb = tb.tb_next
        text = clip(''.join(traceback.format_exception_only(type(e), e)).strip(), 600)
        if isinstance(e, SimCrash):
            res = {'status': 'harness', 'msg': traceback.format_exc()[-3000:]}
        elif inside:
            res = {'status': 'violation', 'cls': 'unexpected-' + type(e).__name__, 'msg': '{} (at {})\n{}'.format(text, where, traceback.format_exc()[-1800:])}
        else:
            # the code under test handed back something the oracle cannot even look at
            res = {'status': 'violation', 'cls': 'oracle-' + type(e).__name__, 'msg': '{}\n{}'.format(text, traceback.format_exc()[-1800:])}
    finally:
        seams.ACTIVE = None
        sys.settrace(None)
    fired, counts, sim, steps = Counter(), Counter(), 0.0, 0
    for w in ctx.worlds:
        fired.update(w.fired)
        counts.update(w.counts)
        sim += w.sim_elapsed
        steps += w.steps
        ctx.digest.update(w.digest.digest())
        if w.sched is not None:
            ctx.notes['scheduling points'] += w.sched.points
            ctx.notes['task switches'] += w.sched.switch_count
            if w.sched.switch_count:
                ctx.state('sched', w.sched.trace_sig[:60])
    d = ctx.digest.hexdigest()
    res.update({'digest': d, 'fired': dict(fired), 'ops': dict(counts), 'sim': sim, 'steps': steps, 'notes': dict(ctx.notes),
                'active': bool(ctx.active or fired or ctx.notes.get('task switches')), 'states': sorted(ctx.states)})
    if getattr(module, 'CROSS', False):
        res['observed'] = ctx.observed
    if res['status'] != 'ok' or scenario.get('_log'):
        res['log'] = [l for w in ctx.worlds for l in w.log[-60:]][-80:]
    return res


def forked(module, scenario, slot, code, timeout):
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setsid()
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            warnings.simplefilter('ignore')
            try:
                out = json.dumps(execute(module, scenario, slot, code))
            except BaseException:                           # noqa
                out = json.dumps({'status': 'harness', 'msg': traceback.format_exc()[-3000:]})
            data = out.encode()
            view = memoryview(data)
            while view:
                n = os.write(wfd, view)
                view = view[n:]
        finally:
            os._exit(0)
    os.close(wfd)
    chunks = []
    deadline = seams.REAL['monotonic']() + timeout
    hung = False
    while True:
        left = deadline - seams.REAL['monotonic']()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            hung = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    if hung:
        return {'status': 'hang', 'msg': 'no answer within {} s'.format(timeout)}
    data = b''.join(chunks)
    if not data:
        return {'status': 'violation', 'cls': 'died', 'msg': 'the process ended without a result (status {})'.format(st), 'digest': '', 'fired': {},
                'ops': {}, 'sim': 0, 'steps': 0, 'notes': {}, 'active': True, 'states': []}
    return json.loads(data)


def serve(prop, slot, code):
    """Server: reads one JSON request per line, answers one JSON line each."""
    out = os.fdopen(os.dup(1), 'w')
    sys.path.insert(0, code)
    real_out = seams.REAL['stdout']
    os.dup2(2, 1)
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    module = importlib.import_module('sim.props.' + prop.lower())
    try:
        import metaknowledge
        if not metaknowledge.__file__.startswith(code + os.sep):
            raise HarnessError('imported the wrong metaknowledge: ' + metaknowledge.__file__)
        import metaknowledge.WOS, metaknowledge.medline, metaknowledge.proquest, metaknowledge.scopus, metaknowledge.grants  # noqa
        import metaknowledge.bin, metaknowledge.journalAbbreviations.backend, metaknowledge.genders.nameGender, metaknowledge.progressBar  # noqa
        for extra in getattr(module, 'PRELOAD', ()):
            importlib.import_module(extra)
        boot = None
    except BaseException as e:      # noqa
        boot = {'status': 'import', 'msg': traceback.format_exc()[-2000:], 'inside': not isinstance(e, HarnessError)}
    gc.freeze()
    out.write(json.dumps({'ready': boot is None, 'boot': boot}) + '\n')
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        if req.get('quit'):
            break
        if boot is not None:
            res = boot
        else:
            res = forked(module, req['scenario'], slot, code, req.get('timeout', 30))
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    serve(sys.argv[1], sys.argv[2], sys.argv[3])
