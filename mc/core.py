"""Driver shared by all checks.

A check is a module mc.checks.<id lower> that defines

    LEVEL, RULE, ASSUMPTIONS
    shards(tier)        -> list of picklable work items; together they enumerate the bounded space of the check
    run(item, rep)      -> explores one work item completely and reports to the Rep object

The driver runs all work items in worker processes, merges what they covered, compares the violations with the
committed list of known findings and writes evidence/<id>.json.
"""
import ast, contextlib, importlib, io, json, multiprocessing, multiprocessing.connection, os, re, resource, signal, sys, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')
SRC = os.environ.get('FSC_SRC', '/repo/src')


MEMORY = int(float(os.environ.get('MC_MEMORY_GB', '2.5')) * 2 ** 30)   # address space of one worker
AFTER_S = float(os.environ.get('MC_AFTER', '60'))                         # time left for the rest of the space after a violation
GUARD_S = float(os.environ.get('MC_GUARD_S', '60'))                     # processor time of one behaviour on the implementation


class NoAnswer(BaseException):
    """One behaviour took GUARD_S seconds of processor time: the code under test does not come to an end."""


def _alarm(signum, frame):
    raise NoAnswer('no result after %g s of processor time' % GUARD_S)


class EndOfItem(BaseException):
    """Leaves a work item whose verdict is known and that would take long."""


class CodeFailure(Exception):
    """The code under test raised an exception (or returned something unusable) where it must answer."""


class Rep:
    """What one work item covered. Model states are identified by a hashable key."""
    MAXV = 20

    def __init__(self, prop):
        self.prop = prop
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.nviol = 0
        self.samples = []
        self.extra = {}
        self.longest = 0
        self.first = None       # time of the first violation that is not a known finding
        self.known = [k for k, _ in known_findings(prop)]

    def state(self, key):
        """register a model state, returns True if new"""
        h = hash(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, sample=None):
        """one behaviour of the model was executed on the implementation and compared"""
        self.traces += 1
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def violation(self, key, case, detail):
        """key identifies the kind of failure and its input (matched against the known findings)"""
        self.nviol += 1
        if self.first is None and key not in self.known:
            self.first = time.time()
        if len(self.violations) < self.MAXV or not any(v['key'] == key for v in self.violations):
            if len(self.violations) < 400:
                self.violations.append({'key': key, 'case': case, 'detail': str(detail)[:1500]})

    def guard(self, key, case):
        return _Guard(self, key, case)


class _Guard:
    """context manager: an exception raised inside the code under test is a violation, one raised in the harness is an error"""
    busy = multiprocessing.RawValue('d', 0)     # since when a behaviour is being executed, shared with the driver

    def __init__(self, rep, key, case):
        self.rep, self.key, self.case = rep, key, case

    def __enter__(self):
        _Guard.busy.value = time.monotonic()
        # the timer repeats, as the code under test may swallow the exception with a bare except
        self.t = time.process_time()
        self.outer = signal.setitimer(signal.ITIMER_PROF, GUARD_S, 1.0)
        return self

    def __exit__(self, et, ev, tb):
        _Guard.busy.value = 0
        signal.setitimer(signal.ITIMER_PROF, *self.outer)
        self.rep.longest = max(self.rep.longest, time.process_time() - self.t)
        if et is NoAnswer:
            self.rep.violation(self.key, self.case, ev)
            raise EndOfItem()
        if self.rep.first and time.time() - self.rep.first > AFTER_S / 2:
            raise EndOfItem()
        if et is None:
            return False
        if et is CodeFailure:
            self.rep.violation(self.key, self.case, ev)
            return True
        if not issubclass(et, Exception):
            return False
        frames = traceback.extract_tb(tb)
        if any(os.path.realpath(f.filename).startswith(os.path.realpath(SRC)) for f in frames):
            self.rep.violation(self.key, self.case, 'exception in the code under test: ' +
                               ''.join(traceback.format_exception(et, ev, tb)[-4:]))
            return True
        return False


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, complex):
        return [x.real, x.imag]
    if hasattr(x, 'tolist'):
        return jsonable(x.tolist())
    return repr(x)


def _work(arg):
    prop, item = arg
    mod = importlib.import_module('mc.checks.' + prop.lower())
    rep = Rep(prop)
    t = time.time()
    err = None
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.run(item, rep)
    except EndOfItem:
        pass
    except (MemoryError, OSError, ImportError):
        err = 'item %r\n%s' % (item, traceback.format_exc())
    except Exception:
        # the code under test raised where it must answer, or answered something that cannot be interpreted
        # (unparsable component names, missing entries, wrong types ...); never happens on conforming code
        rep.violation('uninterpretable', dict(item=item), traceback.format_exc()[-1200:])
    for v in rep.violations:
        v['item'] = repr(item)
    if os.environ.get('MC_PRINT'):
        sys.stderr.write(out.getvalue())
    return dict(states=rep.states, transitions=rep.transitions, traces=rep.traces, violations=rep.violations,
                nviol=rep.nviol, samples=jsonable(rep.samples), extra=rep.extra, err=err, item=repr(item)[:100], t=time.time() - t,
                rss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024, longest=rep.longest)


def _worker(conn, prop, busy):
    """worker process: receives items, sends back what they covered"""
    _Guard.busy = busy
    signal.signal(signal.SIGPROF, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    while True:
        item = conn.recv()
        if item is None:
            return
        conn.send(_work((prop, item)))


class _Workers:
    """runs all items in worker processes; a worker that dies is replaced and its item reported"""
    def __init__(self, prop, n):
        self.prop, self.n = prop, n
        self.ctx = multiprocessing.get_context('fork')

    def spawn(self):
        a, b = self.ctx.Pipe()
        since = multiprocessing.RawValue('d', 0)
        p = self.ctx.Process(target=_worker, args=(b, self.prop, since), daemon=True)
        p.start()
        p.since, p.stuck = since, False
        b.close()
        return a, p

    def run(self, items):
        todo, busy = list(items)[::-1], {}
        try:
            for _ in range(min(self.n, len(todo))):
                a, p = self.spawn()
                item = todo.pop()
                a.send(item)
                busy[a] = (p, item)
            while busy:
                ready = multiprocessing.connection.wait(list(busy), 5)
                for p, item in busy.values():
                    # a call into a library that does not return cannot be interrupted by the timer of the worker
                    since = p.since.value
                    if since and time.monotonic() - since > 4 * GUARD_S:
                        p.stuck = True
                        p.kill()
                if not ready:
                    yield None
                for a in ready:
                    p, item = busy.pop(a)
                    try:
                        res = a.recv()
                    except (EOFError, OSError):
                        p.join()
                        vs = [dict(key='no-answer', case=dict(item=item), detail='one behaviour did not come to an end in %g s' % (4 * GUARD_S))] if p.stuck else []
                        res = dict(states=set(), transitions=0, traces=0, violations=vs, nviol=len(vs), samples=[], extra={}, item=repr(item)[:100], t=0, rss=0, longest=0,
                                   err=None if vs else 'item %r: worker ended with exit code %r' % (item, p.exitcode))
                        a.close()
                        a, p = self.spawn()
                    yield res
                    if todo:
                        item = todo.pop()
                        a.send(item)
                        busy[a] = (p, item)
                    else:
                        a.send(None)
                        p.join()
        finally:
            for p, item in busy.values():
                p.kill()


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main(argv):
    if argv[:1] == ['--replay']:
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    # the package under test is imported before forking so that workers share it
    import fock_state_circuit
    assert os.path.realpath(fock_state_circuit.__file__).startswith(os.path.realpath(SRC)), fock_state_circuit.__file__
    mod = importlib.import_module('mc.checks.' + prop.lower())
    items = mod.shards(tier)
    workers = int(os.environ.get('MC_WORKERS', '8'))
    states, transitions, traces, nviol = set(), 0, 0, 0
    violations, samples, extra, errs, slow = [], [], {}, [], []
    known = known_findings(prop)
    first = None
    for r in _Workers(prop, workers).run(items):
        if first is not None and time.time() - first >= AFTER_S:
            extra['stopped_after_violation'] = True
            break
        if r is None:
            continue
        states |= r['states']
        transitions += r['transitions']
        traces += r['traces']
        nviol += r['nviol']
        violations += r['violations']
        if len(samples) < 4:
            samples += r['samples'][:4 - len(samples)]
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
        if r['err']:
            errs.append(r['err'])
        slow.append((r['t'], r['item'], r['rss'], r['longest']))
        # the verdict is known after the first violation: do not wait for code that became very slow or does not end
        if first is None and any(v['key'] not in [k for k, _ in known] for v in r['violations']):
            first = time.time()
    wall = time.time() - t0
    new, seen_known = [], {}
    for v in violations:
        for k, text in known:
            if k == v['key']:
                seen_known[k] = text
                break
        else:
            new.append(v)
    for k, text in known:
        # every listed finding is announced on every run
        print('KNOWN-FINDING: property=%s %s%s' % (prop, text, '' if k in seen_known else ' (not reproduced in this run)'))
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(states=len(states), transitions=transitions, traces_validated_against_impl=traces,
                            work_items=len(items), rule=mod.RULE, samples=samples, exhaustive=True,
                            known_findings_reproduced=len(seen_known), **extra),
              assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(jsonable(ev), f, indent=1)
    if os.environ.get('MC_VERBOSE'):
        for t, i, m, l in sorted(slow)[-5:]:
            print('  slow %.1fs %s' % (t, i))
        print('  largest worker %d MB, longest behaviour %.1f s' % (max(x[2] for x in slow), max(x[3] for x in slow)))
    print('%s %s: %d model states, %d transitions, %d traces on the implementation, %d work items, %.1f s' % (
        prop, tier, len(states), transitions, traces, len(items), wall))
    if new:
        keys = []
        for v in new:
            if v['key'] not in keys:
                keys.append(v['key'])
        for n, k in enumerate(keys[:10]):
            v = next(x for x in new if x['key'] == k)
            path = os.path.join(VERIF, 'evidence', 'replay-%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(jsonable(dict(property=prop, **v)), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   %s: %s' % (k, v['detail'][:400]))
            print('   case: %s' % (json.dumps(jsonable(v['case']))[:600]))
        return 1
    if errs:
        print('ERROR in the check itself:\n' + errs[0])
        return 2
    return 0


def replay(path):
    """explores the work item that contains the recorded behaviour again"""
    v = json.load(open(path))
    print(json.dumps({k: v[k] for k in v if k != 'item'}, indent=1))
    signal.signal(signal.SIGPROF, _alarm)
    r = _work((v['property'], ast.literal_eval(v['item'])))
    same = [x for x in r['violations'] if x['key'] == v['key'] and jsonable(x['case']) == v['case']]
    print('reproduced' if same else 'not reproduced, %d other violations' % r['nviol'])
    for x in same[:1]:
        print(x['detail'])
    return 1 if same else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
