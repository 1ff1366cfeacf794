"""Runs TLC (offline, from the installed jars) and collects what it says."""
import itertools, json, os, re, shutil, subprocess, tempfile, threading, atexit

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class MachineryError(Exception):
    pass

_scratch = None
def scratch():
    """A private scratch directory, removed at exit."""
    global _scratch
    with _slock:
        return _make_scratch()

_slock = threading.Lock()
def _make_scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='kinisi-verif-')
        atexit.register(shutil.rmtree, _scratch, ignore_errors=True)
    return _scratch

_lock = threading.Lock()
_classes = None
def classes():
    """Compile the exact-rational override once per run."""
    global _classes
    with _lock:
        return _compile()

def _compile():
    global _classes
    if _classes is None:
        d = os.path.join(scratch(), 'classes')
        os.makedirs(d)
        r = subprocess.run(['javac', '-cp', JARS, '-d', d, os.path.join(SPEC, 'java', 'BigRat.java')],
                           capture_output=True, text=True)
        if r.returncode:
            raise MachineryError('javac failed: ' + r.stderr)
        _classes = d
    return _classes

LAST = {}
_count = itertools.count(1)
def run(module, cfg, env=None, workers=8, timeout=800, extra=(), heap='12g', partial=False):
    """Run TLC; returns (ok, output). ok is True when TLC finished without an error."""
    work = os.path.join(scratch(), f'tlc{next(_count)}')
    os.makedirs(work)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + heap, '-cp', f'{JARS}:{classes()}', 'tlc2.TLC',
           '-workers', str(workers), '-metadir', work, '-noGenerateSpecTE', '-config', cfg, *extra, module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        if partial:      # what it said so far
            return None, (x.stdout or b'').decode(errors='replace').rpartition('\n')[0]
        raise MachineryError(f'TLC timed out on {module}')
    shutil.rmtree(work, ignore_errors=True)
    return r.returncode == 0, r.stdout + r.stderr

def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if not m:
        return 0, 0
    return int(m[-1][1]), int(m[-1][0])

def printed(out):
    """JSON values printed with PrintT(ToJson(..))."""
    res = []
    for line in out.splitlines():
        if line.startswith('"[') or line.startswith('"{'):
            try:
                res.append(json.loads(json.loads(line)))
            except ValueError:
                raise MachineryError('unreadable TLC output: ' + line[:200])
    return res

def tail(out, n=40):
    lines = [l for l in out.splitlines() if not l.startswith('Loading ') and not l.startswith('Computed ')]
    return '\n'.join(lines[-n:])

def model_check(module, cfg=None, **kw):
    """Exhaustive check of a small model. Returns dict(states, transitions, printed)."""
    ok, out = run(module, cfg or module + '.cfg', **kw)
    if not ok or 'No error has been found' not in out:
        raise MachineryError(f'model {module} does not satisfy its invariants (specification error):\n' + tail(out))
    s, t = stats(out)
    return dict(module=module, cfg=cfg or module + '.cfg', states=s, transitions=t, printed=printed(out))

def validate(module, records, cfg='Trace.cfg', chunk=None, **kw):
    """Validate recorded cases. Returns ({id: (failed clauses, deviations)}, states, transitions)."""
    verdicts, states, trans = {}, 0, 0
    chunks = [records] if not chunk else [records[i:i + chunk] for i in range(0, len(records), chunk)]
    for part in chunks:
        if not part:
            continue
        path = os.path.join(scratch(), f'trace{next(_count)}.ndjson')
        with open(path, 'w') as f:
            for r in part:
                f.write(json.dumps(r) + '\n')
        ok, out = run(module, cfg, env={'KTRACE': path}, partial=True, **kw)
        if 'Parsing or semantic analysis failed' in out or 'Error: Could not find' in out:
            raise MachineryError(tail(out))
        got = {v[1]: (v[2], v[3] if len(v) > 3 else []) for v in printed(out) if v[0] == 'VERDICT'}
        missing = [r for r in part if r['id'] not in got]
        if ok is None:      # took too long: the verdicts there are count, and the others are missing
            for r in missing:
                got[r['id']] = ([], ['timed-out'])
            missing = []
        elif not ok or missing:
            # An observation of a form the specification does not even talk about makes TLC stop.  Find the
            # cases one by one; such a case has failed, anything else is an error of the machinery.
            if len(part) == 1:
                if 'OutOfMemory' in out or 'StackOverflow' in out or 'evaluat' not in out:
                    raise MachineryError(f'{module}: no verdict for case {part[0]["id"]}\n' + tail(out))
                LAST['malformed'] = tail(out, 25)
                got = {part[0]['id']: (['malformed-observation'], [])}
            else:
                bad = 0
                size = max(1, len(missing) // 8)
                for i in range(0, len(missing), size):
                    v, s_, t_ = validate(module, missing[i:i + size], cfg, **kw)
                    got.update(v)
                    bad += sum('malformed-observation' in x[0] for x in v.values())
                    if bad >= 3:   # enough to report
                        break
                for r in missing:
                    got.setdefault(r['id'], ([], ['not-judged']))
        os.unlink(path)
        s, t = stats(out)
        states += s
        trans += t
        verdicts.update(got)
    return verdicts, states, trans

def simulate(module, num, seed, cfg=None, depth=60, **kw):
    """Random walks of a generator specification (one worker, seeded): its printed scenarios."""
    ok, out = run(module, cfg or module + '.cfg', workers=1, extra=('-simulate', f'num={num}', '-depth', str(depth), '-seed', str(seed)), **kw)
    res = [x[1:] for x in printed(out) if x[0] == 'SCEN']
    if not res:
        raise MachineryError(f'no behaviours from {module}:\n' + tail(out))
    m = re.search(r'The number of states generated: (\d+)', out)
    return res, int(m.group(1)) if m else 0
