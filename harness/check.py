#!/usr/bin/env python3
"""check.py <property>  -  decides one property; see DESIGN.md.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 3: error of the check."""
import os, sys, json, time, traceback
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('HOME', '/root')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

from concurrent.futures import ThreadPoolExecutor
import tlc

class Ctx:
    def __init__(self, prop, tier, seed):
        import numpy as np
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = np.random.default_rng([seed, int(prop[1:])])
        self.models, self.records, self.failures, self.deviations = [], 0, [], {}
        self.states = self.transitions = 0
        self.samples, self.notes = [], {}
        self._futures, self._pool = [], ThreadPoolExecutor(2)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def size(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, cfg=None, **kw):
        """Exhaustive model check; returns its printed scenarios."""
        r = tlc.model_check(module, cfg, **kw)
        self.models.append(dict(module=r['module'], config=r['cfg'], states=r['states'], transitions=r['transitions']))
        self.states += r['states']
        self.transitions += r['transitions']
        return [x[1:] for x in r['printed'] if x[0] == 'SCEN']

    def walks(self, module, num, **kw):
        """Behaviours of a generator specification, for replay."""
        res, n = tlc.simulate(module, num, self.seed, **kw)
        self.models.append(dict(module=module, behaviours=len(res), states=n))
        self.transitions += n
        return res

    def refuted(self, module, cfg):
        """A deliberately wrong variant of a model: TLC must find the violation, or the invariants say nothing."""
        ok, out = tlc.run(module, cfg, workers=2)
        if ok or 'is violated' not in out:
            raise tlc.MachineryError(f'{module} with {cfg} should have been refuted:\n' + tlc.tail(out))
        self.models.append(dict(module=module, config=cfg, refuted=True))

    def refuted_later(self, module, cfg):
        self._futures.append(self._pool.submit(self.refuted, module, cfg))

    def model_later(self, module, cfg=None, **kw):
        """The same in the background, while the real code runs."""
        kw.setdefault('workers', 3)
        self._futures.append(self._pool.submit(self.model, module, cfg, **kw))

    def judge(self, module, records, clauses=None, **kw):
        """Validate records against a trace specification. clauses: names (prefixes) that belong to the property."""
        if not records:
            return
        for i, r in enumerate(records):
            r['id'] = i
        kw.setdefault('timeout', self.size(300, 7200))
        verdicts, s, t = tlc.validate(module, records, **kw)
        self.states += s
        self.transitions += t
        self.records += len(records)
        always = ('no-error', 'malformed', 'error-reported')
        for r in records:
            failed, devs = verdicts[r['id']]
            mine = [f for f in failed if clauses is None or any(f.startswith(c) for c in tuple(clauses) + always)]
            if mine:
                self.failures.append(dict(spec=module, clauses=mine, case=r))
            for d in devs:
                self.deviations.setdefault(d, []).append(r.get('label', r['id']))
        if len(self.samples) < 4:
            self.samples.append(shorten(dict(spec=module, case=records[0], verdict=verdicts[0][0])))

    def finish(self):
        for f in self._futures:
            f.result()
        self._pool.shutdown()

def shorten(x, depth=0):
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, list):
        return [shorten(v, depth + 1) for v in x[:4]] + (['... %d more' % (len(x) - 4)] if len(x) > 4 else [])
    return x

def known_findings(prop):
    """Known findings of this property, and the tags known for any property."""
    res, every = {}, set()
    with open(os.path.join(VERIF, 'known_findings.jsonl')) as f:
        for line in f:
            line = line.strip()
            if line:
                d = json.loads(line)
                if d['status'] == 'known':
                    every.add(d['tag'])
                    if d['property'] == prop:
                        res[d['tag']] = d
    return res, every

def crashed(prop, text):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}.json')
    seed, tier = int(os.environ.get('VERIF_SEED', '1')), os.environ.get('VERIF_TIER', 'quick')
    with open(path, 'w') as f:
        json.dump(dict(property=prop, seed=seed, tier=tier, failures=[dict(clauses=['unexpected-error'], case=text)]), f, indent=1)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=0.0, violations=1,
                       coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[text[-600:]])), f, indent=1)
    print(f'VIOLATION property={prop} replay={path}')
    return 1

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import registry
    ctx = Ctx(prop, tier, seed)
    fn, level, rule, assumptions = registry.CHECKS[prop]
    fn(ctx)
    ctx.finish()
    known, every = known_findings(prop)
    for tag, where in sorted(ctx.deviations.items()):
        if tag == 'not-judged':
            continue
        if tag == 'timed-out':
            if not ctx.failures:
                raise tlc.MachineryError(f'TLC gave no verdict in time for {len(where)} cases')
            continue
        if tag in known:
            print(f"KNOWN-FINDING: property={prop} {known[tag]['what']} [seen in {len(where)} cases]")
        elif tag not in every:
            ctx.failures.append(dict(spec='deviation', clauses=[tag], case=dict(label=where[:5])))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2),
              violations=len(ctx.failures), assumptions=assumptions,
              coverage=dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.records,
                            models=ctx.models, rule=rule, samples=ctx.samples, notes=ctx.notes,
                            known_findings_seen={k: len(v) for k, v in ctx.deviations.items()}))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if ctx.failures:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{prop}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, count=len(ctx.failures),
                           how='each entry is one recorded run of the real code: "spec" is the trace specification that '
                               'rejects it, "clauses" what it violates; rerun with VERIF_SEED=%d harness/check.py %s'
                               % (seed, prop), failures=ctx.failures[:20]), f, indent=1)
        for x in ctx.failures[:5]:
            print('  failed:', ', '.join(x['clauses']), '|', x['spec'], '|', json.dumps(shorten(x['case'].get('label', '')))[:300])
        print(f'VIOLATION property={prop} replay={path}')
        sys.stdout.flush()
        return 1
    print(f'{prop}: held; {ctx.records} recorded runs validated, {ctx.states} states, {round(time.time() - t0, 1)} s')
    return 0

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except (AttributeError, LookupError, ValueError, TypeError, ArithmeticError, AssertionError):
        # The code under test raised, or returned something of another form, where the scenario (valid, and fine on
        # the unchanged tree) has a defined answer.
        text = traceback.format_exc()
        print(text)
        rc = crashed(sys.argv[1], text)
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
