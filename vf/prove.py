"""Proof tasks. A task is (spec id, variant); each is verified in its own process under a time and memory limit. The result
says how many obligations were generated from the current source, which were discharged and by which back end, and which
were refuted (z3 gave a countermodel), undecided or could not be generated at all."""
import json, os, resource, subprocess, sys, time, concurrent.futures
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf.specs import registry
from vf.names import canon


def own(dem):
    c = canon(dem)
    return c.startswith('valijson::') and '<' not in c[:10]


HINTS = os.path.join(ROOT, 'vf', 'hints.json')


def load_hints():
    try:
        return json.load(open(HINTS))
    except OSError:
        return {}


def run_task(irfile, spec, variant, use_hints=True, prop=None):
    from vf.ir import Module, Unsupported
    from vf.engine import Engine, HintMiss
    import z3
    t = time.time()
    Engine.skip_kinds = registry.elsewhere(prop, spec)
    res = {'spec': spec, 'variant': variant, 'functions': [], 'contracts': [], 'assumptions': []}
    try:
        m = Module(irfile)
        E = None
        hints = load_hints().get(spec + '/' + variant) if use_hints else None
        if hints:
            try:
                Engine.hints = hints
                E = registry.run(m, spec, variant)
                if not all(o.ok for o in E.obligations):
                    E = None
            except HintMiss:
                E = None
            Engine.hints = None
            res['hinted'] = E is not None
            if E is None:
                m = Module(irfile)
        if E is None:
            E = registry.run(m, spec, variant)
        if not all(o.ok for o in E.obligations):
            # an invariant may be missing because it did not hold where the loop was met first, or on a path that cannot be
            # taken: try every candidate everywhere, and harder to recognise such paths
            Engine.prune = False
            Engine.effort = 5000000
            E = registry.run(Module(irfile), spec, variant)
        obs = E.obligations
        res['hints'] = E.hint_log
        res['obligations'] = len(obs)
        res['elsewhere'] = sorted(Engine.skip_kinds) if E.skipped else []
        res['discharged'] = sum(1 for o in obs if o.ok)
        be = {}
        for o in obs:
            if o.ok:
                be[o.backend] = be.get(o.backend, 0) + 1
        res['backends'] = be
        res['solver_s'] = round(sum(o.time or 0 for o in obs), 2)
        res['failed'] = [{'fn': o.fn, 'kind': o.kind, 'name': o.name, 'refuted': o.detail == 'sat' or o.model is not None, 'detail': str(o.detail)[:300],
                          'model': str(o.model)[:3000] if o.model is not None else None} for o in obs if not o.ok][:200]
        res['finals'] = getattr(E, 'nfinals', None)
        # functions of the library whose bodies the obligations cover, and functions replaced by their contracts
        res['functions'] = sorted({canon(E.m.dem.get(n, n)) for n in E.inlined if own(E.m.dem.get(n, n))})
        res['contracts'] = sorted({canon(d) for d in E.contracts_used})
        res['assumptions'] = sorted(E.assumed)
        res['error'] = None
        if not obs and not E.skipped or res['finals'] == 0:
            res['error'] = 'no obligations: vacuous'
    except Unsupported as e:
        res['error'] = 'outside the verifier: %s' % e
    except RecursionError as e:
        res['error'] = 'outside the verifier: recursion'
    except Exception as e:
        import traceback
        res['error'] = 'outside the verifier: %s: %s' % (type(e).__name__, str(e)[:200])
        res['trace'] = traceback.format_exc()[-1500:]
    res['wall_s'] = round(time.time() - t, 1)
    return res


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_all(irfiles, tasks, budget, workers=8, prop=None):
    """tasks: [(spec, variant)] -> list of results, in order; a task that exceeds the time left is recorded as undecided"""
    end = time.time() + budget

    def one(t):
        left = end - time.time()
        base = {'spec': t[0], 'variant': t[1], 'obligations': 0, 'discharged': 0, 'failed': [], 'functions': [], 'contracts': [], 'assumptions': [], 'backends': {}, 'solver_s': 0}
        if left < 5:
            return dict(base, error='not started: time budget', wall_s=0)
        try:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), irfiles[registry.module(t[0])], t[0], t[1], prop or ''], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left, preexec_fn=limits)
            return dict(base, **json.loads(r.stdout.decode().strip().split('\n')[-1]))
        except subprocess.TimeoutExpired:
            return dict(base, error='time budget of %d s exhausted' % budget, wall_s=round(left, 1))
        except (ValueError, IndexError):
            return dict(base, error='verifier ended: ' + r.stderr.decode('utf-8', 'replace')[-300:], wall_s=0)
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(one, tasks))


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    print(json.dumps(run_task(sys.argv[1], sys.argv[2], sys.argv[3], os.environ.get('NO_HINTS') is None, (sys.argv[4:5] or [None])[0] or None)))
