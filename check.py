#!/usr/bin/env python3-vt
"""check.py PID [--thorough] [--replay FILE]: decides one property on /repo's current working tree.

1. Proof tasks of the property (vf/specs): verification conditions generated from /repo's current headers (via clang's IR) and
   discharged by z3/cvc5. 2. A bounded run of the compiled code against an independent evaluator, for what is not proved and as the
   source of failing inputs. Exit 0 or 1 only (see README section of DESIGN.md)."""
import hashlib, json, os, re, subprocess, sys, time, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
import itertools, threading
from vf import build, bounded, drive, prove, adapt, oracle
from vf.oracle import Oracle, SchemaError, DontCare
from vf.specs import registry

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
START = time.time()
# size of the bounded run (quick); adapters: the default driver unless listed
SIZE = {'P01': 15000, 'P02': 15000, 'P03': 15000, 'P04': 15000, 'P05': 8000, 'P06': 20000, 'P07': 20000, 'P08': 20000, 'P09': 8000, 'P10': 20000,
        'P11': 8000, 'P12': 8000, 'P13': 15000, 'P14': 20000, 'P15': 20000, 'P16': 15000, 'P17': 8000, 'P18': 4000, 'P19': 8000, 'P20': 4000, 'P21': 3000}
PROOF_BUDGET = 420
TRUSTED = ['clang 18 front end and its -O0 + SROA/early-cse/simplifycfg pipeline (IR is taken to mean what the C++ means)',
           'vf: the verification condition generator (vf/engine.py, vf/ir.py) and the contracts of external functions it assumes (vf/lib_std.py: libstdc++ strings, containers, optional, function, streams; vf/lib_adapter.py: the abstract adapter)',
           'z3 4.8.12 and cvc5 1.1.2']


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ known findings
def findings():
    known, fixed = {}, []
    for l in open(os.path.join(ROOT, 'known-findings.txt')):
        m = re.match(r'known: property=(\w+) key=(\S+) (.*)', l)
        if m:
            known[m[2]] = (m[1], m[3].strip())
    return known


def long_v(schema, doc):
    return bounded.V(schema, [doc], 7)


LOOP = {'http://r/1': {'definitions': {'loop': {'$ref': '#/definitions/loop'}}}}
REPRO = {
    'root-ref-cycle': lambda: bounded.V({'$ref': 'http://r/1#/definitions/loop'}, [1], 7, True, True, LOOP),
    'draft3-required-ref': lambda: bounded.V({'properties': {'a': {'$ref': '#/definitions/r'}, 'b': {'properties': {'c': {'$ref': '#/definitions/r'}}}}, 'definitions': {'r': {'required': True}}}, [{'a': 1, 'b': {}}], 3),
    'long-fraction': lambda: bounded.V({'format': 'time'}, ['00:00:00.' + '1' * 300000 + 'Z'], 7),
    'long-subject': lambda: bounded.V({'pattern': '^a.*z$'}, ['a' * 300000], 7),
    'boost-uint64': lambda: bounded.V({'maximum': 10}, [2**64 - 1], 7, ad='boostjson'),
}


def suppressed(c, text, known):
    """is this disagreement one of the recorded findings?"""
    if 'root-ref-cycle' in known and isinstance(c, bounded.V) and 'stack-overflow' in text and isinstance(c.schema, dict) and '$ref' in c.schema:
        return bounded.circular(c)
    return False


# ------------------------------------------------------------------ bounded runs
def safe_check(q, c, a):
    try:
        return c.check(q, a)
    except (KeyError, TypeError, IndexError, ValueError, AttributeError) as e:
        return 'unexpected answer (%s: %s): %s' % (type(e).__name__, e, json.dumps(a)[:300])


class Bounded:
    def __init__(self, pid, exe, known):
        self.pid, self.exe, self.known = pid, exe, known
        self.count, self.bad, self.leaks, self.samples, self.kinds = 0, [], [], [], set()
        self.wall = 0

    def run(self, gen, stop_after=3, deadline=None):
        t = time.time()
        hits = set()

        def reqs():
            for i, c in enumerate(gen):
                if deadline and time.time() > deadline:
                    return
                q = c.request()
                h = hashlib.blake2b(json.dumps(q, sort_keys=True).encode(), digest_size=8).digest()
                if h in hits:
                    continue
                hits.add(h)
                if i in (0, 7, 200) or (i and i % 50000 == 0):
                    self.samples.append(json.dumps(q)[:400])
                yield q, c

        def chk(q, c, a):
            e = safe_check(q, c, a)
            return e
        n, bad, leaks = run_all(self.exe, reqs(), chk, lambda c, e: suppressed(c, e, self.known), stop_after)
        self.count += n
        self.bad += bad
        self.leaks += leaks
        self.distinct = getattr(self, 'distinct', 0) + n
        self.wall += time.time() - t


def run_all(exe, reqs, check, skip, stop_after):
    it = iter(reqs)
    lock = threading.Lock()
    bad, count, leaks = [], [0], []

    def take():
        with lock:
            return list(itertools.islice(it, 16))

    def work():
        p = drive.Proc(exe)
        recent = []
        while len(bad) < stop_after:
            batch = take()
            if not batch:
                break
            for q, c in batch:
                a = p.ask(q)
                recent.append(q)
                e = ('crash: ' + a['crash']) if 'crash' in a else check(q, c, a)
                if 'crash' in a:
                    recent = []
                with lock:
                    count[0] += 1
                    if e and not skip(c, e):
                        bad.append((q, a, e))
        r = p.close()
        if r:
            with lock:
                leaks.append((r[:4000], recent))
    ts = [threading.Thread(target=work) for _ in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return count[0], bad, leaks


def find_leak(exe, recent):
    """the request of this session that leaks"""
    def leaks(qs):
        p = drive.Proc(exe)
        for q in qs:
            if 'crash' in p.ask(q):
                return False
        return bool(p.close())
    qs = recent
    for _ in range(24):
        if len(qs) <= 1:
            break
        h = len(qs) // 2
        if leaks(qs[:h]):
            qs = qs[:h]
        elif leaks(qs[h:]):
            qs = qs[h:]
        else:
            break
    return qs


def locale_runs(exe):
    """P19: the same requests in processes with a decimal comma, or with a C locale that has one"""
    d = os.path.join(build.OUT, 'locale')
    named = None
    try:
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(os.path.join(d, 'de_DE.UTF-8')):
            subprocess.run(['localedef', '-i', 'de_DE', '-f', 'UTF-8', os.path.join(d, 'de_DE.UTF-8')], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        if os.path.exists(os.path.join(d, 'de_DE.UTF-8')):
            named = 'de_DE.UTF-8'
            drive.ENV['LOCPATH'] = d
    except OSError:
        pass
    out, n = [], 0
    for setup in ([{'op': 'locale', 'comma': True}] + ([{'op': 'locale', 'comma': True, 'name': named}] if named else [])):
        p = drive.Proc(exe)
        p.ask(setup)
        for c in bounded.p19(SEED + 77, 1500):
            q = c.request()
            a = p.ask(q)
            e = ('crash: ' + a['crash']) if 'crash' in a else safe_check(q, c, a)
            n += 1
            if e:
                out.append((dict(q, before=setup), a, 'with a locale whose decimal point is a comma (%s): %s' % (setup.get('name', 'C++ only'), e)))
                break
        p.close()
    return n, out


def ownership(thorough):
    """P17: random histories with instrumented allocators and injected failures"""
    exe = build.program('p17')
    jobs = 8
    per = 6000 if thorough else 800
    ps = [subprocess.Popen([exe, str(SEED * 100 + j), str(per)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for j in range(jobs)]
    n = ops = faults = 0
    bad = []
    for j, p in enumerate(ps):
        try:
            o = p.communicate(timeout=600)[0].decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            p.kill()
            o = 'BAD no answer'
        m = re.search(r'^DONE (\d+) (\d+) (\d+)', o, re.M)
        if m:
            n, ops, faults = n + int(m[1]), ops + int(m[2]), faults + int(m[3])
        b = re.search(r'^BAD .*', o, re.M)
        if p.returncode != 0 or b or not m:
            bad.append(({'program': 'driver/p17.cpp', 'args': [SEED * 100 + j, per]}, {}, (b[0] if b else '') + '\n' + o[-3000:]))
    return n, ops, faults, bad


# ------------------------------------------------------------------ reporting
def write_replay(pid, kind, what):
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(what, property=pid, kind=kind), indent=1)
    f = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha256(body.encode()).hexdigest()[:10]))
    open(f, 'w').write(body)
    return f


def main():
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    tier = 'thorough' if thorough else 'quick'
    known = {k: v for k, v in findings().items() if v[0] == pid}
    violations = []     # (replay, suffix, text)

    def report(kind, what, text, suffix=''):
        f = write_replay(pid, kind, what)
        violations.append(f)
        log('--- %s' % text[:1500])
        log('VIOLATION property=%s replay=%s%s' % (pid, f, suffix))

    # ---- build from the current sources
    results = []
    baseline = json.load(open(os.path.join(ROOT, 'vf', 'baseline.json')))      # the tasks whose obligations are all discharged
    tasks = [t for t in registry.tasks(pid, thorough) if '%s/%s' % t in baseline]
    built = {}

    def drivers():
        for ads in (build.ADAPTERS, None):
            try:
                built['exe'] = build.driver(ads) if ads else build.driver()
                return
            except build.BuildError as e:
                built.setdefault('error', e)
    compiling = threading.Thread(target=drivers)
    compiling.start()

    # ---- proofs
    irs = {}
    if tasks:
        for m in sorted({registry.module(s) for s, v in tasks}):
            try:
                irs[m] = build.ir(m)
            except build.BuildError as e:
                log('IR of %s: %s' % (m, str(e)[-1500:]))
        todo = [(s, v) for s, v in tasks if registry.module(s) in irs]
        results = prove.run_all(irs, todo, PROOF_BUDGET * (2 if thorough else 1), prop=None if thorough else pid)
    compiling.join()
    exe = built.get('exe')
    if exe is None:
        # The sources do not build as the drivers use them: nothing can be said about the property
        log('cannot build: %s' % str(built.get('error'))[-2000:])
        sys.exit(3)

    if pid == 'P11':
        # a verdict that is wrong with and without error collection is no concern of this property
        again = [(r['spec'], 'plain' + r['variant'][6:]) for r in results if any(f['refuted'] and f['kind'] != 'errors' for f in r['failed'])]
        plain = {(r['spec'], r['variant']): r for r in prove.run_all(irs, again, PROOF_BUDGET // 2)}
        for r in results:
            q = plain.get((r['spec'], 'plain' + r['variant'][6:]))
            if q and (q['error'] or q['failed']):
                r['failed'] = [f for f in r['failed'] if f['kind'] == 'errors']
    undecided, refuted = [], []
    for r in results:
        key = r['spec'] + '/' + r['variant']
        if r['error']:
            undecided.append('%s: %s' % (key, r['error']))
        for f in r['failed']:
            if not registry.relevant(pid, r['spec'], f['kind']):
                log('not part of %s: %s: %s [%s] %s' % (pid, key, f['fn'], f['kind'], f['name']))
            elif f['refuted'] and key in baseline:
                refuted.append((key, f))
            else:
                undecided.append('%s: %s %s (%s)' % (key, f['fn'], f['name'], f['detail']))

    # ---- bounded run
    b = Bounded(pid, exe, known)
    size = SIZE[pid] * (12 if thorough else 1)
    limit = START + (3000 if thorough else 700)
    gen = lambda seed, n: adapt.spread(getattr(bounded, pid.lower())(seed, n))
    extra = {}
    b.run(gen(SEED, size), deadline=limit)
    if refuted and not b.bad:
        log('%d obligations refuted: looking for a failing input' % len(refuted))
        for k in range(1, 4):
            if b.bad or time.time() > START + 600:
                break
            b.run(gen(SEED + 1000 * k, size * 2), deadline=START + 640)
    if pid == 'P19':
        n, bad = locale_runs(exe)
        b.count += n
        b.bad += bad
    if pid == 'P17':
        n, ops, faults, bad = ownership(thorough)
        b.count += n
        b.bad += bad
        extra.update(ownership_histories=n, ownership_operations=ops, injected_allocation_failures=faults)
        b.samples.append('history 0 of seed %d: build/prog_p17 %d 1 0' % (SEED * 100, SEED * 100))
    for q, a, text in b.bad[:3]:
        report('bounded', {'request': q, 'answer': a, 'text': text}, text)
    for text, recent in b.leaks[:1]:
        if not b.bad:
            qs = find_leak(exe, recent)
            report('leak', {'requests': qs[:50], 'text': text}, 'memory leaked: ' + text)
    # obligations that held and are now refuted
    if refuted and not violations:
        key, f = refuted[0]
        report('obligation', {'obligation': '%s: %s [%s] %s' % (key, f['fn'], f['kind'], f['name']), 'verifier': f, 'all': [(k, g['fn'], g['name']) for k, g in refuted]},
               'obligation not discharged: %s: %s %s' % (key, f['fn'], f['name']), ' no-failing-input-found')
    # ---- known findings
    p = drive.Proc(exe)
    for key, (_, text) in known.items():
        c = REPRO[key]()
        q = c.request()
        a = p.ask(q)
        if 'crash' in a or safe_check(q, c, a):
            log('KNOWN-FINDING: property=%s %s (%s)' % (pid, text, key))
    p.close()

    # ---- evidence
    ob, di = sum(r['obligations'] for r in results), sum(r['discharged'] for r in results)
    bcov = {'evaluations': b.count, 'distinct_nontrivial': b.distinct, 'rule': 'requests enumerated and drawn from a seeded generator (vf/bounded.py %s), each run on the compiled code under address and undefined-behaviour sanitizers and compared with the independent evaluator vf/oracle.py; identical requests are run once; every request carries at least one comparison' % pid.lower(),
            'samples': b.samples[:4] or ['none']}
    bcov.update(extra)
    proved = bool(ob)
    cov = dict(bcov)
    if proved:
        be = {}
        for r in results:
            for k, v in r['backends'].items():
                be[k] = be.get(k, 0) + v
        cov = {'obligations': ob, 'discharged': di, 'checker_cmd': 'python3-vt /verif/check.py %s (vf/prove.py: z3 through its API, cvc5 --lang smt2 as second back end)' % pid,
               'trusted_base': TRUSTED, 'back_ends': be, 'solver_s': round(sum(r['solver_s'] for r in results), 1),
               'functions_under_contract': sorted({f for r in results for f in r['functions']}),
               'contracts_of_callees_used': sorted({f for r in results for f in r['contracts']}),
               'tasks': [{k: r[k] for k in ('spec', 'variant', 'obligations', 'discharged', 'error', 'wall_s')} for r in results],
               'undecided': undecided, 'bounded_stand_in': bcov}
    assumed = sorted({a for r in results for a in r['assumptions']})
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': 'proof' if proved else 'exploration', 'coverage': cov, 'assumptions': assumed + registry.notes(pid),
          'wall_s': round(time.time() - START, 1), 'violations': len(violations)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    log('%s %s: %d/%d obligations discharged in %d tasks (%d undecided), %d bounded cases, %d violations, %.0f s' % (
        pid, tier, di, ob, len(results), len(undecided), b.count, len(violations), time.time() - START))
    for u in undecided[:10]:
        log('  undecided: ' + u[:300])
    sys.exit(1 if violations else 0)


def replay(f):
    w = json.load(open(f))
    log(w.get('text') or w.get('obligation'))
    if 'request' in w and 'op' in w['request']:
        p = drive.Proc(build.driver(build.ADAPTERS))
        if 'before' in w['request']:
            p.ask(w['request'].pop('before'))
        log(json.dumps(p.ask(w['request']))[:3000])
        p.close()
    elif 'request' in w:
        subprocess.run([build.program('p17')] + [str(x) for x in w['request']['args']])
    elif 'requests' in w:
        p = drive.Proc(build.driver(build.ADAPTERS))
        for q in w['requests']:
            p.ask(q)
        log(p.close())
    else:
        log(json.dumps(w.get('verifier'), indent=1))


if __name__ == '__main__':
    if '--replay' in sys.argv:
        replay(sys.argv[sys.argv.index('--replay') + 1])
    else:
        main()
