"""Exhaustive-enumeration core.

A property module provides
    ID                    property id
    cases(tier)           the complete, ordered list of bounded cases (JSON-able); each case stands for one or many
                          histories that run() enumerates completely
    run(case, ctx)        drives the real code through the case, compares with the reference model, reports
                          divergences with ctx.fail(key, message)
    RULE, ASSUMPTIONS     text for the evidence

The parent process partitions the cases statically into chunks (independent of the number of cores); every chunk
runs in its own forked process that starts from a pristine, just-imported chumpy, so every execution is
deterministic and a violation can be replayed from (chunk prefix, case).
"""
import os, sys, json, time, signal, traceback, tempfile, shutil, gc

REPO = os.environ.get('MC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)

CASE_TIMEOUT = 3600 if os.environ.get('VERIF_TIER') == 'thorough' else 150          # seconds of processor time without finishing one case = it does not terminate
MAX_FAILS_PER_CHUNK = int(os.environ.get('MC_CAP', 8))


class Stop(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Ctx(object):
    def __init__(self, cap=MAX_FAILS_PER_CHUNK, known=()):
        self.cap = cap
        self.known = known
        self.known_hits = {}
        self.nfails = 0
        self.states = set()
        self.transitions = 0
        self.histories = 0
        self.observations = 0
        self.outcomes = set()
        self.fails = []
        self.keys = set()
        self.case = None
        self.idx = -1
        self.samples = []
        self.slowest = (0., -1)

    # -- counters
    def state(self, *key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def hist(self, sample=None):
        self.histories += 1
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def seen(self, *outcome):
        self.observations += 1
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(outcome))

    # -- violations
    def fail(self, key, msg):
        for k in self.known:
            if k['key'] == key:
                self.known_hits[key] = k['what']
                return
        if key in self.keys:
            return
        self.keys.add(key)
        self.nfails += 1
        self.fails.append(dict(key=key, msg=str(msg)[:1500], case=self.case, idx=self.idx))
        if self.nfails >= self.cap:
            raise Stop()


def _alarm(signum, frame):
    raise CaseTimeout()


def run_cases(mod, cases, idxs, ctx, beat=None, deadline=None):
    signal.signal(signal.SIGPROF, _alarm)
    done = 0
    for i in idxs:
        if deadline is not None and time.time() > deadline:
            break
        ctx.case, ctx.idx = cases[i], i
        if beat:
            beat(i)
        t0 = time.process_time()
        signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
        try:
            mod.run(cases[i], ctx)
        except Stop:
            signal.setitimer(signal.ITIMER_PROF, 0)
            break
        except CaseTimeout:
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                ctx.fail('timeout', 'case did not terminate within %d s' % CASE_TIMEOUT)
            except Stop:
                pass
            break
        except Exception as e:
            signal.setitimer(signal.ITIMER_PROF, 0)
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-4:]))
            try:
                ctx.fail('exception:%s:%s' % (type(e).__name__, json.dumps(cases[i])[:300]),
                         'unexpected %s: %s  [%s]' % (type(e).__name__, str(e)[:300], where))
            except Stop:
                break
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            ctx.slowest = max(ctx.slowest, (round(time.process_time() - t0, 1), i))
        done += 1
    return done


def child(fn, quiet=True, wait_s=None, beatfile=None):
    """Run fn() -> JSON-able in a forked process; returns the result or None if the process died / stalled."""
    tmp = tempfile.mkdtemp(prefix='mc_')
    out = os.path.join(tmp, 'out')
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            if quiet:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                if not os.environ.get('MC_DEBUG'):
                    os.dup2(dn, 2)
            r = fn()
            with open(out + '.p', 'w') as f:
                json.dump(r, f)
            os.rename(out + '.p', out)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    return pid, tmp, out


def collect(pid_tmp_out):
    pid, tmp, out = pid_tmp_out
    try:
        os.waitpid(pid, 0)
    except ChildProcessError:
        pass
    r = None
    if os.path.exists(out):
        with open(out) as f:
            r = json.load(f)
    shutil.rmtree(tmp, ignore_errors=True)
    return r


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]


def replay_once(mod, cases, idxs, key):
    """Fresh process: run the given cases in order; does a failure with this key occur in the last one?"""
    def fn():
        ctx = Ctx(cap=10 ** 9)
        run_cases(mod, cases, idxs, ctx)
        return [f['key'] for f in ctx.fails if f['idx'] == idxs[-1]]
    r = collect(child(fn))
    return r is None or key in r


def main(mod):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    limit = float(os.environ.get('MC_LIMIT', 600 if tier == 'quick' else 6 * 3600))
    deadline = t0 + limit
    cases = list(mod.cases(tier))
    known = load_known(mod.ID)
    nch = max(1, min(getattr(mod, 'CHUNKS', 16), len(cases)))
    chunks = [list(range(i, len(cases), nch)) for i in range(nch)]
    workers = int(os.environ.get('MC_WORKERS', os.cpu_count() or 4))
    import chumpy  # noqa: imported once, before any fork, never used by the parent
    assert os.path.dirname(os.path.dirname(os.path.abspath(chumpy.__file__))) == os.path.abspath(REPO), chumpy.__file__
    beatdir = tempfile.mkdtemp(prefix='mcb_')

    def start(ci):
        bf = os.path.join(beatdir, str(ci))
        def fn():
            ctx = Ctx(known=known)
            def beat(i):
                with open(bf, 'w') as f:
                    f.write(str(i))
            done = run_cases(mod, cases, chunks[ci], ctx, beat, deadline)
            return dict(done=done, states=sorted(ctx.states), transitions=ctx.transitions, histories=ctx.histories,
                        observations=ctx.observations, outcomes=sorted(ctx.outcomes), fails=ctx.fails,
                        samples=ctx.samples, slowest=ctx.slowest, known=ctx.known_hits)
        return child(fn)

    todo = list(range(nch))
    running, results, fails = {}, {}, []
    while todo or running:
        while todo and len(running) < workers:
            ci = todo.pop(0)
            running[ci] = start(ci)
        time.sleep(0.05)
        for ci in list(running):
            pid, tmp, out = running[ci]
            p, _ = os.waitpid(pid, os.WNOHANG)
            bf = os.path.join(beatdir, str(ci))
            stalled = False
            if p == 0 and os.path.exists(bf) and time.time() - os.path.getmtime(bf) > CASE_TIMEOUT + 90:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                p, stalled = pid, True
            if p != 0:
                r = None
                if os.path.exists(out):
                    r = json.load(open(out))
                shutil.rmtree(tmp, ignore_errors=True)
                del running[ci]
                if r is None:
                    i = int(open(bf).read() or 0) if os.path.exists(bf) else chunks[ci][0]
                    fails.append(dict(key='stalled' if stalled else 'crashed', idx=i, case=cases[i], chunk=ci,
                                      msg='the process %s in this case' % ('did not terminate' if stalled else 'died')))
                else:
                    results[ci] = r
                    for f in r['fails']:
                        f['chunk'] = ci
                        fails.append(f)
        if fails and os.environ.get('MC_FAST'):      # development aid: the first chunk with a divergence is enough
            for ci in list(running):
                os.kill(running[ci][0], signal.SIGKILL)
                os.waitpid(running[ci][0], 0)
                shutil.rmtree(running[ci][1], ignore_errors=True)
                del running[ci]
            todo = []
    shutil.rmtree(beatdir, ignore_errors=True)

    states, outcomes, samples, knownhits = set(), set(), [], {}
    tr = hs = obs = done = 0
    slowest = (0., -1)
    for ci in sorted(results):
        r = results[ci]
        states.update(r['states']); outcomes.update(r['outcomes'])
        tr += r['transitions']; hs += r['histories']; obs += r['observations']; done += r['done']
        samples += r['samples'][:1]
        knownhits.update(r['known'])
        slowest = max(slowest, tuple(r['slowest']))

    # ---- confirm every violation by replaying it in a fresh process (twice)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(mod.ID + '-'):
            os.unlink(os.path.join(rdir, f))
    if os.environ.get('MC_LIST'):      # development aid: list every distinct divergence, unconfirmed
        seenk = set()
        for f in sorted(fails, key=lambda f: f['key']):
            if f['key'] not in seenk:
                seenk.add(f['key'])
                print('%-50s %s' % (f['key'][:120], f['msg'][:300]))
        fails = []
    confirmed, unrepro = [], 0
    fails.sort(key=lambda f: (len(json.dumps(f['case'])), f['idx']))
    for f in fails:
        if len(confirmed) >= 5 or (confirmed and time.time() > deadline):
            break
        i, ch = f['idx'], chunks[f['chunk']]
        prefix = []
        ok = f['key'] in ('stalled', 'crashed', 'timeout')
        if not ok:
            ok = replay_once(mod, cases, [i], f['key']) and replay_once(mod, cases, [i], f['key'])
        if not ok:
            prefix = ch[:ch.index(i)]
            ok = replay_once(mod, cases, prefix + [i], f['key'])
        if not ok:
            unrepro += 1
            continue
        path = os.path.join(rdir, '%s-%d.json' % (mod.ID, len(confirmed) + 1))
        with open(path, 'w') as fp:
            json.dump(dict(property=mod.ID, tier=tier, key=f['key'], msg=f['msg'], case=f['case'],
                           prefix=[cases[j] for j in prefix],
                           how='./check-replay ' + path), fp, indent=1)
        confirmed.append((path, f))
    complete = done == len(cases)
    ev = dict(property=mod.ID, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'model_checking'),
              coverage=dict(states=len(states), transitions=tr, traces_validated_against_impl=hs,
                            evaluations=obs, distinct_nontrivial=len(outcomes), rule=mod.RULE,
                            cases=len(cases), cases_completed=done, slowest_case_s=slowest[0],
                            exhaustive=bool(complete and not confirmed), samples=samples[:6],
                            unreproduced=unrepro, known_findings=sorted(knownhits)),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2),
              violations=len(confirmed))
    if not complete:
        ev['coverage']['cap'] = 'stopped at violation cap or time limit: %d of %d cases completed' % (done, len(cases))
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    for k in sorted(knownhits):
        print('KNOWN-FINDING: property=%s %s' % (mod.ID, knownhits[k]))
    print('%s %s: %d/%d cases, %d histories, %d states, %d transitions, %d observations (%d distinct), %.1f s'
          % (mod.ID, tier, done, len(cases), hs, len(states), tr, obs, len(outcomes), time.time() - t0))
    if unrepro:
        print('note: %d divergence(s) could not be reproduced and were not reported' % unrepro)
    for path, f in confirmed:
        print('  %s' % f['msg'].replace('\n', ' ')[:400])
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
    sys.stdout.flush()
    return 1 if confirmed else 0
