"""One property: verify the contracts it rests on against /repo's current source, and report.

exit 0  every obligation discharged (or, labelled bounded in the evidence, the bounded stand-in found nothing)
exit 1  VIOLATION
exit 2  no answer (the code does not compile, ...)
"""
import os, sys, time, json, copy, signal, subprocess, tempfile, pickle, shutil, hashlib, select
from .contract import *
from . import props as PR

HARD = 330          # seconds one function may take
HOOKED = ('task', 'sched')   # drivers whose memory accesses report themselves (drivers/hook.h)
EVID = os.path.join(VERIF, 'evidence')


# ------------------------------------------------------------------ running contracts, one process each
def run_item(reg, item, dropped, opts):
    """in a child process"""
    if item.lemma:
        return item.lemma(reg, opts)
    t0 = time.time()
    r = attempt(reg, item, dropped, opts)
    if not opts.get('small') and not item.endless and not r['error'] and not good(r) and all(o['cut'] for o in bad(r) if o['status'] == 'failed'):
        # no invariant found with the loops cut at their heads: cut them where their bodies begin
        left = HARD - 15 - (time.time() - t0)
        if left > 20:
            r2 = attempt(reg, item, dropped, dict(opts, rotate=True, budget=left))
            if good(r2):
                r2['notes'].append('loops cut past their conditions')
                return r2
    return r


def unwind(reg, item, small):
    return getattr(reg[item.name], 'unwind', None) or small + 3


def attempt(reg, item, dropped, opts):
    spec = reg[item.name]
    if opts.get('small') and not opts.get('unroll'):
        opts = dict(opts, unroll=unwind(reg, item, opts['small']))
    if item.frame:
        spec = PR.frame_only(spec)
    mod = load_module(*(item.module or spec.module or ('sw.cpp',)))
    o = dict(opts)
    small = o.pop('small', None)
    env = Env(mod, dict(o, deadline=time.time() + o.pop('budget', 200)), small=small, inst=item.inst)
    specs = [s for n, s in reg.items() if n not in dropped]
    r = verify(spec, env, specs, focus=item.focus)
    used = sorted({s.short() for s in specs if s.callable_ and s.fn is not None and any(d in r.contracts for d in s.demangled(mod))})
    return dict(name=item.name, module=item.module, inst=item.inst, wrapper=spec.wrapper, kind=getattr(spec, 'kind', 'contract'), error=r.error, unsupported=r.unsupported, paths=r.paths, entered=sorted(r.entered), used=used, externs=sorted(r.externs),
                covers=r.covers, time=r.time, qtime=r.qtime, queries=env.ex.nq, loops=r.loops, notes=sorted(env.ex.notes),
                obls=[dict(name=o.name, where=o.where, status=o.status, backend=o.backend, time=round(o.time, 3), cut=o.cut,
                           info=[str(x) for x in o.info] if isinstance(o.info, list) else (str(o.info) if o.info else None),
                           model=describe(o.model, o) if o.status == 'failed' and o.model is not None else None) for o in r.obls])


def describe(model, o):
    """the counterexample: values of the symbols the obligation mentions"""
    out = {}
    seen = set()
    work = list(o.pc) + [o.goal]
    n = 0
    while work and n < 4000:
        e = work.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        n += 1
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and (z3.is_bv(e) or z3.is_bool(e)):
            try:
                out[str(e)] = str(model.eval(e))
            except Exception:
                pass
        work += e.children()
    return dict(sorted(out.items())[:60])


def pool(jobs, width=8, hard=HARD, until=lambda: float('inf')):
    """jobs: [(key, thunk)] -> {key: result or ('dead', why)}; until(): when all of it has to be over"""
    res, live, todo = {}, {}, list(jobs)
    while todo or live:
        end = until()
        if time.time() > end:
            for key, _ in todo:
                res[key] = ('dead', 'not started within the time of the check')
            todo = []
        while todo and len(live) < width:
            key, fn = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    try:
                        out = ('ok', fn())
                    except BuildError as e:
                        out = ('build', str(e))
                    except BaseException as e:
                        import traceback
                        out = ('crash', traceback.format_exc()[-2500:])
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            live[r] = (key, pid, time.time(), bytearray())
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            chunk = os.read(r, 1 << 20)
            key, pid, t0, buf = live[r]
            if chunk:
                buf += chunk
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                res[key] = pickle.loads(bytes(buf))
            except Exception:
                res[key] = ('crash', 'worker ended without a result')
        now = time.time()
        for r, (key, pid, t0, buf) in list(live.items()):
            if now - t0 > hard or now > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                res[key] = ('dead', 'time limit (%d s)' % (now - t0))
    return res


# ------------------------------------------------------------------ the replay driver (bounded, concrete)
class Driver:
    """the property exercised through the public interface on the real code, against a reference model"""

    def __init__(self, pid, name, tier, seed, workdir, debug=False):
        # run once more with the library's debug output compiled in, or with windows of hundreds and of 70000 events
        self.more = [('-DRTMLIB_DEBUG=3', '-DRTMLIB_ENABLE_DEBUG_RMTLD3')] if debug else []
        self.more += [('-DCAPN=300',), ('-DCAPN=70000',)] if name == 'formula' else []
        self.pid, self.name, self.tier, self.seed = pid, name, tier, seed
        self.bin = os.path.join(workdir, 'drv')
        self.src = os.path.join(VERIF, 'drivers', 'drv_%s.cpp' % name)
        self.log = os.path.join(workdir, 'drv.log')
        self.proc = None
        self.state = None
        self.budget = 40 if tier == 'quick' else 240

    def cmd(self, *defs):
        if self.name in HOOKED:
            g = ['g++', '-std=c++11', '-O0', '-g', '-w', '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'drivers')]
            return g + ['-fsanitize=thread', '-mcx16', '-c', self.src, '-o', self.bin + '.o', '&&', 'g++', self.bin + '.o', '-o', self.bin, '-lpthread', '-latomic']
        return ['g++', '-std=c++11', '-O1', '-g', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-I' + os.path.join(REPO, 'src'),
                '-I' + os.path.join(VERIF, 'drivers'), *defs, self.src, '-o', self.bin, '-lpthread', '-latomic', '-mcx16']

    def start(self):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99')
        one = lambda budget, *defs: '{ %s; } 2>%s.cc || exit 77; timeout -k 5 %d %s %s %s %d %d' % (
            ' '.join(self.cmd(*defs)), self.log, budget + 60, self.bin, self.pid, self.tier, self.seed, budget)
        self.proc = subprocess.Popen(['sh', '-c', one(self.budget) + ''.join(' && { %s; }' % one(self.budget // 3, *m) for m in self.more)],
            stdout=open(self.log, 'w'), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=os.path.dirname(self.bin), start_new_session=True)

    def failed(self):
        return self.proc.poll() not in (None, 0, 77, 124, 137)

    def wait(self):
        if self.state is None:
            rc = self.proc.wait()
            txt = open(self.log, errors='replace').read()
            if rc == 77:
                self.state = ('nobuild', open(self.log + '.cc', errors='replace').read()[-3000:])
            elif rc == 0:
                self.state = ('ok', txt)
            elif rc in (124, 137):
                self.state = ('timeout', txt)
            else:
                self.state = ('fail', txt)
        return self.state

    def cases(self):
        return sum(map(int, re.findall(r'cases=(\d+)', self.state[1] if self.state else '')))


# ------------------------------------------------------------------ one property
def bad(r):
    return [o for o in r['obls'] if o['status'] != 'proved']


def good(r):
    return not r['error'] and not r['unsupported'] and not bad(r)


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PR.PROPS[pid]
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        return run(pid, P, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, P, tier, seed, work, t0):
    out = Report(pid, tier, seed, t0, P)
    drv = None
    if P.get('driver'):
        drv = Driver(pid, P['driver'], tier, seed, work, P.get('driver_debug', False))
        drv.start()
    reg = PR.registry()
    items = list(P['items'])
    if P.get('prefix'):
        items += [PR.Item(n, module=m) for n in reg if n.startswith(P['prefix']) for m in P.get('modules', (None,))]
    if tier == 'thorough':      # and the same for the code with its debug output compiled in
        items += [PR.Item(i.name, i.focus, i.frame, PR.DEBUG, support=i.support) for i in items
                  if not i.module and not reg[i.name].module and getattr(reg[i.name], 'kind', '') != 'lemma' and not i.endless and reg[i.name].fn is not None]
    # -- the code as compiled
    try:
        for m in sorted({i.module or reg[i.name].module or ('sw.cpp',) for i in items if not i.lemma} | {('sw.cpp',)}, key=str):
            load_module(*m)
    except BuildError as e:
        return out.nobuild(drv, str(e))
    except Exception as e:
        return out.nobuild(drv, 'cannot read the compiled code: %s' % e)
    opts = dict(timeout_ms=10000 if tier == 'quick' else 30000)
    scale = 1 if tier == 'quick' else 6
    caught = []

    def until():
        """the proofs are over by then; soon after a concrete failing run has decided the matter"""
        if drv and not caught and drv.failed():
            caught.append(time.time() + 60 * scale)
        return min([t0 + 560 * scale] + caught)
    dropped = set()
    jobs = lambda its, dr, o: [(i.key(), (lambda i=i: run_item(reg, i, dr, o))) for i in its]
    par = [('parametric', parametric_check)]
    res = pool(par + jobs(items, dropped, opts), until=until)
    p = res.pop('parametric')
    if p[0] != 'ok' or p[1]:
        # not one text for all capacities and bounds: verified for single ones instead
        out.parametric = False
        insts = [(N_MAGIC, B_MAGIC)] + ([c[:2] for c in p[1]][:3] if p[0] == 'ok' else [])
        out.assumptions.append('the code depends on its capacity or bound other than through their values (%s); proved for (capacity, bound) in %s only, others by the driver' % (str(p[1])[:300], insts))
        plain = lambda i: not i.lemma and getattr(reg[i.name], 'kind', '') != 'lemma' and (i.module or reg[i.name].module or ('sw.cpp',))[0] == 'sw.cpp' and not reg[i.name].module
        new = [i.at(c) for i in items if plain(i) for c in (insts if not i.module else insts[:1])]
        items = [i for i in items if not plain(i)] + new
        res = {i.key(): res[i.key()] for i in items if i.key() in res}
        res.update(pool(jobs(new, dropped, opts), until=until))
    # -- the contracts used at call sites
    sup, supitem = {}, {}
    while True:
        need = {}
        for k, r in list(res.items()) + list(sup.items()):
            if r[0] == 'ok':
                for n in r[1]['used']:
                    i = PR.Item(n, module=r[1]['module'])
                    i.inst = r[1].get('inst')
                    need[i.key()] = i
        direct_full = {i.key() for i in items if not i.frame and i.focus is None}
        need = [need[k] for k in sorted(need) if k not in sup and k not in direct_full]
        if not need:
            break
        supitem.update({i.key(): i for i in need})
        sup.update(pool(jobs(need, dropped, opts), until=until))
    badsup = {supitem[k].name for k, r in sup.items() if r[0] != 'ok' or not good(r[1])}
    badsup |= {i.name for i in items if not i.frame and i.focus is None and (res[i.key()][0] != 'ok' or not good(res[i.key()][1]))}
    # -- a contract that no longer holds is not used: its function is entered instead
    for rnd in range(4):
        if not badsup - dropped:
            break
        dropped |= badsup
        redo = [i for i in items if res[i.key()][0] == 'ok' and set(res[i.key()][1]['used']) & dropped]
        redo_s = [supitem[k] for k in sup if supitem[k].name not in dropped and sup[k][0] == 'ok' and set(sup[k][1]['used']) & dropped]
        res.update(pool(jobs(redo, set(dropped), opts), until=until))
        sup.update(pool(jobs(redo_s, set(dropped), opts), until=until))
        for k in [k for k in sup if supitem[k].name in dropped]:
            sup.pop(k)
        badsup = {supitem[k].name for k, r in sup.items() if r[0] != 'ok' or not good(r[1])}
    for n in dropped:
        out.notes.append('contract of %s does not hold on this tree: not relied on, the function was entered instead' % n)
    d = drv.wait() if drv else ('none', '')
    # -- judge
    failed, open_ = [], []
    for i in items:
        r = res[i.key()]
        if r[0] != 'ok':
            open_.append((i, '%s: %s' % r))
            continue
        r = r[1]
        if r['error']:
            open_.append((i, r['error']))
            continue
        if any(not c[1] and 'precondition satisfiable' in c[0] for c in r['covers']):
            open_.append((i, 'the precondition is not satisfiable'))
            continue
        if good(r):
            continue
        f = [o for o in bad(r) if o['status'] == 'failed' and not o['cut']]
        if f and not i.support:
            failed.append((i, f, r))
        else:
            open_.append((i, r['unsupported'] or '; '.join('%s %s' % (o['name'], o['info'] or '') for o in bad(r)[:3])))
    out.collect(items, res, sup)
    out.driver(drv, d)
    if d[0] == 'fail' or (d[0] == 'timeout' and (failed or open_)):
        return out.violation_driver(drv, d, failed, open_)
    # -- bounded stand-in for what is open: all loops unwound, small capacities
    if open_:
        small = 2 if tier == 'quick' else 3
        b = pool(jobs([i for i, _ in open_ if not i.support and not i.endless and not i.inst], dropped, dict(opts, small=small, budget=110)), hard=150, until=lambda: t0 + 760 * scale)
        for i, why in open_:
            r = b.get(i.key())
            if i.endless:
                out.bounded.append(dict(function=i.key(), why=why, bound='concrete runs of up to 12 periods, other threads acting at every access and system call', cases=drv.cases() if drv else 0))
                continue
            rec = dict(function=i.key(), why=why, bound='capacity <= %d, loops unwound %d times' % (small, unwind(reg, i, small)))
            if r and r[0] == 'ok':
                f = [o for o in bad(r[1]) if o['status'] == 'failed' and not o['name'].endswith('loop unwound within the bound')]
                rec['obligations'] = len(r[1]['obls'])
                rec['discharged'] = sum(o['status'] == 'proved' for o in r[1]['obls'])
                if f and (getattr(reg[i.name], 'unwind', None) or not any(o['name'].endswith('loop unwound within the bound') for o in bad(r[1]))):
                    failed.append((i, f, r[1]))
            else:
                rec['result'] = str(r)[:300]
            out.bounded.append(rec)
    if failed:
        return out.violation(failed)
    return out.done(0)


class Report:
    def __init__(self, pid, tier, seed, t0, P):
        self.pid, self.tier, self.seed, self.t0, self.P = pid, tier, seed, t0, P
        self.assumptions, self.notes, self.bounded, self.functions = [], [], [], []
        self.parametric = True
        self.obls = self.proved = 0
        self.backends, self.qtime, self.queries = {}, 0.0, 0
        self.entered, self.externs = set(), set()
        self.cov = {}
        self.nviol = 0
        self.unproved = []

    def collect(self, items, res, sup):
        direct = {i.key() for i in items}
        for k, r in list(res.items()) + list(sup.items()):
            if r[0] != 'ok':
                self.functions.append(dict(contract=k, result='%s' % (r,)[:200]))
                continue
            r = r[1]
            n, p = len(r['obls']), sum(o['status'] == 'proved' for o in r['obls'])
            self.obls += n
            self.proved += p
            self.qtime += r['qtime']
            self.queries += r['queries']
            self.entered |= set(r['entered'])
            self.externs |= set(r['externs'])
            for o in r['obls']:
                if o['status'] == 'proved':
                    b = o['backend'] or 'simplify'
                    self.backends[b] = self.backends.get(b, 0) + 1
                else:
                    self.unproved.append('%s: %s (%s)' % (k, o['name'], o['status']))
            self.functions.append(dict(contract=k, wrapper=r['wrapper'], role='lemma over the contracts' if r['kind'] == 'lemma' else 'property' if k in direct else 'callee', obligations=n, discharged=p, paths=r['paths'],
                                       callee_contracts=r['used'], loops=[dict(function=l['function'][-90:], invariants=l['invariants']) for l in r['loops']],
                                       covers='%d/%d' % (sum(c[1] for c in r['covers']), len(r['covers'])), solver_s=round(r['qtime'], 2),
                                       unsupported=r['unsupported']))

    def driver(self, drv, d):
        if drv:
            self.cov['cross_check'] = dict(what='bounded concrete runs of the real code against a reference model (not counted as proof)',
                                           program='drivers/drv_%s.cpp %s' % (drv.name, self.pid), result=d[0], cases=drv.cases(), budget_s=drv.budget)

    def evidence(self, code):
        c = dict(obligations=self.obls, discharged=self.proved, checker_cmd='python3-vt -m dv.check %s' % self.pid,
                 trusted_base=['clang 18 -O0 as the meaning of the C++ source (LLVM IR is what is verified)', 'dv/ir.py, dv/sym.py (IR parser, symbolic executor / VC generator)',
                               'dv/lia.py (exact bit-vector to integer translation)', 'z3 4.x, cvc5 1.1.2', 'the specifications in dv/specs_*.py'],
                 functions_under_contract=self.functions, functions_entered=sorted(x[-160:] for x in self.entered),
                 back_ends=self.backends, solver_s=round(self.qtime, 2), solver_queries=self.queries,
                 assumed_contracts=sorted(self.externs), capacity='every N in [1, 2^31]' if self.parametric else 'the instantiation compiled',
                 bounded=self.bounded, unproved=self.unproved[:40], notes=self.notes)
        c.update(self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='proof', coverage=c,
                  assumptions=self.assumptions + self.P.get('assumptions', []) + STANDING, wall_s=round(time.time() - self.t0, 1), violations=self.nviol)
        tmp = os.path.join(EVID, self.pid + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + '.json'))

    def replay(self, text):
        p = os.path.join(EVID, 'replay', '%s.txt' % self.pid)
        with open(p, 'w') as f:
            f.write(text)
        return p

    def done(self, code):
        for k in self.P.get('known', []):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        self.evidence(code)
        lem = [f for f in self.functions if f.get('role', '').startswith('lemma')]
        fns = {f.get('wrapper', f['contract']) for f in self.functions if f not in lem}
        print('%s %s: %d obligations, %d discharged, %d functions under contract%s, %d bounded stand-ins, %.1f s' % (
            self.pid, 'holds' if not self.bounded else 'holds within bounds (see evidence)', self.obls, self.proved, len(fns),
            ', %d lemmas' % len(lem) if lem else '', len(self.bounded), time.time() - self.t0))
        for b in self.bounded:
            print('  bounded only: %s (%s)' % (b.get('function'), str(b.get('why'))[:200]))
        return code

    def say(self, path, suffix=''):
        self.nviol += 1
        self.evidence(1)
        print('VIOLATION property=%s replay=%s%s' % (self.pid, path, suffix))
        return 1

    def obltext(self, failed):
        t = ''
        for i, f, r in failed:
            for o in f:
                t += 'failed obligation: %s\n  in: %s\n  components: %s\n  back end: %s (%.2f s)\n' % (o['name'], o['where'], o['info'], o['backend'], o['time'])
                if o['model']:
                    t += '  counterexample:\n' + ''.join('    %s = %s\n' % x for x in o['model'].items())
        return t

    def violation(self, failed):
        for i, f, r in failed:
            for o in f[:4]:
                print('failed obligation: %s %s' % (o['name'], o['info'] if o['info'] else ''))
        p = self.replay('property %s\nno failing input was found by the concrete driver; the obligations below are no longer provable.\n\n%s' % (self.pid, self.obltext(failed)))
        return self.say(p, ' no-failing-input-found')

    def violation_driver(self, drv, d, failed, open_):
        txt = d[1]
        print('\n'.join(txt.strip().split('\n')[:12]))
        for i, f, r in failed:
            for o in f[:4]:
                print('failed obligation: %s %s' % (o['name'], o['info'] if o['info'] else ''))
        for i, w in open_:
            print('no longer discharged: %s: %s' % (i.key(), str(w)[:300]))
        p = self.replay('property %s\nconcrete failing run of the real code (%s)\nrebuild and rerun: %s && %s %s %s %d %d\n\n%s\n\n%s\n%s' % (
            self.pid, 'ran past its time limit' if d[0] == 'timeout' else 'reported below', ' '.join(drv.cmd()), drv.bin, self.pid, self.tier, self.seed, drv.budget,
            txt[:20000], self.obltext(failed), ''.join('open: %s: %s\n' % (i.key(), w) for i, w in open_)))
        return self.say(p)

    def nobuild(self, drv, why):
        if drv is None:
            print('ERROR: %s' % why[:2000])
            return 2
        d = drv.wait()
        self.driver(drv, d)
        self.bounded.append(dict(function='all of %s' % self.pid, why='the verification harness does not compile against this tree: %s' % why[:1500],
                                 bound='the concrete driver only', cases=drv.cases()))
        if d[0] == 'nobuild':
            print('ERROR: neither the harness nor the public-interface driver compiles\n%s\n%s' % (why[:1500], d[1][:1500]))
            self.evidence(2)
            return 2
        if d[0] == 'fail':
            return self.violation_driver(drv, d, [], [])
        return self.done(0)


STANDING = ['C++ semantics as compiled by clang 18 at -O0 for x86-64 (little endian, 64-bit)', 'capacities 1 <= N <= 2^31']

if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv[1]))
