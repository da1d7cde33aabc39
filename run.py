#!/usr/bin/env python3
"""Runs the check of one property:  python3 run.py C01   (VERIF_TIER, VERIF_SEED in the environment)

1. builds the conformance driver against /repo's working tree;
2. lets TLC check the design models of the property (exhaustively, small constants);
3. lets TLC generate scenarios, where the property has some;
4. runs the driver: the code of /repo executes, and is recorded;
5. lets TLC decide for every recorded case whether the specification allows it.

Exit 0: every recorded case is allowed.  Exit 1: some case is not (VIOLATION line).
Exit 2: the check itself could not do its work.
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import CHECKS, TRACE_ROOTS  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')     # another tree only while developing the checks
TLA = '/opt/veriftools/tla'
JARS = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'


class Broken(Exception):
    """the check could not do its work"""


def goenv():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
             GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build',
             PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    return e


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                          errors='replace', **kw)


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.conf = CHECKS[prop]
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.limit = 840 if self.tier == 'quick' else 3 * 3600
        self.out = os.path.join(VERIF, 'out', f'{prop}-{os.getpid()}')
        self.replays = os.path.join(VERIF, 'out', 'replay', prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        os.makedirs(self.replays, exist_ok=True)
        self.cls = os.path.join(self.out, 'cls')
        self.states = self.transitions = 0
        self.models = []
        self.notes = []
        self.violations = []     # (case, why)
        self.known = []
        self.traces = 0
        self.events = 0
        self.samples = []
        self.actions = {}
        self.distinct = set()
        self.kinds = {}

    def left(self):
        return max(10, self.limit - (time.time() - self.t0))

    def log(self, *a):
        print(f'[{self.prop} {time.time() - self.t0:6.1f}s]', *a, flush=True)

    # ------------------------------------------------------------------ building
    def build(self, race=False):
        name = 'drv-race' if race else 'drv'
        path = os.path.join(self.out, name)
        cmd = ['go', 'build', '-tags', 'verif'] + (['-race'] if race else []) + ['-o', path, '.']
        if REPO != '/repo':
            mod = os.path.join(self.out, 'go.mod')
            src = open(os.path.join(VERIF, 'harness/go.mod')).read()
            open(mod, 'w').write(src.replace('=> /repo', '=> ' + REPO))
            shutil.copy(os.path.join(VERIF, 'harness/go.sum'), os.path.join(self.out, 'go.sum'))
            cmd[2:2] = ['-modfile=' + mod]
        env = goenv()
        if race:
            env['CGO_ENABLED'] = '1'
        r = sh(cmd, 600, cwd=os.path.join(VERIF, 'harness'), env=env)
        if r.returncode != 0:
            raise Broken('the driver does not build against /repo:\n' + r.stdout[-4000:])
        return path

    def javac(self):
        r = sh(['javac', '-cp', JARS, '-d', self.cls,
                os.path.join(VERIF, 'spec/java/FrOverrides.java')], 120)
        if r.returncode != 0:
            raise Broken('javac: ' + r.stdout[-2000:])

    def selftest(self):
        """the Java override of the field against its TLA+ definition (see spec/FrSelfTest.tla)"""
        lib = os.path.join(self.out, 'lib')
        os.makedirs(lib)
        s = open(os.path.join(VERIF, 'spec/Fr.tla')).read().replace('MODULE Fr -', 'MODULE FrPure -')
        s = re.sub(r'\bFr(?!Pure)([A-Z])', r'Pr\1', s)
        s = re.sub(r'\b(LimbsLess|Carry|Norm|ReduceOnce|SumRange|IntProduct|DoubleAddBit|ReduceLimb|ReduceFrom|PowLimb|PowFrom)\b',
                   r'Pr\1', s)
        open(os.path.join(lib, 'FrPure.tla'), 'w').write(s)
        out, gen, dist, dt = self.tlc('FrSelfTest', 'FrSelfTest.cfg', lib=lib, workers=4)
        if 'No error has been found' not in out:
            raise Broken('the field override differs from its definition:\n' + out[-2000:])
        self.selftest_states = dist

    # ------------------------------------------------------------------ TLC
    def tlc(self, root, cfg, env=None, workers=8, extra=(), timeout=None, heap='8g', lib=None):
        meta = os.path.join(self.out, f'meta-{root}-{time.time()}')
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', *([f'-DTLA-Library={lib}'] if lib else []),
               '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.FrOverrides',
               '-cp', f'{JARS}:{self.cls}', 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
               '-noGenerateSpecTE', '-config', cfg, *extra, root + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = sh(cmd, timeout or self.left(), cwd=os.path.join(VERIF, 'spec'), env=e)
        except subprocess.TimeoutExpired:
            raise Broken(f'TLC did not finish on {root}')
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        if r.returncode < 0 or 'OutOfMemoryError' in r.stdout or 'StackOverflowError' in r.stdout:
            raise Broken(f'TLC died on {root}: ' + r.stdout[-1500:])
        m = re.findall(r'^([\d,]+) states generated, ([\d,]+) distinct states found', r.stdout, re.M)
        gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        return r.stdout, gen, dist, time.time() - t

    def model(self, root, cfg=None, extra=(), timeout=None, allow_dead=(), violates=None):
        """a design model: a counterexample is a defect of the specification, not a verdict about the code"""
        cfg = cfg or root + '.cfg'
        out, gen, dist, dt = self.tlc(root, cfg, extra=('-coverage', '1', *extra), timeout=timeout)
        if violates:
            # a defect the specification describes has to be seen as one
            if f'Invariant {violates} is violated' not in out:
                raise Broken(f'model {root} ({cfg}): {violates} should be violated\n' + out[-3000:])
            self.models.append({'model': root, 'cfg': cfg, 'violates': violates, 'states_generated': gen, 'wall_s': round(dt, 1)})
            self.log(f'model {root} ({cfg}): violates {violates}, as it should')
            return out
        if 'No error has been found' not in out and 'The number of states generated' not in out:
            raise Broken(f'model {root} ({cfg}):\n' + out[-3000:])
        taken = {m.group(1): int(m.group(2).replace(',', ''))
                 for m in re.finditer(r'^<(\w+) line .*?>: [\d,]+:([\d,]+)', out, re.M)}
        dead = [a for a, n in taken.items() if n == 0 and not a.startswith('Init')]
        dead = [a for a in dead if a not in allow_dead]
        if dead:
            raise Broken(f'model {root} ({cfg}): actions never taken: {dead}')
        self.states += dist
        self.transitions += gen
        self.models.append({'model': root, 'cfg': cfg, 'distinct_states': dist, 'states_generated': gen,
                            'actions': taken, 'wall_s': round(dt, 1)})
        self.log(f'model {root} ({cfg}): {dist} distinct states, {gen} generated, {dt:.1f}s')
        return out

    def proof(self, root):
        """a theorem about the specification for every value of its constants, checked by tlapm"""
        where = os.path.join(self.out, 'proof')
        shutil.rmtree(where, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, 'spec'), where)
        shutil.copy(os.path.join(where, 'tlaps/TLC.tla'), where)
        t = time.time()
        for stretch in ('1', '5'):      # the back ends have time limits: once more, with longer ones
            try:
                r = sh(['tlapm', '--threads', '6', '--stretch', stretch, root + '.tla'], self.left(), cwd=where)
            except subprocess.TimeoutExpired:
                raise Broken(f'tlapm did not finish on {root}')
            m = re.search(r'All (\d+) obligations? proved', r.stdout)
            if m:
                break
        else:
            raise Broken(f'proof {root}:\n' + r.stdout[-3000:])
        n = int(m.group(1))
        self.models.append({'proof': root, 'obligations': n, 'wall_s': round(time.time() - t, 1)})
        self.log(f'proof {root}: {n} obligations, {time.time() - t:.1f}s')

    def scenarios(self, root, cfg, path, limit, simulate=None):
        """TLC enumerates (or samples) scenarios, printed as SCEN lines, to be replayed into the code"""
        extra, workers = (), 8
        if simulate:
            extra, workers = ('-simulate', f'num={2 * limit}', '-depth', str(simulate), '-seed', str(self.seed)), 1
        out, gen, dist, dt = self.tlc(root, cfg, extra=extra, workers=workers)
        if 'No error has been found' not in out and 'The number of states generated' not in out:
            raise Broken(f'scenario generator {root}:\n' + out[-3000:])
        lines = []
        for m in re.finditer(r'^<<"SCEN", (".*")>>$', out, re.M):
            lines.append(json.loads(m.group(1)))
        if not lines:
            raise Broken(f'{root} produced no scenario')
        total = len(lines)
        lines = sorted(set(lines))
        if limit and len(lines) > limit:
            import random
            random.Random(self.seed).shuffle(lines)
            lines = lines[:limit]
        with open(path, 'a') as f:
            f.write('\n'.join(lines) + '\n')
        self.states += dist
        self.transitions += gen
        self.models.append({'model': root, 'cfg': cfg, 'distinct_states': dist, 'states_generated': gen,
                            'scenarios': total, 'replayed': len(lines), 'wall_s': round(dt, 1)})
        self.log(f'{root} ({cfg}): {len(lines)} of {total} scenarios to replay')

    # ------------------------------------------------------------------ driver
    def drive(self, binary, name, scen=None, args=(), env=None, timeout=None):
        """runs the driver; a crash or a hang becomes an event no specification allows"""
        path = os.path.join(self.out, f'{name}.ndjson')
        frm, crashes = 0, 0
        e = goenv()
        e.update(env or {})
        while True:
            cmd = [binary, '-prop', name, '-tier', self.tier, '-seed', str(self.seed), '-from', str(frm), '-out', path]
            if scen:
                cmd += ['-scen', scen]
            cmd += list(args)
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   timeout=timeout or self.left(), env=e, cwd=self.out, errors='replace')
            except subprocess.TimeoutExpired:
                raise Broken('the driver did not finish')
            for line in p.stdout.splitlines():
                if line.startswith('TRUNCATED'):
                    self.notes.append(line)
            if p.returncode == 0 and 'DONE' in p.stdout:
                break
            if p.returncode == 2 and 'unknown property' in p.stderr:
                raise Broken(p.stderr[-500:])
            if p.returncode < 0 and p.returncode in (-9,):
                raise Broken('the driver was killed')
            try:
                cur = int(open(path + '.cur').read())
            except (OSError, ValueError):
                raise Broken('the driver failed to start: ' + p.stderr[-1500:])
            what = 'hang' if p.returncode == 7 else 'crash'
            # keep only whole lines
            if os.path.exists(path):
                data = open(path, 'rb').read()
                if data and not data.endswith(b'\n'):
                    open(path, 'wb').write(data[:data.rfind(b'\n') + 1])
            head = p.stderr.strip().splitlines()
            if p.returncode == 66:
                what = 'race'
            with open(path, 'a') as f:
                f.write(json.dumps({'kind': what, 'idx': cur, 'id': f'{name}/{cur}',
                                    'what': '\n'.join(head[:60])[:4000]}) + '\n')
            crashes += 1
            frm = cur + 1
            if crashes >= 3 or what == 'hang':
                self.notes.append(f'the driver stopped after {crashes} crashes or hangs, at case {cur}')
                break
        return path

    def drive_fresh(self, binary, name, count, env=None):
        """runs every case in a process of its own: nothing has been used before it"""
        path = os.path.join(self.out, f'{name}.ndjson')

        def one(i):
            out = os.path.join(self.out, f'{name}-{i}.ndjson')
            e = goenv()
            e.update(env or {})
            try:
                p = subprocess.run([binary, '-prop', name, '-tier', self.tier, '-seed', str(self.seed), '-only', str(i), '-out', out],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=self.left(), env=e,
                                   cwd=self.out, errors='replace')
            except subprocess.TimeoutExpired:
                raise Broken('the driver did not finish')
            if p.returncode == 0 and 'DONE' in p.stdout:
                return open(out).read()
            if p.returncode == 2 and 'unknown property' in p.stderr:
                raise Broken(p.stderr[-500:])
            if p.returncode == -9:
                raise Broken('the driver was killed')
            what = {7: 'hang', 66: 'race'}.get(p.returncode, 'crash')
            if not os.path.exists(out + '.cur') and what != 'race':
                raise Broken('the driver failed to start: ' + p.stderr[-1500:])
            return json.dumps({'kind': what, 'idx': i, 'id': f'{name}/{i}',
                               'what': '\n'.join(p.stderr.strip().splitlines()[:60])[:4000]}) + '\n'
        with ThreadPoolExecutor(4) as pool, open(path, 'w') as f:
            for text in pool.map(one, range(count)):
                f.write(text)
        return path

    # ------------------------------------------------------------------ traces
    def validate(self, path):
        """splits the recorded cases by kind and has TLC decide each"""
        groups = {}
        with open(path) as f:
            for line in f:
                if line.strip():
                    k = json.loads(line)['kind'] if not line.startswith('{"') else None
                    if k is None:
                        k = json.loads(line)['kind']
                    groups.setdefault(k, []).append(line)
        for kind, lines in sorted(groups.items()):
            self.kinds[kind] = self.kinds.get(kind, 0) + len(lines)
            if kind in ('crash', 'hang', 'race'):
                for line in lines:
                    case = json.loads(line)
                    self.violations.append((case, f'{kind}: no action of the specification allows it'))
                continue
            size = self.conf.get('batch', 60_000_000)
            batch, n = [], 0
            for line in lines:
                if batch and n + len(line) > size:
                    self.validate_batch(kind, batch)
                    batch, n = [], 0
                batch.append(line)
                n += len(line)
            if batch:
                self.validate_batch(kind, batch)

    def validate_batch(self, kind, lines):
        root = TRACE_ROOTS[kind]
        failed_eval = 0
        verdicts, dist, dt = {}, 0, 0
        while lines:
            f = os.path.join(self.out, f'cases-{kind}.ndjson')
            with open(f, 'w') as h:
                h.writelines(lines)
            out, gen, dist, dt = self.tlc(root, root + '.cfg', env={'CASES': f})
            verdicts = {}
            # (TLC breaks the long ones over several lines)
            for m in re.finditer(r'^<<\s*"(ACCEPT|REJECT|KNOWN)",\s+(\d+)([\s\S]*?)>>$', out, re.M):
                verdicts.setdefault(int(m.group(2)), []).append((m.group(1), re.sub(r'\s+', ' ', m.group(3))))
            if 'No error has been found' in out:
                break
            # an evaluation error: the data of the case does not even have the shape of a trace
            m = re.search(r'^/?\\?/?\\? ?c = (\d+)', out, re.M)
            if not m or failed_eval >= 6 or not re.search(r'Attempted to|not a field element|evaluating|Evaluating', out):
                raise Broken(f'trace specification {root}:\n' + out[-3000:])
            failed_eval += 1
            k = int(m.group(1)) - 1
            err = re.search(r'^Error: (.*(?:\n.*){0,4})', out, re.M)
            self.violations.append((json.loads(lines[k]), 'not a trace of the specification: ' + (err.group(1) if err else '')))
            lines = lines[:k] + lines[k + 1:]
        self.states += dist
        self.transitions += gen
        self.log(f'{root}: {len(lines)} traces, {dist} states, {dt:.1f}s')
        for i, line in enumerate(lines, 1):
            vs = verdicts.get(i, [])
            names = {v for v, _ in vs}
            self.traces += 1
            if 'ACCEPT' in names and 'REJECT' not in names:
                pass
            elif 'KNOWN' in names and 'REJECT' not in names:
                self.known.append((json.loads(line), vs[0][1]))
            else:
                self.violations.append((json.loads(line), 'rejected by the specification ' + (vs[0][1] if vs else '(no action enabled)')))
            self.distinct.add(hash(re.sub(r'"(id|idx|note)":("[^"]*"|\d+),?', '', line)))
        for line in lines[:1] + lines[len(lines) // 2:len(lines) // 2 + 1]:
            case = json.loads(line)
            self.samples.append({'id': case['id'], 'kind': kind, 'note': case.get('note', ''),
                                 'head': re.sub(r'\[\d+(?:,\d+){19}\]', '#', line)[:400]})

    # ------------------------------------------------------------------ reporting
    def finish(self, rc):
        conf = self.conf
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': conf.get('level', 'model_checking'),
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'distinct_nontrivial': len(self.distinct),
                'rule': conf['rule'], 'samples': self.samples[:6] or ['none'],
                'field_selftest_states': getattr(self, 'selftest_states', 0),
                'models': self.models, 'kinds': self.kinds, 'notes': self.notes,
                'known_findings_seen': len(self.known),
            },
            'assumptions': conf.get('assumptions', []),
            'wall_s': round(time.time() - self.t0, 1),
            'violations': len(self.violations),
        }
        if self.violations:
            ev['coverage']['first_violations'] = [
                {'id': c.get('id'), 'note': c.get('note', ''), 'why': w[:300]} for c, w in self.violations[:5]]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.out, ignore_errors=True)
        return rc

    def replay(self, n, case, why):
        path = os.path.join(self.replays, f'{self.tier}-{self.seed}-{n}.json')
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'why': why, 'tier': self.tier, 'seed': self.seed, 'case_index': case.get('idx'),
                       'regenerate': f'VERIF_TIER={self.tier} VERIF_SEED={self.seed} python3 /verif/run.py {self.prop}',
                       'case': case}, f)
        return path

    def main(self):
        try:
            self.javac()
            conf = self.conf
            pool = ThreadPoolExecutor(1)
            fast = bool(os.environ.get('VERIF_FAST'))     # only while developing the checks: the code, not the models
            selftest = None if fast else pool.submit(self.selftest)
            binary = self.build()
            for m in [] if fast else conf.get('models', []):
                if self.tier in m.get('tiers', ('quick', 'thorough')):
                    self.model(m['root'], m.get('cfg'), extra=m.get('extra', ()), allow_dead=m.get('dead', ()),
                               violates=m.get('violates'))
            for root in [] if fast or self.tier == 'quick' else conf.get('proofs', []):
                self.proof(root)
            scen = None
            if 'scen' in conf:
                scen = os.path.join(self.out, 'scen.ndjson')
                for s in conf['scen']:
                    self.scenarios(s['root'], s['cfg'], scen, limit=s['limit'][self.tier == 'thorough'],
                                   simulate=s.get('simulate'))
            for d in conf['drive']:
                b = binary
                env = {}
                if d.get('race'):
                    b = self.build(race=True)
                    env = {'GORACE': 'exitcode=66 halt_on_error=1'}
                self.log('driving', d['name'])
                if d.get('fresh'):
                    path = self.drive_fresh(b, d['name'], d['fresh'][self.tier == 'thorough'], env=env)
                else:
                    path = self.drive(b, d['name'], scen if d.get('scen') else None, env=env)
                self.validate(path)
            if selftest:
                selftest.result()
        except Broken as e:
            if not self.violations:
                self.log('BROKEN', e)
                return self.finish(2)
            self.log('incomplete:', str(e)[:500])
        self.report_known()
        if self.violations:
            for i, (case, why) in enumerate(self.violations[:8]):
                p = self.replay(i, case, why)
                self.log('rejected', case.get('id'), case.get('note', ''), '--', why[:300].replace('\n', ' '))
                if i == 0:
                    first = p
            print(f'VIOLATION property={self.prop} replay={first}', flush=True)
            return self.finish(1)
        if self.traces == 0:
            self.log('BROKEN: nothing was validated')
            return self.finish(2)
        self.log(f'held: {self.traces} traces validated, {self.states} states')
        return self.finish(0)

    def report_known(self):
        if not self.known:
            return
        listed = []
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) class=(\S+) (.*)', line)
                if m and m.group(1) == self.prop:
                    listed.append((m.group(2), m.group(3)))
        seen = {}
        for case, info in self.known:
            cl = case.get('finding', 'none')
            if cl in dict(listed):
                seen[cl] = seen.get(cl, 0) + 1
            else:
                self.violations.append((case, f'accepted by the specification only as a deviation, but not a listed finding ({cl})'))
        for cl, n in sorted(seen.items()):
            print(f'KNOWN-FINDING: property={self.prop} {cl}: {dict(listed)[cl]} ({n} cases in this run)', flush=True)


if __name__ == '__main__':
    sys.exit(Run(sys.argv[1]).main())
