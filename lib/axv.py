"""Machinery of the checks: build the driver from /repo's working tree, run it, have TLC judge.

A check of a property consists of units.  A unit names a component driver and a TLA+ module and
- model-checks the module exhaustively over small constants (ObjMC),
- has TLC print a script for every transition of the settled state graph (ObjGen),
- runs those scripts and seeded random ones against the real code in virtual time, with
  seed-selected interleavings, and records traces,
- runs random scripts with the race detector,
- has TLC decide for every recorded trace whether the specification allows it (ObjTrace).
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AXV_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed: error exit, never a violation."""


class TLCTimeout(CheckError):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv(cache_extra=None):
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GONOSUMDB='*', GOWORK='off',
             CGO_ENABLED='1')
    return e


def run(cmd, cwd=None, env=None, timeout=600, check=True):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    if check and p.returncode:
        raise CheckError('%s: exit %d\n%s' % (' '.join(cmd), p.returncode, p.stdout[-4000:]))
    return p


class Build:
    """A scratch directory with the instrumented copy of the repository and the drivers."""

    def __init__(self, scratch):
        self.dir = scratch
        self.plain = False
        self.bins = {}

    def prepare(self):
        d = self.dir
        os.makedirs(d + '/instr')
        for f in ('main.go', 'go.mod'):
            shutil.copy(VERIF + '/instr/' + f, d + '/instr/')
        run(['go', 'build', '-o', d + '/instr/instr', '.'], cwd=d + '/instr', env=goenv())
        run([d + '/instr/instr', REPO, d + '/repo', VERIF + '/vsync'])
        if run(['go', 'build', './...'], cwd=d + '/repo', env=goenv(), check=False).returncode:
            shutil.rmtree(d + '/repo')
            run([d + '/instr/instr', '-plain', REPO, d + '/repo', VERIF + '/vsync'])
            run(['go', 'build', './...'], cwd=d + '/repo', env=goenv())
            self.plain = True
        shutil.copytree(VERIF + '/harness', d + '/harness')
        mod = open(d + '/repo/go.mod').read()
        name = re.search(r'^module\s+(\S+)', mod, re.M).group(1)
        req = []
        for m in re.finditer(r'^require\s*\((.*?)^\)', mod, re.M | re.S):
            req += [l.split('//')[0].strip() for l in m.group(1).splitlines()]
        req += [m.group(1).split('//')[0].strip() for m in re.finditer(r'^require\s+([^(\s].*)$', mod, re.M)]
        req = [r for r in req if r]
        rep = re.findall(r'^replace\s+.*$', mod, re.M)
        with open(d + '/harness/go.mod', 'w') as f:
            f.write('module axverif\n\ngo 1.25\n\nrequire %s v0.0.0\n' % name)
            for r in req:
                f.write('require %s\n' % r)
            f.write('\nreplace %s => ../repo\n' % name)
            for r in rep:
                f.write(r + '\n')
        shutil.copy(d + '/repo/go.sum', d + '/harness/go.sum')

    def bin(self, pkg, race=False):
        k = (pkg, race)
        if k not in self.bins:
            out = '%s/%s%s.test' % (self.dir, pkg, '-race' if race else '')
            run(['go', 'test', '-vet=off', '-c', '-o', out] + (['-race'] if race else []) + ['./' + pkg],
                cwd=self.dir + '/harness', env=goenv())
            self.bins[k] = out
        return self.bins[k]


PKGRE = re.compile(r'^github\.com/axgrid/axutils/(?!internal/axvsync|axvctl)(\S+?)\(', re.I)


def libframes(text):
    return [l.strip() for l in text.splitlines() if PKGRE.match(l.strip())]


def race_in_library(text):
    """True when one of the two accesses of a race report has a library frame before any harness frame."""
    n = 0
    for sec in re.split(r'^(?=(?:Previous )?(?:[Rr]ead|[Ww]rite|atomic) .*by (?:goroutine|main))', text, flags=re.M)[1:]:
        for l in sec.splitlines()[1:]:
            l = l.strip()
            if not l:
                break
            if l.startswith('axverif/'):
                break
            if PKGRE.match(l):
                n += 1
                break
    return n > 0


class Trace:
    __slots__ = ('id', 'script', 'ev', 'done', 'note', 'kind')

    def __init__(self, i, script, kind):
        self.id, self.script, self.ev, self.done, self.note, self.kind = i, script, [], False, '', kind

    def line(self):
        return json.dumps({'cfg': self.script['cfg'], 'ev': self.ev}, sort_keys=True)


def drive(build, unit, n, seed, profile='', scripts=None, race=False, timeout=240, kind=None):
    """Runs scripts 0..n-1 in NPROC processes; returns the traces in order."""
    binary = build.bin(unit['pkg'], race)
    work = tempfile.mkdtemp(prefix='drv-', dir=build.dir)
    sf = None
    if scripts is not None:
        n = len(scripts)
        sf = work + '/scripts'
        with open(sf, 'w') as f:
            for s in scripts:
                f.write(json.dumps(s) + '\n')
    if n == 0:
        return []
    shards = min(NPROC, max(1, n // 4))
    cuts = [n * i // shards for i in range(shards + 1)]
    deadline = time.time() + timeout

    def shard(k):
        out = {}
        at, end = cuts[k], cuts[k + 1]
        rounds = 0
        while at < end:
            rounds += 1
            if rounds > 40 or any(t.note.startswith('AXV-SPIN') for t in out.values()):
                break  # enough crashes seen
            path = '%s/out.%d.%d' % (work, k, at)
            e = goenv()
            e.update(AXV_COMP=unit['comp'], AXV_OUT=path, AXV_SEED=str(seed), AXV_FROM=str(at), AXV_TO=str(end),
                     AXV_PROFILE=profile, GOMAXPROCS='1', GORACE='halt_on_error=0 atexit_sleep_ms=0',
                     GOTRACEBACK='all')
            if sf:
                e['AXV_SCRIPTS'] = sf
            cwd = tempfile.mkdtemp(prefix='cwd-', dir=work)
            errp = path + '.err'
            with open(errp, 'w') as ef:
                try:
                    p = subprocess.run([binary, '-test.run', '^TestDrive$', '-test.timeout=0'], cwd=cwd, env=e,
                                       stdout=ef, stderr=ef, timeout=max(5, deadline - time.time()))
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    raise CheckError('driver %s timed out' % unit['comp'])
            err = open(errp, errors='replace').read()
            secs = {}
            for m in re.finditer(r'^== script (\d+)\n(.*?)(?=^== script |\Z)', err, re.S | re.M):
                secs[int(m.group(1))] = m.group(2)
            last = None
            if os.path.exists(path):
                for ln in open(path):
                    if not ln.endswith('\n'):
                        break
                    i, r = ln.rstrip('\n').split('\t', 1)
                    i = int(i)
                    if r[0] == 'S':
                        last = out[i] = Trace(i, json.loads(r[1:]), kind or profile or 'gen')
                    elif r == 'E':
                        out[i].done = True
                    else:
                        ev = json.loads(r)
                        if ev['e'] == 'race':
                            if not unit.get('race_any') and not race_in_library(secs.get(i, '')):
                                raise CheckError('race report without library access:\n' + secs.get(i, '')[:6000])
                            out[i].note = secs.get(i, '')[:6000]
                        if ev['e'] in ('panic', 'race'):
                            out[i].note = out[i].note or (ev.get('msg', '') + ' ' + ev.get('stack', ''))
                            if ev['e'] == 'panic' and not ev.get('stack'):
                                raise CheckError('panic outside the library: %s\n%s' % (ev, secs.get(i, '')[-3000:]))
                            ev = {k: v for k, v in ev.items() if k in ('e', 'c')}
                        out[i].ev.append(ev)
            if rc == 0:
                break
            if last is not None and last.done and last.id == end - 1:
                break  # go test reports failed subtests (races, leaks) with exit 1
            if last is None or last.done:
                raise CheckError('driver %s died (exit %s)\n%s' % (unit['comp'], rc, err[-4000:]))
            sec = secs.get(last.id, err)
            spin = rc == 97 and [g for g in re.findall(r'^goroutine \d+.*? \[(?:running|runnable)[^\n]*\n(.*?)(?:\n\n|\Z)', sec, re.S | re.M)
                                 if libframes(g) and 'core.watchdog' not in g]
            if spin:  # a loop without any statement, or one that never lets go of the processor
                last.note, last.done = 'AXV-SPIN\n' + spin[0][:3000], True
                last.ev.append({'e': 'spin'})
                at = last.id + 1
                continue
            if rc in (96, 97) or 'AXV-HANG' in err or 'AXV-FAIL' in err:
                raise CheckError('driver %s: script %d hung or failed\n%s' % (unit['comp'], last.id, sec[-6000:]))
            m = re.search(r'^(panic: |fatal error: ).*', sec, re.M)
            if not m or rc < 0:
                raise CheckError('driver %s died (exit %s)\n%s' % (unit['comp'], rc, err[-4000:]))
            first = re.search(r'^goroutine \d+.*?\n(.*?)(?:\n\n|\Z)', sec[m.start():], re.S | re.M)
            if not libframes(first.group(1) if first else ''):
                raise CheckError('crash outside the library\n' + sec[m.start():][:4000])
            last.note = sec[m.start():][:3000]
            last.ev.append({'e': 'crash'})
            last.done = True
            at = last.id + 1
        return out

    res = {}
    with ThreadPoolExecutor(shards) as ex:
        for o in ex.map(shard, range(shards)):
            res.update(o)
    shutil.rmtree(work, ignore_errors=True)
    return [res[i] for i in sorted(res)]


TLC_TIMEOUT = None


class TLC:
    def __init__(self, scratch):
        self.dir = scratch
        self.n = 0

    def run(self, root, cfg, env=None, workers=NPROC, args=(), timeout=800, heap="6g"):
        timeout = TLC_TIMEOUT or timeout
        self.n += 1
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.dir)
        for f in os.listdir(VERIF + '/spec'):
            if f.endswith('.tla'):
                shutil.copy(VERIF + '/spec/' + f, d)
        open(d + '/Root.tla', 'w').write(root)
        open(d + '/Root.cfg', 'w').write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', d + '/meta', '-config', 'Root.cfg'] + list(args) + ['Root.tla']
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCTimeout('TLC timed out')
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return p.stdout, p.returncode

    @staticmethod
    def stats(out):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def validate(self, unit, traces, diag=False, timeout=800):
        """Returns the set of indices of accepted traces, and statistics; with diag the furthest positions."""
        path = tempfile.mktemp(prefix='traces-', dir=self.dir)
        with open(path, 'w') as f:
            for t in traces:
                f.write(with_results(t, unit.get('hint')) + '\n')
        root = '''---- MODULE Root ----
EXTENDS %s, Json, IOUtils
VARIABLES tid, l, st, calls
Traces == ndJsonDeserialize(IOEnv.AXV_TRACES)
Diag == %s
INSTANCE ObjTrace
Invariant == Inv(cfg, st, calls)
====
''' % (unit['spec'], 'TRUE' if diag else 'FALSE')
        cfg = 'SPECIFICATION TraceSpec\nINVARIANT Invariant Progress\nCHECK_DEADLOCK FALSE\n'
        out, rc = self.run(root, cfg, env={'AXV_TRACES': path}, heap='12g', timeout=timeout)
        os.unlink(path)
        if 'StackOverflowError' in out or 'OutOfMemoryError' in out:
            raise TLCTimeout('too much for TLC')
        if rc != 0 or 'Model checking completed. No error' not in out:
            msg = '\n'.join(x for x in out.splitlines() if 'ACC' not in x and 'AT"' not in x)
            raise CheckError('trace validation of %s failed\n%s\n...\n%s' % (unit['spec'], msg[:1500], msg[-4000:]))
        acc = {int(x) - 1 for x in re.findall(r'<<"ACC", (\d+)>>', out)}
        at = {}
        for a, b in re.findall(r'<<"AT", (\d+), (\d+)>>', out):
            at[int(a) - 1] = max(at.get(int(a) - 1, 0), int(b))
        return acc, at, self.stats(out)

    def judge(self, unit, lines, limit=180):
        """Validates traces; if that takes too long (a trace that the specification rejects can be dear, as all
        explanations are tried), in smaller and smaller groups, until enough rejected ones are known.
        Returns accepted and undecided indices and statistics."""
        try:
            acc, _, st = self.validate(unit, lines, timeout=limit)
            return acc, set(), st
        except TLCTimeout:
            pass
        end = time.time() + 360
        order = sorted(range(len(lines)), key=lambda i: len(lines[i]))
        todo = [order[i:i + 150] for i in range(0, len(order), 150)]
        acc, und, bad, gen, dist = set(), set(), 0, 0, 0
        while todo:
            g = todo.pop(0)
            if bad >= 3 or time.time() > end:
                und.update(g)
                continue
            try:
                a, _, (x, y) = self.validate(unit, [lines[i] for i in g], timeout=25 if len(g) > 12 else 12)
                acc |= {g[k] for k in a}
                bad += len(g) - len(a)
                gen, dist = gen + x, dist + y
            except TLCTimeout:
                if len(g) > 12:
                    todo[:0] = [g[i:i + 12] for i in range(0, len(g), 12)]
                else:
                    und.update(g)
        return acc, und, (gen, dist)

    def modelcheck(self, unit, mc):
        sub = ''.join('%s == %s\n' % (k, v) for k, v in mc.get('defs', {}).items())
        w = ['%s <- %s' % (k, v) for k, v in mc.get('with', {}).items()]
        root = '''---- MODULE Root ----
EXTENDS %s
VARIABLES cfg, st, calls
MaxConc == %d
%sINSTANCE ObjMC%s
====
''' % (unit['spec'], mc.get('conc', 2), sub, (' WITH ' + ', '.join(w)) if w else '')
        cfg = 'SPECIFICATION McSpec\nINVARIANTS Invariant NoStuck\nCHECK_DEADLOCK FALSE\n'
        out, rc = self.run(root, cfg, workers=mc.get('workers', max(2, NPROC // 2)), timeout=mc.get('timeout', 700))
        if rc != 0 or 'Model checking completed. No error' not in out:
            raise CheckError('the specification %s does not satisfy its properties\n%s' % (unit['spec'], out[-6000:]))
        return self.stats(out)

    def generate(self, unit, g):
        w = ['%s <- %s' % (k, v) for k, v in g.get('with', {}).items()]
        sub = ''.join('%s == %s\n' % (k, v) for k, v in g.get('defs', {}).items())
        root = '''---- MODULE Root ----
EXTENDS %s
VARIABLES cfg, st, calls, hist
MaxConc == %d
MaxHist == %d
%sINSTANCE ObjGen%s
====
''' % (unit['spec'], g.get('conc', 1), g.get('hist', 6), sub, (' WITH ' + ', '.join(w)) if w else '')
        cfg = 'SPECIFICATION GenSpec\nVIEW GenView\nCHECK_DEADLOCK FALSE\n'
        out, rc = self.run(root, cfg, workers=1, timeout=g.get('timeout', 700))
        if rc != 0 or 'Model checking completed. No error' not in out:
            raise CheckError('script generation from %s failed\n%s' % (unit['spec'], out[-5000:]))
        res = []
        for ln in out.splitlines():
            if ln.startswith('"GEN'):
                res.append(json.loads(json.loads(ln)[3:]))
        return res, self.stats(out)


def to_phases(hist, par=None):
    ph = []
    for op in hist:
        if op['op'] == 'tick':
            if ph:
                ph[-1]['ticks'] += 1
            else:
                ph.append({'th': [], 'ticks': 1})
        else:
            ph.append({'th': [[op]], 'ticks': 0})
    if par:
        ph.append({'th': [[o] for o in par], 'ticks': 0})
    return ph


def fs_together(ops):
    """Builders, and one open file, are used by one goroutine at a time."""
    hs = [o['h'] for o in ops if 'h' in o]
    return len(hs) == len(set(hs)) and all(o['op'] in ('open', 'read', 'close', 'rall', 'rdir', 'walk') for o in ops)


def gen_scripts(gen, limit, npar, rnd, together=None):
    """Sequential scripts, one per transition of the specification, and concurrent ones: two or three
    calls at once in a reached state."""
    seen, uniq = set(), []
    for g in gen:
        k = json.dumps(g, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(g)
    total = len(uniq)
    groups = {}
    for g in uniq:
        if g['h'] and g['h'][-1]['op'] != 'tick':
            k = json.dumps([g['cfg'], g['h'][:-1]], sort_keys=True)
            groups.setdefault(k, (g['cfg'], g['h'][:-1], []))[2].append(g['h'][-1])
    if len(uniq) > limit:
        uniq = rnd.sample(uniq, limit)
    res = [dict(cfg=g['cfg'], ph=to_phases(g['h']), mode=1, seed=rnd.getrandbits(40), probe=True) for g in uniq]
    gs = list(groups.values())
    for _ in range(npar if gs else 0):
        c, h, ops = rnd.choice(gs)
        k = rnd.choice((2, 2, 3))
        par = [rnd.choice(ops) for _ in range(k)]
        if together and not together(par):
            continue
        res.append(dict(cfg=c, ph=to_phases(h, par), mode=rnd.choice((1, 1, 2, 3, 4)),
                        seed=rnd.getrandbits(40), probe=True))
    return res, total


NEVER = [-987654321]


def hint_chunks(t):
    """The chunks that each lane gives, in order."""
    rc = {e['c']: e for e in t['ev'] if e['e'] == 'call' and e['op'] == 'recv'}
    want = [[] for _ in range(t['cfg']['n'])]
    for e in t['ev']:
        if e['e'] == 'ret' and e['c'] in rc:
            if e['r']:
                want[rc[e['c']]['i']].append(e['r'])
        elif e['e'] == 'fb':
            if 0 <= e['i'] < len(want):
                want[e['i']].append(e['r'])
    t['cfg']['want'] = want


def hint_items(t):
    """The place of each item in the order in which its shard gives items."""
    rc = {e['c']: e for e in t['ev'] if e['e'] == 'call' and e['op'] == 'recv'}
    n = t['cfg']['n']
    cnt, place = [0] * n, {}
    for e in t['ev']:
        i = v = None
        if e['e'] == 'ret' and e['c'] in rc and e['r']:
            i, v = rc[e['c']]['i'], e['r'][0]
        elif e['e'] == 'fb':
            i, v = e['i'], e['v']
        if i is not None and 0 <= i < n:
            cnt[i] += 1
            place.setdefault((i, v), cnt[i])
    for e in t['ev']:
        if e['e'] == 'call' and e['op'] == 'add':
            i = e['k'] % n
            e['q'] = place.get((i, e['v']), cnt[i] + 1)


def hint_times(t):
    """When each call began and returned."""
    at = {e['c']: k for k, e in enumerate(t['ev']) if e['e'] == 'ret'}
    ran = {e['i'] for e in t['ev'] if e['e'] == 'fb'}
    for k, e in enumerate(t['ev']):
        if e['e'] == 'call' and e['op'] in ('run', 'runctx'):
            e['x'] = 1 if e['i'] in ran else 0
            e['p'], e['q'] = k, at.get(e['c'], 10 ** 8)


def with_results(line, hint=None):
    """Adds to every call the result it will return."""
    t = json.loads(line)
    if hint:
        hint(t)
    rr = {e['c']: e['r'] for e in t['ev'] if e['e'] == 'ret'}
    for e in t['ev']:
        if e['e'] == 'call':
            e['rr'] = rr.get(e['c'], NEVER)
    return json.dumps(t)


def relabel_items(s):
    """Numbers the items of a generated script, so that they are all different."""
    n = 0
    for ph in s['ph']:
        for th in ph['th']:
            for i, o in enumerate(th):
                if o['op'] == 'add':
                    n += 1
                    th[i] = dict(o, v=n)


def relabel_tasks(s):
    n, m = {0: 0, 1000: 1000}, {}
    for ph in s['ph']:
        for th in ph['th']:
            for i, o in enumerate(th):
                if o['op'] in ('run', 'runctx'):
                    b = o['i'] // 1000 * 1000
                    n[b] += 1
                    m[o['i']] = n[b]
                    th[i] = dict(o, i=n[b])
                elif o['op'] == 'open':
                    th[i] = dict(o, i=m[o['i']])


def describe(t, pos):
    """A readable account of why a trace was rejected."""
    ev = t.ev[pos - 1] if 0 < pos <= len(t.ev) else {'e': 'end'}
    s = 'event %d %s' % (pos, json.dumps(ev))
    if ev.get('e') == 'ret':
        for e in t.ev[:pos]:
            if e.get('e') == 'call' and e.get('c') == ev.get('c'):
                s += ' of call %s' % json.dumps({k: v for k, v in e.items() if k not in ('e', 'c')})
    return s
