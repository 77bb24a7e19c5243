#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decide one property.  See DESIGN.md.
   check.py --replay FILE             : judge a recorded history again and say what it breaks.

Exit 0: held on everything explored.  Exit 1: a VIOLATION line.  Exit 2: the check could not be run."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
BUILD = os.path.join(HERE, 'build')
JB = os.path.join(BUILD, 'java')
HARNESS = os.path.join(HERE, 'harness', 'target', 'release', 'harness')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:' + JB
CORES = 8
T0 = time.time()
BUDGET = {'quick': 600, 'thorough': 6 * 3600}

class ToolError(Exception): pass

def log(*a): print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

# ---------------------------------------------------------------- building
def build_java():
    os.makedirs(JB, exist_ok=True)
    src = os.path.join(SPEC, 'java', 'BigNum.java')
    cls = os.path.join(JB, 'BigNum.class')
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src): return
    r = sh(['javac', '-cp', '/opt/veriftools/tla/tla2tools.jar', '-d', JB, src])
    if r.returncode: raise ToolError('javac: ' + r.stdout[-2000:])

def build_harness():
    r = sh(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; cd %s/harness && CARGO_TARGET_DIR=%s/harness/target cargo build --release --offline' % (HERE, HERE)])
    if r.returncode: raise ToolError('cargo build of the harness failed:\n' + r.stdout[-3000:])

def build():
    with ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(build_java), ex.submit(build_harness)]: f.result()
    log('built')

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, args=(), mem='2500m', timeout=None, workers='1', gc=2):
    """cfg is the text of the configuration; returns TLC's output"""
    d = tempfile.mkdtemp(prefix='tlc.')
    try:
        c = os.path.join(d, 'M.cfg')
        open(c, 'w').write(cfg)
        e = dict(os.environ); e.update(env or {}); e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % gc, '-Xmx' + mem, '-Xss32m', '-cp', CP, 'tlc2.TLC',
               '-workers', workers, '-metadir', os.path.join(d, 'md'), '-deadlock', '-config', c, *args, module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on ' + module)
        return r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)

def states(out):
    m = re.findall(r'([\d,]+) states generated[^\n]*?, ([\d,]+) distinct states found', out)
    if not m: return 0, 0
    g, s = m[-1]
    return int(s.replace(',', '')), int(g.replace(',', ''))

def completed(out):
    return 'Model checking completed. No error has been found.' in out

def var(out, name):
    """last value of a variable in TLC's error trace"""
    m = re.findall(r'/\\ ' + name + r' = (.*?)(?=\n/\\ |\n\n|\nState |\Z)', out, re.S)
    return re.sub(r'\s+', ' ', m[-1]).strip() if m else '?'

# ---------------------------------------------------------------- results
class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.info, self.assume = [], [], {}, []
    def count(self, out):
        s, g = states(out)
        self.states += s; self.transitions += g
    def add(self, key, n): self.info[key] = self.info.get(key, 0) + n

def replay_path(prop, tag):
    d = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%s.json' % (prop, re.sub(r'\W', '_', tag)))

def violation(res, prop, tag, what, data):
    p = replay_path(prop, tag)
    json.dump({'property': prop, 'what': what, **data}, open(p, 'w'))
    res.viol.append((what, p))
    log('violation:', tag, what)

# ---------------------------------------------------------------- judging recorded histories
def judge(res, prop, module, invariant, files, report='FALSE', group='G'):
    """every history of every file (ndjson) against a trace specification; one TLC per file"""
    cfg = 'SPECIFICATION Spec\nCONSTANT Report = %s\nINVARIANT %s\n' % (report, invariant)
    def one(f):
        if os.path.getsize(f) == 0: return f, None
        return f, tlc(module, cfg, env={'TRACES': f}, timeout=BUDGET[TIER])
    with ThreadPoolExecutor(CORES) as ex:
        outs = list(ex.map(one, files))
    for f, out in outs:
        if out is None: continue
        lines = [l for l in open(f).read().split('\n') if l]
        res.count(out)
        if completed(out):
            res.traces += len(lines)
        elif 'Invariant %s is violated' % invariant in out:
            # (an initial state has no "State n" header)
            tr = int(var(out, 'tr')); i = int(var(out, 'i'))
            t = json.loads(lines[tr - 1])
            what = var(out, 'bad')
            mine = sorted(set(re.findall(r'<<"%s", "([^"]*)">>' % invariant, what)))
            t['ev'] = t['ev'][:i]
            violation(res, prop, str(t.get('id', tr)), '; '.join(mine) or what,
                      {'module': module, 'invariant': invariant, 'event': i - 1, 'history': t})
        else:
            keep = os.path.join(tempfile.gettempdir(), 'verif-tlc-error.txt')
            open(keep, 'w').write(out)
            i = out.find('Error:')
            raise ToolError('TLC on %s: %s' % (module, out[i:i + 1500]))

def harness(args, timeout=600):
    try:
        r = subprocess.run([HARNESS] + [str(a) for a in args], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('harness timed out: %s' % args)
    if r.returncode: raise ToolError('harness %s: %s' % (args, r.stderr[-1500:]))
    return r.stderr

def cat(parts, out):
    with open(out, 'w') as o:
        for p in parts: o.write(open(p).read())

def tally(res, files):
    """what the histories exercised (so that a check that explores nothing is noticed)"""
    for f in files:
        for l in open(f):
            t = json.loads(l)
            prev = None
            for e in t['ev']:
                res.add('%s %s' % (e['op'], e['res']), 1)
                if e['op'] in ('swx', 'swy') and e['res'] == 'ok' and prev:
                    lo, hi = sorted((e['o']['tick'], prev['o']['tick']))
                    n = sum(1 for k in prev['o']['ticks'] if lo < k <= hi)
                    res.add('swaps crossing %s' % (n if n < 3 else '3 or more'), 1)
                    if e['out']['adj'] != '0': res.add('swaps with adjustment', 1)
                    if e['out']['fee'] != '0': res.add('swaps with fee', 1)
                    if prev['o']['liq'] == '0': res.add('swaps from a gap', 1)
                prev = e

# name: (implementation, share, arguments)
PROFILES = {
    'mixed':   ('dec', 1.0, '--ops 14 --regime low,zero,high,wide'),
    'plain':   ('dec', 1.0, '--ops 14 --regime low,zero,high,wide --hmm 0'),
    'long':    ('dec', 0.5, '--ops 34 --regime low,zero,high,wide'),
    'invalid': ('dec', 0.7, '--ops 16 --regime low,zero,high --invalid 0.35'),
    'fmixed':  ('float', 1.0, '--ops 14 --regime low,zero,high'),
    'flong':   ('float', 0.5, '--ops 34 --regime low,zero,high'),
    'finvalid':('float', 0.4, '--ops 16 --regime low,zero,high --invalid 0.35'),
    # the Python prototype, which has ticks below 0 as well
    'pmixed':  ('py', 1.0, '--ops 14 --regime low,below,around,one,high'),
    'plong':   ('py', 0.5, '--ops 34 --regime low,below,around,one,high'),
    'pinvalid':('py', 0.4, '--ops 16 --regime low,below,around,high --invalid 0.35'),
}

def pool_histories(res, prop, invariant, names, n, offset=0):
    d = tempfile.mkdtemp(prefix='pool.')
    try:
        parts = [[] for _ in range(CORES)]
        for k, name in enumerate(names):
            imp, share, a = PROFILES[name]
            base = os.path.join(d, name)
            harness(['pool', '--imp', imp, '--n', max(CORES, int(n * share)), '--seed', SEED * 1000003 + k * 100000 + offset,
                     '--out', base, '--shards', CORES] + a.split())
            for i in range(CORES): parts[i].append('%s.%d' % (base, i))
        files = []
        for i in range(CORES):
            f = os.path.join(d, 'all.%d' % i); cat(parts[i], f); files.append(f)
        tally(res, files)
        log('recorded', {k: v for k, v in sorted(res.info.items())})
        for f in files[:2]:
            l = open(f).readline()
            if l:
                t = json.loads(l); t['ev'] = t['ev'][:4]; res.samples.append(t)
        judge(res, prop, 'TracePool', invariant, files)
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------- behaviours of CLPoolMech
MECH = ("SPECIFICATION %(spec)s\nCONSTANTS\n Users = {%(users)s}\n N = %(n)d\n MaxL = %(maxl)d\n MaxPos = %(maxpos)d\n MaxOps = %(ops)d\n"
        " Fees = %(fees)s\n Exact = %(exact)s\n Floor = %(floor)s\n Bug = \"%(bug)s\"\n%(rest)s\n")
INVS = ['TypeOK', 'LiquidityInRange', 'TicksInUse', 'NetAndGross', 'PriceAndTick', 'FeesToThoseWhoEarnedThem', 'GrowthConsistent', 'NothingNegative']
MECH0 = dict(spec='Spec', users='"a"', n=3, maxl=2, maxpos=3, ops=5, fees='TRUE', exact='TRUE', floor='FALSE', bug='', rest='VIEW View\nINVARIANTS ' + ' '.join(INVS))

def mech(**kw):
    d = dict(MECH0); d.update(kw); return MECH % d

def design(res, prop):
    """the mechanism of the pools, exhaustively within small constants; and that planted design errors are noticed"""
    runs = [dict(), dict(floor='TRUE')]
    if TIER != 'quick': runs += [dict(users='"a","b"', n=3, maxl=2, ops=6), dict(n=4, maxl=1, users='"a","b"', ops=6, maxpos=4)]
    for r in runs:
        out = tlc('CLPoolMech', mech(**r), workers=str(CORES), mem='12g', gc=4, timeout=BUDGET[TIER])
        if not completed(out): raise ToolError('CLPoolMech does not satisfy its invariants: ' + out[-2000:])
        res.count(out); s, g = states(out)
        log('CLPoolMech', r, s, 'states')
    if TIER != 'quick':
        out = tlc('CLPoolMech', mech(spec='Fair', ops=3, rest='PROPERTY SwapEnds'), workers=str(CORES), mem='12g', gc=4, timeout=BUDGET[TIER])
        if not completed(out): raise ToolError('CLPoolMech: SwapEnds ' + out[-2000:])
        for b in ['init at tick', 'release on net', 'no checkpoint', 'flip right only']:
            if completed(tlc('CLPoolMech', mech(bug=b), workers=str(CORES), mem='8g')): raise ToolError('design error not noticed: ' + b)

def mech_graph(res, **kw):
    d = dict(fees='FALSE', exact='FALSE', ops=0, rest='VIEW View\nACTION_CONSTRAINT Emit'); d.update(kw)
    out = tlc('MC_Gen', mech(**d), mem='8g', timeout=BUDGET[TIER])
    if not completed(out): raise ToolError('MC_Gen: ' + out[-1500:])
    res.count(out)
    edges = {}
    for m in re.finditer(r'"EDGE(.*)"\n', out):
        a, act, b = json.loads(m.group(1).replace('\\"', '"'))
        edges.setdefault(json.dumps(a), {})[(json.dumps(act), json.dumps(b))] = act
    return edges

def walks(edges, rng, count, length):
    """walks over the state graph that prefer steps not taken yet; all steps, when count is None"""
    nodes = {k: list(v) for k, v in edges.items()}
    todo = {k: set(v) for k, v in nodes.items()}
    left = sum(len(v) for v in todo.values()); total = left
    idle = lambda k: json.loads(k)[2] == 'idle'
    starts = [k for k in nodes if idle(k) and not json.loads(k)[5] and json.loads(k)[0] == json.loads(k)[1] // 2]
    out = []
    while left and (count is None or len(out) < count):
        cur = rng.choice(starts); w = [cur]; n = 0; gained = 0
        while n < length or not idle(cur):
            if todo.get(cur): e = rng.choice(sorted(todo[cur]))
            else:
                # the nearest node with steps left
                e, seen, q = None, {cur}, [(cur, None)]
                for node, first in q:
                    if todo.get(node): e = first; break
                    for x in nodes.get(node, []):
                        if x[1] not in seen: seen.add(x[1]); q.append((x[1], first or x))
                    if len(q) > 3000: break
                if e is None: e = rng.choice(nodes[cur])
            if e in todo[cur]: todo[cur].discard(e); left -= 1; gained += 1
            w.append((e, edges[cur][e])); cur = e[1]
            if idle(cur): n += 1
            if len(w) > 400: break
        out.append(w)
        if count is None and gained == 0 and rng.random() < 0.02: break
    return out, total - left, total

def script_of(w, n, floor):
    steps, d = [], None
    for e, act in w[1:]:
        st = json.loads(e[1])
        if act[0] in ('dep', 'wit'): s = {'op': act[0], 'u': act[1][0], 'lo': act[1][1], 'hi': act[1][2], 'l': act[2]}
        elif act[0] == 'begin': d = 'sw' + act[1]; continue
        elif act[0] == 'fill': s = {'op': d, 'to': act[1]}
        elif act[0] in ('exhausted', 'floor'): s = {'op': d, 'to': None}
        else: continue
        s['exp'] = {'tick': st[0], 'at': st[1], 'liq': st[4], 'np': len(st[5]), 'active': sorted({i for p in st[5] for i in p[1:3]})}
        steps.append(s)
    return {'n': n, 'floor': floor, 'boot': json.loads(w[0])[1], 'steps': steps}

def behaviours(imp, count, confs):
    """behaviours of the mechanism, replayed by the real pool and judged against the ledger"""
    def run(res, prop):
        d = tempfile.mkdtemp(prefix='mc.')
        try:
            rng = random.Random(SEED)
            invariant = 'All' if prop in ('C13', 'C24') else prop
            with ThreadPoolExecutor(4) as ex:
                graphs = list(ex.map(lambda c: mech_graph(res, **c), confs))
            scripts = []
            for c, g in zip(confs, graphs):
                ws, cov, tot = walks(g, rng, count if TIER == 'quick' else count * 12, 14)
                res.add('steps of the specification replayed', cov); res.add('steps of the specification', tot)
                scripts += [script_of(w, c.get('n', 3), c.get('floor', 'FALSE') == 'TRUE') for w in ws]
            f = os.path.join(d, 'in'); open(f, 'w').write(''.join(json.dumps(s) + '\n' for s in scripts))
            base = os.path.join(d, 'out')
            harness(['script', '--imp', imp, '--in', f, '--out', base, '--shards', CORES, '--seed', SEED])
            files = ['%s.%d' % (base, i) for i in range(CORES)]
            tally(res, files)
            log('replayed', {k: v for k, v in sorted(res.info.items())})
            l = open(files[0]).readline()
            if l: t = json.loads(l); t['ev'] = t['ev'][:4]; res.samples.append(t)
            judge(res, prop, 'TracePool', invariant, files)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return run
GEN = [dict(n=4, users='"a"', maxl=2, maxpos=2), dict(n=3, users='"a","b"', maxl=1, maxpos=3), dict(n=3, users='"a"', maxl=2, maxpos=3, floor='TRUE')]

def pool_check(names, invariant=None):
    def run(res, prop):
        n = 1600 if TIER == 'quick' else 16000
        rounds = 1 if TIER == 'quick' else 6
        for r in range(rounds):
            pool_histories(res, prop, invariant or prop, names, n / max(1, len(names)) if TIER == 'quick' else n / len(names), offset=r * 1000000)
            if res.viol: return
    return run

# ---------------------------------------------------------------- the on-chain program
CHAIN = ("SPECIFICATION Spec\nCONSTANTS\n Users = {%(users)s}\n Ticks = {%(ticks)s}\n Cur = 1\n Pools = {%(pools)s}\n Ready = %(ready)s\n Purse = %(purse)d\n"
         " Bug = \"%(bug)s\"\nVIEW View\nINVARIANTS Sound Stands\nPROPERTY NoTheft\n")
def chain_design(res, prop):
    """the instructions, with every single wrong account, argument and signature, exhaustively within small constants"""
    base = dict(users='"a"', ticks='0, 1, 2', pools='"ml1"', ready='TRUE', purse=1, bug='')
    runs = [dict(), dict(users='"a", "b"', ticks='0, 1'), dict(ticks='0, 1', pools='"ml1", "ml2"'), dict(ticks='0, 1', ready='FALSE'), dict(users='"a", "b"', ticks='1, 3')]
    if TIER != 'quick': runs += [dict(purse=2), dict(users='"a", "b"')]
    for b, t in (('round down', '1, 3'), ('pay rounded up', '0, 1, 2'), ('report what was offered', '0, 1, 2')):
        if TIER != 'quick' and completed(tlc('MC_OnChain', CHAIN % dict(base, bug=b, ticks=t, purse=2), mem='4g', timeout=BUDGET[TIER])): raise ToolError('design error not noticed: ' + b)
    with ThreadPoolExecutor(5 if TIER == 'quick' else 2) as ex:
        outs = list(ex.map(lambda r: tlc('MC_OnChain', CHAIN % dict(base, **r), workers='2' if TIER == 'quick' else '4', mem='3g', timeout=BUDGET[TIER]), runs))
    for r, out in zip(runs, outs):
        if not completed(out): raise ToolError('MC_OnChain does not satisfy its invariants: ' + out[-2000:])
        res.count(out); log('MC_OnChain', r, states(out)[0], 'states')

def printed(out, word='RUN'):
    return [l[len(word) + 1:-1].replace('\\"', '"').replace('\\\\', '\\') for l in out.split('\n') if l.startswith('"' + word)]

def chain_replay(res, prop, runs):
    d = tempfile.mkdtemp(prefix='chain.')
    try:
        # long ones first, so that they end up in different shards
        runs.sort(key=len, reverse=True)
        f = os.path.join(d, 'in'); open(f, 'w').write(''.join(r + '\n' for r in runs))
        base = os.path.join(d, 'out')
        harness(['chain', '--in', f, '--out', base, '--shards', CORES])
        files = ['%s.%d' % (base, i) for i in range(CORES)]
        for g in files:
            for l in open(g):
                for e in json.loads(l)['ev']: res.add('%s %s' % (e['op'], e['res']), 1)
        log('replayed', {k: v for k, v in sorted(res.info.items())})
        l = open(files[0]).readline()
        if l and not res.samples: t = json.loads(l); t['ev'] = t['ev'][:3]; res.samples.append(t)
        judge(res, prop, 'TraceOnChain', prop, files)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def chain_sweep(res, prop):
    """every instruction with every single account replaced by every other"""
    out = tlc('SweepOnChain', 'SPECIFICATION Spec_S\nCONSTANTS\n Steps = 1\n Spoiled = 0\n Pools = {"ml1", "ml2", "ml3", "ml4"}\nINVARIANT Out_S\n', timeout=BUDGET[TIER])
    if not completed(out): raise ToolError('SweepOnChain: ' + out[-1500:])
    chain_replay(res, prop, printed(out))

def chain_prices(res, prop):
    """pools at all kinds of ticks"""
    out = tlc('SweepOnChain', 'SPECIFICATION Spec_P\nCONSTANTS\n Steps = 1\n Spoiled = 0\n Pools = {%s}\nINVARIANT Out_S\n' % ', '.join('"ml%d"' % k for k in range(1, 101)),
              args=['-seed', str(SEED)], timeout=BUDGET[TIER])
    if not completed(out): raise ToolError('SweepOnChain: ' + out[-1500:])
    chain_replay(res, prop, printed(out))

def chain_random(res, prop):
    """random behaviours of the specification, a third of their instructions spoiled in one way"""
    rounds, num, par = (1, 100, 4) if TIER == 'quick' else (12, 400, 8)
    for r in range(rounds):
        cfg = lambda k: 'SPECIFICATION Spec\nCONSTANTS\n Steps = %d\n Spoiled = %d\n Pools = {"ml1", "ml2"}\nINVARIANT Out\n' % ((45, 80)[k % 2], (1, 2, 3, 3)[k % 4])
        with ThreadPoolExecutor(par) as ex:
            outs = list(ex.map(lambda k: tlc('GenOnChain', cfg(k), args=['-simulate', 'num=%d' % num, '-depth', '100', '-seed', str(SEED * 1000003 + r * 100 + k)],
                                             timeout=BUDGET[TIER]), range(par)))
        runs = sum([printed(o) for o in outs], [])
        if len(runs) < num * par: raise ToolError('GenOnChain: ' + outs[0][-1500:])
        chain_replay(res, prop, runs)
        if res.viol: return

# ---------------------------------------------------------------- the bitmap
BM = "SPECIFICATION Spec\nCONSTANTS\n Width = %d\n Words = %d\n Used = {%s}\n Bug = \"%s\"\n Emit = %s\nVIEW View\n%s\n"
def rng_list(n): return ','.join(map(str, range(n)))

def bitmap_design(res, prop):
    for w, n in [(3, 3), (2, 4)] + ([(4, 3), (2, 6)] if TIER != 'quick' else []):
        out = tlc('MC_Bitmap', BM % (w, n, rng_list(w * n), '', 'FALSE', 'INVARIANT Queries\nPROPERTY Changes'), workers='4', timeout=BUDGET[TIER])
        if not completed(out): raise ToolError('MC_Bitmap: ' + out[-1500:])
        res.count(out)
    if TIER != 'quick':
        for b in ['not strict', 'same bit', 'clear word']:
            if completed(tlc('MC_Bitmap', BM % (3, 3, rng_list(9), b, 'FALSE', 'INVARIANT Queries\nPROPERTY Changes'))): raise ToolError('design error not noticed: ' + b)

def cover(edges, start):
    """a walk over all edges: edges[node] = [(label, node)]"""
    todo = {k: list(v) for k, v in edges.items()}
    cur, walk, left = start, [], sum(len(v) for v in edges.values())
    while left:
        if todo.get(cur): path = [todo[cur].pop()]; left -= 1
        else:
            seen, q, path = {cur}, [(cur, [])], None
            for node, p in q:
                if todo.get(node): path = p; break
                for x in edges[node]:
                    if x[1] not in seen: seen.add(x[1]); q.append((x[1], p + [x]))
        for x in path: walk.append(x[0]); cur = x[1]
    return walk

def run_lines(res, prop, cmd, lines, module, invariant):
    d = tempfile.mkdtemp(prefix='calc.')
    try:
        f = os.path.join(d, 'in'); open(f, 'w').write(''.join(json.dumps(l) + '\n' for l in lines))
        base = os.path.join(d, 'out')
        harness([cmd, '--in', f, '--out', base, '--shards', CORES])
        files = ['%s.%d' % (base, i) for i in range(CORES)]
        got = 0
        for g in files:
            for l in open(g):
                got += 1
                t = json.loads(l)
                if not res.samples: res.samples.append(dict(t, ev=[dict(e, calls=e['calls'][:4]) if 'calls' in e else e for e in t['ev'][:3]]))
                for e in t['ev']:
                    for c in e.get('calls', []): res.add('%s %s' % (c['op'], {'p': 'refused', 'e': 'refused', 'hang': 'hang'}.get(c['o'][0], 'ok')), 1)
                    if 'q' in e: res.add('queries', len(e['q']))
                    if e.get('op') in ('act', 'unset'): res.add('changes', 1)
        if got < len(lines): raise ToolError('the harness returned %d of %d histories' % (got, len(lines)))
        judge(res, prop, module, invariant, files)
    finally:
        shutil.rmtree(d, ignore_errors=True)

TICKS = 80000
def bitmap_replay(res, prop):
    rng = random.Random(SEED)
    out = tlc('MC_Bitmap', BM % (8, 3, '0,6,7,8,15,16' if TIER == 'quick' else '0,1,6,7,8,15,16,23', '', 'TRUE', 'INVARIANT Queries\nACTION_CONSTRAINT Edge'))
    if not completed(out): raise ToolError('MC_Bitmap: ' + out[-1500:])
    res.count(out)
    edges = {}
    for l in printed(out, 'EDGE'):
        a, act, b = json.loads(l)
        edges.setdefault(str(sorted(a)), []).append((tuple(act), str(sorted(b))))
    walk = cover(edges, '[]')
    res.add('steps of the specification', sum(len(v) for v in edges.values()))
    lines = [{'id': 'bytes', 'ev': [['bytes', b] for b in range(256)]}]
    for base in [0, TICKS - 24] + [8 * rng.randrange(1, TICKS // 8 - 4) for _ in range(3 if TIER == 'quick' else 12)]:
        # in pieces, so that all cores have some; the state is set up again at the start of a piece
        on, piece = set(), []
        near = [t for t in range(max(0, base - 9), min(TICKS, base + 33))]
        for k, (op, t) in enumerate(walk):
            if not piece: piece = [['act', base + x] for x in sorted(on)]
            (on.add if op == 'act' else on.discard)(t)
            qs = near + [0, TICKS - 1, rng.randrange(TICKS)]
            piece += [[op, base + t], ['ask', [[q, d] for q in qs for d in (0, 1)]]]
            if len(piece) > 400 or k == len(walk) - 1:
                lines.append({'id': 'window-%d-%d' % (base, k), 'ev': piece}); piece = []
    for k in range(40 if TIER == 'quick' else 1000):
        hot = [rng.choice([0, 7, 8, TICKS - 1, TICKS - 8, rng.randrange(TICKS)]) + rng.randrange(-20, 20) for _ in range(rng.randrange(1, 5))]
        pick = lambda: min(TICKS - 1, max(0, rng.choice(hot) + rng.randrange(-12, 13) if rng.random() < .8 else rng.randrange(TICKS)))
        ev = []
        for _ in range(60):
            t = pick()
            ev.append(['act' if rng.random() < .6 else 'unset', t])
            ev.append(['ask', [[min(TICKS - 1, max(0, q)), d] for q in [t, t - 1, t + 1, pick(), pick(), t - 8, t + 8, t // 8 * 8, t // 8 * 8 + 7] for d in (0, 1)]])
        lines.append({'id': 'random-%d' % k, 'ev': ev})
    run_lines(res, prop, 'bitmap', lines, 'TraceBitmap', 'C18')
    log('replayed', res.info)

# ---------------------------------------------------------------- decimals
def D_(v, s, n=False): return [str(v), s, n]
UN = ['neg', 'tocompute', 'abs', 'absup', 'denominator', 'ispos', 'isneg', 'iszero', 'isint', 'tou64', 'intou64', 'intousize', 'intou128', 'intoi32']
BIN = ['add', 'sub', 'mul', 'mulup', 'div', 'divup', 'eq', 'lt', 'gt', 'lte', 'gte', 'min', 'max']
SC = ['toscale', 'toscaleup', 'scaled', 'scaledup']

def small_decimals():
    return [D_(v, s, n) for v in (0, 1, 2, 3, 5, 7, 9, 10, 11, 15, 19, 99, 100, 101, 1001) for s in (0, 1, 2, 12) for n in (False, True)]

def big_value(rng):
    k = rng.random()
    if k < .25: return max(0, 2 ** rng.randrange(129) + rng.randrange(-2, 2)) % 2 ** 128
    if k < .5: return max(0, 10 ** rng.randrange(39) + rng.randrange(-2, 3)) % 2 ** 128
    if k < .6: return 2 ** 128 - 1 - rng.randrange(3)
    return rng.randrange(2 ** rng.randrange(1, 129))
def any_scale(rng): return rng.choice([0, 1, 2, 3, 6, 9, 12, 12, 12, 12, 12, 18, 24, 37, 38])
def any_decimal(rng, s=None): return D_(big_value(rng), any_scale(rng) if s is None else s, rng.random() < .4)

def arithmetic_small(res, prop):
    """all operations on all pairs of small decimals"""
    ds = small_decimals()
    lines = []
    for i, a in enumerate(ds):
        calls = [{'op': o, 'a': [a]} for o in UN] + [{'op': o, 'a': [a, k]} for o in SC for k in (0, 1, 2, 3, 11, 12, 13)]
        calls += [{'op': 'muli', 'a': [a, str(k)]} for k in (0, 1, 2, 9, 10, 1000)]
        calls += [{'op': o, 'a': [a, b]} for o in BIN for b in ds]
        calls += [{'op': 'divs', 'a': [a, b, k]} for b in ds[::3] for k in (0, 1, 6, 12)]
        lines.append({'id': 'small-%d' % i, 'calls': calls})
    lines.append({'id': 'make', 'calls': [{'op': 'one', 'a': ['']}, {'op': 'two', 'a': ['']}] + [{'op': o, 'a': [str(v), 0]} for o in ('fromu64', 'fromu128') for v in (0, 1, 10, 2 ** 64 - 1)]
                  + [{'op': 'fromscaled', 'a': [str(v), k]} for v in (0, 1, 10, 2 ** 64 - 1) for k in (0, 1, 12, 38, 255)]})
    run_lines(res, prop, 'calls', lines, 'TraceDecimal', prop)

def arithmetic_chains(res, prop):
    """random calls on large operands, and on the outcomes of earlier calls"""
    rng = random.Random(SEED * 7 + 1)
    n = 160 if TIER == 'quick' else 4000
    lines = []
    for h in range(n):
        calls, s0 = [], any_scale(rng)
        regs = []
        def operand(s=None):
            if regs and rng.random() < .4: return '$%d' % rng.choice(regs)
            return any_decimal(rng, s0 if s is None and rng.random() < .8 else s)
        for k in range(120):
            o = rng.choice(UN + BIN + BIN + BIN + SC + SC + ['muli', 'divs', 'neg', 'fromu64', 'fromu128', 'fromscaled'])
            if o in UN: a = [operand()]
            elif o in BIN:
                a = [operand(), operand()]
                if o in ('mul', 'mulup', 'div', 'divup') and rng.random() < .7:   # sizes that fit together
                    k1 = rng.randrange(1, 127)
                    sc = any_scale(rng)
                    a = [D_(rng.randrange(2 ** k1), s0, rng.random() < .4), D_(rng.randrange(2 ** (128 - k1)) if 'mul' in o else rng.randrange(1, 2 ** 64), sc if rng.random() < .5 else 12, rng.random() < .4)]
            elif o in SC: a = [operand(), any_scale(rng)]
            elif o == 'muli': a = [operand(), str(big_value(rng) >> rng.randrange(128))]
            elif o == 'divs': a = [operand(), operand(), any_scale(rng)]
            elif o == 'fromu128': a = [str(big_value(rng)), 0]
            else: a = [str(big_value(rng) % 2 ** 64), rng.randrange(39)]
            calls.append({'op': o, 'a': a})
            if o in ('neg', 'add', 'sub', 'mul', 'mulup', 'div', 'divup', 'toscale', 'toscaleup', 'min', 'max', 'divs', 'muli'): regs.append(len(calls) - 1)
        lines.append({'id': 'chain-%d' % h, 'calls': calls})
    run_lines(res, prop, 'calls', lines, 'TraceDecimal', prop)
    log('judged', {k: v for k, v in sorted(res.info.items())})

def functions(res, prop):
    rng = random.Random(SEED * 7 + 2)
    n = 600 if TIER == "quick" else 8000
    S12 = 10 ** 12
    def value(lo, hi):   # spread evenly over the magnitudes
        import math
        return int(math.exp(rng.uniform(math.log(lo), math.log(hi))))
    def special():
        k = rng.random()
        if k < .2: return max(1, int(2.0 ** rng.randrange(-3, 44) * S12)) + rng.randrange(-3, 4)
        if k < .4: return int(1.0001 ** (rng.randrange(0, 200000) / 2) * S12) + rng.randrange(-2, 3)
        if k < .5: return S12 + rng.randrange(-1000, 1000)
        if k < .6: return rng.randrange(0, 40)
        if k < .7: return int(10.0 ** rng.randrange(-12, 14) * S12) + rng.randrange(-2, 3)
        return value(1, 3 * 10 ** 25)
    quart = [0, 1, 2, 4, 5, 6, 8, 12, 16, -1, -2, -4, -5, -6, -8, -12, 20, 40, -20]
    lines = []
    for h in range(n):
        calls = []
        for k in range(60):
            o = rng.choice(['sqrt', 'ln', 'ln', 'powi', 'pow', 'pow', 'bitlen'])
            v, s, neg = max(0, special()), 12, rng.random() < .06
            if o == 'sqrt' and rng.random() < .4: v, s = big_value(rng), any_scale(rng); v = v if rng.random() < .5 else v % (2 ** 128 // 10 ** s)
            if o == 'ln' and rng.random() < .8: v = value(S12 // 10, 3 * 10 ** 25)
            if o == 'ln' and rng.random() < .1: s = rng.choice([2, 6, 9]); v = v // 10 ** (12 - s)
            if o == 'powi':
                e = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 64, 100, 1000, rng.randrange(1, 200000)])
                if e > 64: v = S12 + rng.randrange(0, 2 * 10 ** 8) if rng.random() < .5 else 1000049998750 + rng.randrange(-2, 3)
                elif e > 3 and rng.random() < .7: v = value(S12 // 10, S12 * 10 ** max(1, 13 // e))
                calls.append({'op': 'powi', 'a': [D_(v, s, neg), e]})
            elif o == 'pow':
                q = rng.choice(quart)
                if abs(q) > 6: v = value(S12 // 10, S12 * 10 ** max(1, 50 // abs(q)))
                calls.append({'op': 'pow', 'a': [D_(v, 12, neg), D_(abs(q) * S12 // 4, 12, q < 0 or (q == 0 and rng.random() < .3))]})
            else: calls.append({'op': o, 'a': [D_(v, s, neg)]})
        calls += [{'op': o, 'a': [D_(v, s, n_)]} for o in ('sqrt', 'ln', 'bitlen') for v in (0, 1) for s in (0, 12) for n_ in (False, True)]
        lines.append({'id': 'functions-%d' % h, 'calls': calls})
    run_lines(res, prop, 'calls', lines, 'TraceDecimal', prop)
    log('judged', {k: v for k, v in sorted(res.info.items())})

def texts_all(res, prop):
    """every text up to a length, generated by the automaton of Numeral.tla"""
    sets = [('"0","1","9",".","-","+","e"', 5), ('"0","7",".","-","E"," ","x"', 4)] if TIER == 'quick' else [('"0","1","9",".","-","+","e"', 6), ('"0","1","2","3","4","5","6","7","8","9",".","-","E"," "', 4)]
    for alpha, ln in sets:
        out = tlc('GenText', 'SPECIFICATION Spec\nCONSTANTS\n Alphabet = {%s}\n MaxLen = %d\nINVARIANTS Split Out\n' % (alpha, ln), mem='6g', timeout=BUDGET[TIER])
        if not completed(out): raise ToolError('GenText: ' + out[-1500:])
        res.count(out)
        ts = sorted(printed(out, 'TEXT'))
        k = max(1, len(ts) // 64)
        run_lines(res, prop, 'calls', [{'id': 'texts-%d' % i, 'calls': [{'op': 'parse', 'a': [list(t)]} for t in ts[i:i + k]]} for i in range(0, len(ts), k)], 'TraceDecimal', prop)
        if res.viol: return

def texts_random(res, prop):
    rng = random.Random(SEED * 7 + 3)
    n = 120 if TIER == 'quick' else 3000
    lines = []
    for h in range(n):
        calls = []
        for k in range(80):
            d = any_decimal(rng, rng.randrange(39) if rng.random() < .7 else None)
            if rng.random() < .3: d[0] = str(int(d[0]) % 1000)
            if rng.random() < .5: calls.append({'op': rng.choice(['show', 'trip']), 'a': [d]}); continue
            ds = str(big_value(rng))
            if rng.random() < .3: ds = '0' * rng.randrange(1, 6) + ds
            if rng.random() < .3: ds += '0' * rng.randrange(1, 6)
            t = ds
            if rng.random() < .7:
                p = rng.randrange(len(t) + 1); t = t[:p] + '.' + t[p:]
            if rng.random() < .4: t = '-' + t
            if rng.random() < .4: t += rng.choice('eE') + rng.choice(['', '-', '+']) + str(rng.choice([0, 1, 2, 5, 12, 38, 39, 100, rng.randrange(45)]))
            if rng.random() < .15:   # one character wrong
                p = rng.randrange(len(t) + 1); t = t[:p] + rng.choice('-+.eE _x,٣0') + t[p + rng.randrange(2):]
            calls.append({'op': 'parse', 'a': [list(t)]})
        lines.append({'id': 'text-%d' % h, 'calls': calls})
    run_lines(res, prop, 'calls', lines, 'TraceDecimal', prop)
    log('judged', {k: v for k, v in sorted(res.info.items())})

# ---------------------------------------------------------------- formulas and ticks
U12 = 10 ** 12
def formulas_design(res, prop):
    grid = ('{1,8,15,16,17,40,160}', '{1,1000}') if TIER == 'quick' else ('{1,2,5,8,12,15,16,17,20,40,100,160,1600}', '{1,7,1000,1000000}')
    out = tlc('MC_Formulas', 'SPECIFICATION Spec\nCONSTANTS\n Prices = %s\n Liqs = %s\nINVARIANTS Hold Ticks\n' % grid, timeout=BUDGET[TIER], mem='4g')
    if not completed(out): raise ToolError('MC_Formulas: ' + out[-1500:])
    res.count(out)

def spread(rng, lo, hi):
    import math
    return int(math.exp(rng.uniform(math.log(lo), math.log(hi))))

def formulas_random(res, prop, imps=('dec', 'float')):
    rng = random.Random(SEED * 7 + 4)
    n = 60 if TIER == 'quick' else 1500
    lines = []
    for h in range(2 * n):
        imp = imps[h % len(imps)]
        calls = []
        for k in range(160):
            # prices of a range: of ticks, between, close together, tiny and huge
            def price():
                r = rng.random()
                if r < .45: return '@%d' % rng.choice([0, 1, 2, 10, 64, 6931, 13863, 46054, rng.randrange(0, 140000)])
                if r < .6: return '@%d%+d' % (rng.randrange(0, 120000), rng.choice([-2, -1, 1, 2, 1000, -1000]))
                if r < .7: return str(rng.choice([U12, 2 * U12, U12 // 2, 10 * U12, 3 * U12 // 2]))
                return str(spread(rng, U12 // 5, U12 * 1000) if r < .95 else spread(rng, 1000, U12 * 10 ** 6))
            def amount(big=10 ** 9):
                r = rng.random()
                if r < .06: return '0'
                if r < .16: return str(rng.randrange(1, 100))
                if r < .4: return str(rng.randrange(1, 10000) * U12)
                return str(spread(rng, 10 ** 6, big * U12))
            def num(p):
                m = re.match(r'@(\d+)([+-]\d+)?$', p)
                return int(1.0001 ** (int(m.group(1)) / 2) * U12) + int(m.group(2) or 0) if m else int(p)
            ps = sorted([price() for _ in range(3)], key=num)
            if rng.random() < .3:   # close together
                t = rng.randrange(1, 100000); ps = ['@%d' % t, '@%d%+d' % (t + rng.randrange(3), rng.randrange(-3, 4)), '@%d' % (t + rng.randrange(1, 5))]
                ps.sort(key=num)
            if rng.random() < .1: rng.shuffle(ps)
            if rng.random() < .1: ps[rng.randrange(3)] = ps[rng.randrange(3)]
            if rng.random() < .02: ps[rng.randrange(3)] = '0'
            lo, mid, hi = ps
            x, y, l = amount(), amount(), amount(10 ** 10)
            if rng.random() < .2: lo, mid = mid, lo
            elif rng.random() < .2: mid, hi = hi, mid
            o = rng.choice(['liqx', 'liqy', 'liq', 'liq', 'xl', 'xl', 'yl', 'yl', 'rpa1', 'rpb1', 'rpa2', 'rpb2', 'dx', 'dx', 'dy', 'dxh', 'dyh', 'dxh', 'dyh', 'rpdx', 'rpdy', 'liqt', 'xlt', 'ylt'])
            two = [mid, hi] if rng.random() < .5 else [hi, lo]
            sg = lambda v: v if rng.random() < .5 else '-' + v
            P, L, X, Y = num(mid) / U12, int(l) / U12, int(x) / U12, int(y) / U12
            if o in ('liqx', 'liqy'): a = [x, lo, hi]
            elif o == 'liq': a = [x, y, mid, lo, hi]
            elif o in ('xl', 'yl'): a = [l, mid, lo, hi]
            elif o == 'rpa1': a = [l, mid, str(int(P * L * rng.random() * U12)) if rng.random() < .8 else y]
            elif o == 'rpb1': a = [l, mid, str(int(L / max(P, 1e-9) * rng.random() * U12)) if rng.random() < .8 else x]
            elif o == 'rpa2': a = [x, str(int(P * P * X * rng.random() * U12)) if rng.random() < .8 else y, mid, hi]
            elif o == 'rpb2': a = [x, y if rng.random() < .3 else str(int((P - num(lo) / U12) * P * X * (1 + rng.random() * 3) * U12) if mid != lo else y), mid, lo]
            elif o in ('dx', 'dy'): a = [l] + two
            elif o in ('dxh', 'dyh'): a = [l] + two + [str(rng.choice([4, 5, 6, 8]) * U12 // 4) if rng.random() < .93 else str(rng.choice([0, U12 // 2, U12 - 1])), mid if rng.random() < .7 else price()]
            elif o == 'rpdx': a = [l, mid, sg(str(int(L / max(P, 1e-9) * rng.random() * U12)) if rng.random() < .7 else x)]
            elif o == 'rpdy': a = [l, mid, sg(str(int(P * L * rng.random() * U12)) if rng.random() < .7 else y)]
            else:
                t = sorted(rng.randrange(0, 120000) if rng.random() < .5 else rng.choice([0, 1, 2, 100, 101, 1000, 99999, 100001]) for _ in range(3))
                if rng.random() < .3: t[rng.randrange(3)] = t[rng.randrange(3)]
                a = ([x, y] if o == 'liqt' else [l]) + [t[i] for i in rng.choice([(1, 0, 2), (1, 0, 2), (0, 1, 2), (2, 0, 1)])]
            calls.append({'op': o, 'a': a})
        lines.append({'id': 'formulas-%s-%d' % (imp, h), 'imp': imp, 'calls': calls})
    run_lines(res, prop, 'formulas', lines, 'TraceMath', 'All' if prop == 'C24' else prop)
    log('judged', {k: v for k, v in sorted(res.info.items())})

def ticks_all(res, prop, imps=('dec', 'float')):
    """every tick's price, and prices at, just below and just above ticks"""
    rng = random.Random(SEED * 7 + 5)
    top, step = 262144, 1 if TIER == 'thorough' else 7
    lines = []
    for imp in imps:
        below = imp == 'py'     # the prototype has ticks below 0
        ts = sorted(set(list(range(-3000 if below else 0, 3000)) + (list(range(-rng.randrange(120000), -3000, 97)) if below else []) + [2 ** k + d for k in range(18) for d in (-1, 0, 1)] + list(range(rng.randrange(step), top - 1, step)) + [rng.randrange(top, 1000000) for _ in range(500)] + [2 ** k for k in range(18, 31)]))
        if imp != 'dec': ts = [t for t in ts if t < 640000]     # (the harness writes numbers up to 1.7e14)
        lines += [{'id': 'prices-%s-%d' % (imp, i), 'imp': imp, 'calls': [{'op': 't2p', 'a': [t]} for t in ts[i:i + 800]]} for i in range(0, len(ts), 800)]
        for h in range(120 if TIER == 'quick' else 2000):
            calls = []
            for k in range(60):
                r = rng.random()
                t = rng.randrange(0, 400) if r < .3 else rng.randrange(0, 80000) if r < .8 else rng.randrange(0, 230000)
                if below and rng.random() < .4: t = -rng.randrange(0, 400) if r < .5 else -rng.randrange(0, 90000)
                if r < .1: t = 2 ** rng.randrange(0, 17) + rng.randrange(-1, 2)
                if r < .04: t = rng.choice([0, 0, 1, 2])
                p = '@%d' % t
                if rng.random() < .6: p += '%+d' % rng.choice([-1, 1, -1, 1, 2, -2, 1000, -1000, rng.randrange(10 ** 6), 25 * 10 ** 6, -25 * 10 ** 6])
                if t == 0 and '-' in p and not below: p = '@0'
                if rng.random() < .1: p, t = str(spread(rng, U12, U12 * 50)), 0
                left = rng.random() < .5
                sp = rng.choice([1, 1, 2, 3, 10, 30, 60, 64, 200])
                start = 0 if below else rng.choice([0, 0, 0, t, max(0, t - rng.randrange(1, 300)), t // sp * sp, t + 1])
                o = rng.choice(['p2tl', 'p2tl', 'p2tl', 'pposs', 'pposs', 'p2t', 'tposs'])
                if o == 'p2tl': a = [p, left, start]
                elif o == 'pposs': a = [p, sp, left, min(start, t)]
                elif o == 'p2t': a = [p, left]
                else: a = [rng.choice([0, t, t // sp * sp, sp, sp - 1]), sp if rng.random() < .98 else 0, left]
                calls.append({'op': o, 'a': a})
            lines.append({'id': 'ticks-%s-%d' % (imp, h), 'imp': imp, 'calls': calls})
    run_lines(res, prop, 'formulas', lines, 'TraceMath', 'All' if prop == 'C24' else prop)
    log('judged', {k: v for k, v in sorted(res.info.items())})

DEC = behaviours('dec', 150, GEN)
CHECKS = {
    'C01': [pool_check(['mixed', 'plain', 'long']), DEC],
    'C02': [design, DEC, pool_check(['mixed', 'plain', 'long'])],
    'C03': [design, DEC, pool_check(['mixed', 'invalid', 'long'])],
    'C04': [design, DEC, pool_check(['mixed', 'plain', 'long'])],
    'C05': [DEC, pool_check(['mixed', 'plain', 'long'])],
    'C06': [DEC, pool_check(['mixed', 'plain', 'long'])],
    'C07': [DEC, pool_check(['mixed', 'plain', 'long'])],
    'C08': [DEC, pool_check(['mixed', 'long'])],
    'C09': [DEC, pool_check(['mixed', 'plain', 'long'])],
    'C10': [DEC, pool_check(['mixed', 'plain', 'long'])],
    'C11': [pool_check(['invalid', 'finvalid'])],
    'C12': [design, DEC, pool_check(['mixed', 'plain', 'long'])],
    'C13': [behaviours('float', 150, GEN), pool_check(['fmixed', 'flong', 'finvalid'], 'All')],
    'C24': [behaviours('py', 150, [g for g in GEN if 'floor' not in g]), pool_check(['pmixed', 'plong', 'pinvalid'], 'All'),
            lambda res, prop: formulas_random(res, prop, ('py',)), lambda res, prop: ticks_all(res, prop, ('py',))],
    'C14': [chain_design, chain_sweep, chain_random],
    'C15': [chain_design, chain_sweep, chain_random],
    'C16': [chain_design, chain_sweep, chain_random],
    'C17': [chain_design, chain_prices, chain_sweep, chain_random],
    'C25': [chain_design, chain_sweep, chain_random],
    'C18': [bitmap_design, bitmap_replay],
    'C19': [arithmetic_small, arithmetic_chains],
    'C20': [functions],
    'C21': [formulas_design, ticks_all],
    'C23': [formulas_design, formulas_random],
    'C22': [texts_all, texts_random],
}
ASSUME = ['amounts are compared with exact (24-digit) arithmetic up to the tolerances of Judge.tla']

def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) (.*)', l)
            if m and m.group(1) == prop: out.append(m.group(2).strip())
    return out

def main():
    global TIER, SEED
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2])); TIER, SEED = 'quick', 1
        build_java()
        print('property', r['property'], ':', r['what'])
        if 'history' in r:
            f = tempfile.mktemp(); open(f, 'w').write(json.dumps(r['history']) + '\n')
            out = tlc(r['module'], 'SPECIFICATION Spec\nCONSTANT Report = FALSE\nINVARIANT %s\n' % r['invariant'], env={'TRACES': f})
            os.unlink(f)
            print(out)
            sys.exit(0 if completed(out) else 1)
        print(json.dumps(r, indent=1)); sys.exit(1)
    prop = sys.argv[1]
    TIER = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    SEED = int(os.environ.get('VERIF_SEED', '1'))
    res = Result()
    try:
        build()
        for part in CHECKS[prop]:
            part(res, prop)
            if res.viol: break
    except ToolError as ex:
        print('ERROR', ex); sys.exit(2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
          'coverage': {'states': res.states, 'transitions': res.transitions, 'traces_validated_against_impl': res.traces,
                       'samples': res.samples[:3], 'exercised': res.info},
          'assumptions': ASSUME + res.assume, 'wall_s': round(time.time() - T0, 1), 'violations': len(res.viol)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    listed = known(prop)
    fresh = []
    for what, path in res.viol:
        k = [x for x in listed if x in what]
        if k: print('KNOWN-FINDING: property=%s %s' % (prop, what))
        else: fresh.append((what, path))
    for what, path in fresh:
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, HERE)))
        print('  ', what)
    if fresh: sys.exit(1)
    if res.traces == 0 and res.states == 0: print('ERROR nothing explored'); sys.exit(2)
    print('OK %s: %d states, %d transitions, %d histories of the implementation, %.1f s' % (prop, res.states, res.transitions, res.traces, time.time() - T0))

main()
