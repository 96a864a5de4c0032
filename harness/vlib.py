"""Shared machinery: run designs through the simulator, run TLC, write evidence."""
import json, os, re, subprocess, sys, tempfile, time, random, shutil, hashlib, atexit
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 1)

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)


class MachineryError(Exception):
    pass


class Check(object):
    """One property check: collects traces, verdicts, coverage; prints the outcome."""

    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        atexit.register(shutil.rmtree, self.work, True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []     # (key, description, replay-object)
        self.known = self._load_known()
        os.chdir(self.work)

    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.tier == 'quick' else thorough

    def _load_known(self):
        path = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(path):
            return []
        with open(path) as f:
            data = json.load(f)
        return [d for d in data.get('findings', []) if d['property'] == self.pid
                and d.get('status') == 'known']

    def violation(self, key, desc, replay=None):
        self.violations.append((key, desc, replay))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def finish(self):
        new = []
        for key, desc, replay in self.violations:
            hit = None
            for k in self.known:
                if re.search(k['match'], key):
                    hit = k
                    break
            if hit is None:
                new.append((key, desc, replay))
            else:
                hit.setdefault('_seen', []).append(key)
        for k in self.known:
            if k.get('_seen'):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ['(none)'])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            rdir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            for i, (key, desc, replay) in enumerate(new[:int(os.environ.get("VERIF_MAXV", "20"))]):
                path = os.path.join(rdir, '%s_%d.json' % (self.pid, i))
                with open(path, 'w') as f:
                    json.dump(dict(key=key, desc=desc, replay=replay), f, indent=1, default=str)
                print('%s: %s' % (key, str(desc)[:600]))
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            if len(new) > 20:
                print('... and %d more' % (len(new) - 20))
            sys.stdout.flush()
            return 1
        print('ok property=%s traces=%d states=%d wall=%.1fs' % (
            self.pid, self.traces, self.states, time.time() - self.t0))
        sys.stdout.flush()
        return 0


# ---------------------------------------------------------------------------
# TLC
# ---------------------------------------------------------------------------
def _tlc_cmd(module, cfg, meta, workers, extra, mem):
    return (['java', '-XX:+UseParallelGC' if workers != 1 else '-XX:+UseSerialGC',
             '-Xss64m', '-Xmx' + mem, '-XX:TieredStopAtLevel=4',
             '-cp', JARS + ':' + SPEC, 'tlc2.TLC',
             '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers),
             '-config', cfg] + list(extra) + [module])


def run_tlc(module, cfg, env=None, workers=1, extra=(), timeout=800, mem='3g'):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns (rc, output)."""
    meta = tempfile.mkdtemp(prefix='tlcmeta_', dir=os.getcwd())
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(_tlc_cmd(module, cfg, meta, workers, extra, mem), cwd=SPEC,
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, universal_newlines=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        raise MachineryError('TLC timeout on %s' % module)
    finally:
        shutil.rmtree(meta, True)


_STAT = re.compile(r'^(\d+) states generated, (\d+) distinct states found', re.M)


def tlc_stats(out):
    m = None
    for m in _STAT.finditer(out):
        pass
    if m is None:
        m = re.search(r'The number of states generated: (\d+)', out)
        if m:
            return int(m.group(1)), int(m.group(1))
        return 0, 0
    return int(m.group(1)), int(m.group(2))


def model_check(chk, module, cfg, workers=NPROC, extra=('-deadlock',), timeout=800, name=None):
    """Exhaustively check the design specification itself.  A failure is a
    machinery problem (the spec is ours), never a violation by the code."""
    rc, out = run_tlc(module, cfg, workers=workers, extra=extra, timeout=timeout)
    if rc != 0 or 'Model checking completed. No error has been found' not in out:
        raise MachineryError('model check of %s/%s failed:\n%s' % (module, cfg, out[-4000:]))
    gen, dist = tlc_stats(out)
    chk.states += dist
    chk.transitions += gen
    chk.extra.setdefault('model_checks', {})[name or cfg] = dict(distinct=dist, generated=gen)
    return out


_VERD = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*"(\w+)",\s*(\d+),\s*"([^"]*)"')


def _details(out, m):
    e = out.find('"VERDICT"', m.end())
    t = out[m.end():e if e >= 0 else m.end() + 1500]
    t = re.split(r'>>\s*\n(?=\S)', t, maxsplit=1)[0]
    return ' '.join(t.split())[:800]


def _validate_chunk(args):
    module, cfg, path, timeout, mem = args
    rc, out = run_tlc(module, cfg, env={'TRACE': path}, workers=1, extra=('-deadlock',),
                      timeout=timeout, mem=mem)
    return rc, out


def validate(chk, module, cfg, traces, timeout=800, jobs=4, mem='3g', count=True):
    """Validate recorded traces against spec/<module>.tla.

    Each trace is a JSON-able dict.  The trace specification prints one
    <<"VERDICT", k, "ok"|"bad", line, clause, details>> per trace; anything else
    is a machinery error.  Returns list of (index, ok, line, clause, details)."""
    traces = list(traces)
    if not traces:
        return []
    jobs = max(1, min(jobs, len(traces)))
    # balance by size
    sizes = sorted(((len(json.dumps(t)), i) for i, t in enumerate(traces)), reverse=True)
    bins = [[0, []] for _ in range(jobs)]
    for s, i in sizes:
        b = min(bins, key=lambda x: x[0])
        b[0] += s
        b[1].append(i)
    argl = []
    for k, (_, idxs) in enumerate(bins):
        path = os.path.join(os.getcwd(), 'trace_%s_%d_%d.json' % (module, os.getpid(), next(_ctr)))
        with open(path, 'w') as f:
            json.dump([traces[i] for i in idxs], f)
        argl.append((module, cfg, path, timeout, mem))
    if jobs == 1:
        res = [_validate_chunk(argl[0])]
    else:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(_validate_chunk, argl))
    outl = [None] * len(traces)
    for (rc, out), (_, idxs), a in zip(res, bins, argl):
        got = {}
        for m in _VERD.finditer(out):
            k = int(m.group(1)) - 1
            v = (m.group(2) == 'ok', int(m.group(3)), m.group(4), _details(out, m))
            if k not in got or (v[0], v[1]) > got[k][:2]:
                got[k] = v
        if len(got) != len(idxs) or rc not in (0,):
            e = out.find('Error:')
            raise MachineryError('TLC on %s: %d verdicts for %d traces, rc=%d\n%s\n...\n%s' % (
                module, len(got), len(idxs), rc, out[e:e + 1500] if e >= 0 else '', out[-4000:]))
        gen, dist = tlc_stats(out)
        chk.states += dist
        chk.transitions += gen
        for k, i in enumerate(idxs):
            ok, line, clause, det = got[k]
            outl[i] = (i, ok, line, clause, det)
        if not os.environ.get('VERIF_KEEP'):
            os.unlink(a[2])
    if count:
        chk.traces += len(traces)
    return outl


def _counter():
    i = 0
    while True:
        yield i
        i += 1


_ctr = _counter()


def tlc_print(module, cfg, tag, env=None, extra=('-deadlock',), workers=1, timeout=600, chk=None):
    """Run TLC and collect the JSON strings it prints as <<"tag", "json">>."""
    rc, out = run_tlc(module, cfg, env=env, workers=workers, extra=extra, timeout=timeout)
    res = []
    pre = '<<"%s", "' % tag
    for line in out.splitlines():
        if line.startswith(pre):
            s = line[len(pre):].rsplit('">>', 1)[0]
            res.append(json.loads(s.replace('\\"', '"')))
    if not res or (rc != 0):
        raise MachineryError('TLC generation %s/%s failed rc=%d\n%s' % (module, cfg, rc, out[-3000:]))
    if chk is not None:
        gen, dist = tlc_stats(out)
        chk.states += dist
        chk.transitions += gen
    return res


# ---------------------------------------------------------------------------
# Verilog simulation
# ---------------------------------------------------------------------------
class SimError(Exception):
    """The emitted design does not compile or run (a defect of the design, not of ours)."""


def simulate(sources, top='tb', timeout=120, workdir=None, keep=None, flags=()):
    """Compile Verilog texts with iverilog and run them; returns stdout lines."""
    d = tempfile.mkdtemp(prefix='sim_', dir=workdir or os.getcwd())
    try:
        files = []
        for i, s in enumerate(sources):
            fn = os.path.join(d, 's%d.v' % i)
            with open(fn, 'w') as f:
                f.write(s)
            files.append(fn)
        out = os.path.join(d, 'a.vvp')
        p = subprocess.run(['iverilog', '-g2005'] + list(flags) + ['-s', top, '-o', out] + files, cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, timeout=timeout)
        if p.returncode != 0:
            raise SimError('iverilog: ' + p.stdout[:2000])
        try:
            p = subprocess.run(['vvp', '-N', out], cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise SimError('vvp: simulation does not end')
        return p.stdout.splitlines()
    finally:
        shutil.rmtree(d, True)

# ---------------------------------------------------------------------------
# Driving a clocked design cycle by cycle
# ---------------------------------------------------------------------------
def drive(verilog, top, inputs, outputs, stim, clk='CLK', params='', timeout=120, flags=()):
    """Apply one row of input values per clock cycle and sample every output just
    before the rising edge.  Returns a list of rows of ints (None when x/z)."""
    W = sum(w for _, w in inputs) or 1
    fn = os.path.join(os.getcwd(), 'stim_%d_%d.hex' % (os.getpid(), next(_ctr)))
    with open(fn, 'w') as f:
        for row in stim:
            v = 0
            for (n, w), x in zip(inputs, row):
                v = (v << w) | (int(x) & ((1 << w) - 1))
            f.write('%x\n' % v)
    L = ['module tb;', 'reg tb_clk;', 'reg [%d:0] tb_stim [0:%d];' % (W - 1, len(stim) - 1),
         'reg [%d:0] tb_cur;' % (W - 1), 'integer tb_i;']
    conn = ['.%s(tb_clk)' % clk] if clk else []
    for n, w in inputs:
        L.append('wire [%d:0] i_%s;' % (w - 1, n))
        conn.append('.%s(i_%s)' % (n, n))
    for n, w in outputs:
        L.append('wire [%d:0] o_%s;' % (w - 1, n))
        conn.append('.%s(o_%s)' % (n, n))
    if inputs:
        L.append('assign {%s} = tb_cur;' % ', '.join('i_' + n for n, _ in inputs))
    L.append('%s %s uut(%s);' % (top, params, ', '.join(conn)))
    L.append('initial begin tb_clk = 0; $readmemh("%s", tb_stim);' % fn)
    L.append('for(tb_i=0; tb_i<%d; tb_i=tb_i+1) begin tb_cur = tb_stim[tb_i]; #4;' % len(stim))
    L.append('$display("@%s"%s);' % (' %h' * len(outputs),
                                    ''.join(', o_' + n for n, _ in outputs)))
    L.append('#1 tb_clk = 1; #5 tb_clk = 0; end $finish; end endmodule')
    try:
        lines = simulate([verilog, '\n'.join(L)], top='tb', timeout=timeout, flags=flags)
    finally:
        os.unlink(fn)
    rows = []
    for l in lines:
        if l.startswith('@'):
            rows.append([parse_hex(x) for x in l[1:].split()])
    if len(rows) != len(stim):
        raise SimError('simulation stopped after %d of %d cycles: %s' % (
            len(rows), len(stim), '\n'.join(lines[-5:])))
    return rows


def parse_hex(x):
    try:
        return int(x, 16)
    except ValueError:
        return None


# ---------------------------------------------------------------------------
# Programs given as source text (the thread compiler needs real source files)
# ---------------------------------------------------------------------------
def load_src(text, **glob):
    import importlib.util
    name = 'vsrc_%d_%d' % (os.getpid(), next(_ctr))
    path = os.path.join(os.getcwd(), name + '.py')
    with open(path, 'w') as f:
        f.write(text)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    mod.__dict__.update(glob)
    spec.loader.exec_module(mod)
    return mod


def tb_clocked(top, cycles, extra='', rst='RST', clk='CLK', period=10, rst_cycles=4, hi=1):
    """A plain test bench that clocks and resets a module for a number of cycles."""
    return """module tb; reg CLK, RST; %s
  initial begin CLK = 0; forever #%d CLK = !CLK; end
  initial begin RST = %d; #%d RST = %d; #%d RST = %d; end
  initial begin #%d $display("TB-TIMEOUT"); $finish; end
  %s uut(.%s(CLK), .%s(RST));
endmodule
""" % (extra, period // 2, 1 - hi, period * 2 + 3, hi, period * rst_cycles, 1 - hi,
       period * (cycles + rst_cycles + 4), top, clk, rst)


def _call(args):
    fn, a = args
    here = 'w%d' % os.getpid()
    if mp.parent_process() is not None and os.path.basename(os.getcwd()) != here:
        os.makedirs(here, exist_ok=True)      # the parser leaves files in the current directory
        os.chdir(here)
    try:
        import veriloggen
        veriloggen.reset()
        return ('ok', fn(a))
    except SimError as e:
        return ('sim', str(e))
    except MachineryError:
        raise
    except Exception as e:
        import traceback
        return ('exc', '%s: %s' % (type(e).__name__, e), traceback.format_exc())


def pmap(fn, items, jobs=NPROC, chunksize=None):
    """Run fn over items in worker processes; each result is ('ok', r), ('sim', msg)
    or ('exc', msg, traceback)."""
    items = list(items)
    if not items:
        return []
    if jobs <= 1 or len(items) == 1:
        return [_call((fn, x)) for x in items]
    if chunksize is None:
        chunksize = max(1, len(items) // (jobs * 4))
    with mp.get_context('fork').Pool(min(jobs, len(items))) as pool:
        return pool.map(_call, [(fn, x) for x in items], chunksize)


def to_bytes(v, w):
    v &= (1 << w) - 1
    return [(v >> (8 * i)) & 255 for i in range((w + 7) // 8)]


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def main(fn):
    try:
        rc = fn()
    except MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
