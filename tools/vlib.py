"""Running one verification job: goto-cc -> goto-instrument -> cbmc, and reading the verdict of every obligation."""
import json, os, re, shutil, signal, subprocess, tempfile, time
import annot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MB_REPO', '/repo')
SRC = REPO + '/src'
INC = ['-I' + SRC, '-I' + SRC + '/common', '-I' + SRC + '/master_internall', '-I' + SRC + '/slave_internall',
       '-I' + REPO + '/test/modbus', '-I' + VERIF + '/spec', '-I' + VERIF + '/proof']

# 32 bit machine model (int, long and pointers 32 bits, as on the STM32 of the examples)
M32 = ['-m32', '-isystem', VERIF + '/proof/m32', '-isystem', '/usr/include/x86_64-linux-gnu']

def sources():
    out = []
    for d, _, fs in os.walk(SRC):
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.c')]
    return sorted(out)

class Tool(Exception):
    """the machinery could not build the job from this source (structure, names, syntax)"""

def run(cmd, timeout, cwd=None, mem=12 << 30):
    def pre():
        os.setsid()
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, preexec_fn=pre)
    try:
        o, _ = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        rc = None
    return rc, o.decode(errors='replace'), time.time() - t

class Job:
    """harness: file in proof/; defs: -D...; files: 'slave'|'master'|'all' sources of the repository to link (real code);
    include: the harness includes the source itself; replace: calls replaced by contract stubs; annotate: loop contracts"""
    def __init__(self, name, harness, defs=(), skip=(), unit=True, replace=None, annotate=None, unwind=None, unwindset=(), checks=False,
                 entry='harness', timeout=300, enforce=None, nondet_static=False, remove_fp=False, what='', direct=True, bounded=None,
                 solver='cadical', cbmc=(), functions=(), loops=False, group=None, fallback=(), repo=True, m32=bool(os.environ.get('MB_M32')), m16=()):
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})

    def flags(self):
        return (['-DUNIT_TEST'] if self.unit else []) + INC + (M32 if self.m32 else [])

    def build(self, d):
        """returns goto binary, notes"""
        if self.m16:    # goto-cc has no 16 bit machine model, cbmc reads the sources itself
            return [VERIF + '/proof/' + self.harness] + [f for f in sources() if f.endswith(self.m16)], []
        files = [f for f in sources() if not any(f.endswith('/' + s) for s in self.skip)]
        notes = []
        inc = []
        for a in (self.annotate if isinstance(self.annotate, (list, tuple)) else [self.annotate] if self.annotate else []):
            src = [f for f in files if f.endswith('/' + a['src'])]
            if not src:
                raise Tool('no file ' + a['src'])
            out = d + '/annotated_' + a['src']
            try:
                notes += annot.annotate(src[0], self.flags(), out, a['specs'], 'ghost.h')
            except annot.NoLoop as e:
                raise Tool(str(e))
            files = [out if f == src[0] else f for f in files]
            inc.append('-I' + os.path.dirname(src[0]))
        g = d + '/a.gb'
        cmd = ['goto-cc', '--function', self.entry, *self.flags(), *inc, *['-D' + x for x in self.defs],
               VERIF + '/proof/' + self.harness, *files, '-o', g]
        rc, o, _ = run(cmd, 60)
        if rc != 0:
            raise Tool('goto-cc: ' + o[-1500:])
        def gi(opts, timeout=120):
            nonlocal g
            n = g[:-3] + 'x.gb'
            rc, o, _ = run(['goto-instrument', *opts, g, n], timeout)
            if rc != 0:
                raise Tool('goto-instrument %s: %s' % (' '.join(opts)[:200], o[-1500:]))
            g = n
            return o
        if self.nondet_static:
            ex = self.nondet_static if isinstance(self.nondet_static, (list, tuple)) else []
            gi(sum((['--nondet-static-exclude', x] for x in ex), []) or ['--nondet-static'])
        if self.replace:
            if self.remove_fp:
                gi(['--remove-function-pointers'])
            for f, s in self.replace.items():
                gi(['--replace-calls', '%s:%s' % (f, s)])
        if self.annotate or self.enforce or self.loops:
            o = ['--dfcc', self.entry]
            if self.enforce:
                o += ['--enforce-contract', self.enforce]
            if self.annotate or self.loops:
                o += ['--apply-loop-contracts', '--loop-contracts-no-unwind']
            gi(o, 200)
        return g, notes

    def cmdline(self, g):
        if self.m16:
            c = ['cbmc', '--16', '--function', self.entry, '--drop-unused-functions', '-I' + VERIF + '/proof/i16', *self.flags(), *['-D' + x for x in self.defs], *g,
                 '--json-ui', '--slice-formula', '--sat-solver', self.solver, '--no-standard-checks', '--bounds-check', '--pointer-check', '--unwind', str(self.unwind), '--unwinding-assertions']
            return c
        c = ['cbmc', g, '--json-ui', '--slice-formula', '--sat-solver', self.solver, '--max-field-sensitivity-array-size', '256']
        if not self.checks:
            c += ['--no-standard-checks']
        else:
            c += ['--no-pointer-primitive-check']
        if self.unwind:
            c += ['--unwind', str(self.unwind), '--unwinding-assertions']
        for u in self.unwindset:
            c += ['--unwindset', u]
        return c + list(self.cbmc)

    def execute(self, timeout=None, trace=False, keep=None):
        timeout = timeout or self.timeout
        t0 = time.time()
        d = tempfile.mkdtemp(prefix='mbjob.')
        r = dict(name=self.name, status='error', obligations=0, discharged=0, failed=[], reach_ok=0, reached=[], reach_bad=[], group=self.group, detail='', loops=[], wall=0.0,
                 solver=0.0, what=self.what, direct=self.direct, bounded=self.bounded, functions=list(self.functions), cmd='')
        try:
            g, r['loops'] = self.build(d)
            cmd = self.cmdline(g) + (['--trace'] if trace else [])
            r['cmd'] = ' '.join(cmd).replace(d, '.')
            rc, o, _ = run(cmd, timeout - (time.time() - t0))
            if keep:
                open(keep, 'w').write(o)
            if rc is None:
                r['status'] = 'timeout'
                return r
            self.read(o, rc, r)
        except Tool as e:
            r['status'] = 'structure'
            r['detail'] = str(e)
        finally:
            r['wall'] = time.time() - t0
            shutil.rmtree(d, ignore_errors=True)
        return r

    def read(self, o, rc, r):
        try:
            js = json.loads(o)
        except ValueError:
            r['status'] = 'error'
            r['detail'] = o[-1500:]
            return
        res = None
        for e in js:
            if 'result' in e:
                res = e['result']
            m = e.get('messageText', '')
            x = re.match(r'Runtime Solver: ([0-9.e+-]+)s', m)
            if x:
                r['solver'] += float(x.group(1))
            if 'no body for function' in m or 'no body for callee' in m:
                f = m.split()[-1]
                if not f.startswith('__CPROVER') and 'nondet' not in f:
                    r.setdefault('nobody', []).append(m)
        if res is None:
            r['status'] = 'error'
            r['detail'] = '; '.join(e.get('messageText', '') for e in js if e.get('messageType') == 'ERROR')[-1500:]
            return
        for p in res:
            desc = p.get('description', '')
            if desc.startswith('REACH'):
                if p['status'] == 'FAILURE':
                    r['reach_ok'] += 1
                    r['reached'].append(desc)
                else:
                    r['reach_bad'].append(desc)
                continue
            r['obligations'] += 1
            if p['status'] == 'SUCCESS':
                r['discharged'] += 1
            else:
                f = dict(property=p['property'], description=desc, status=p['status'],
                         where='%s:%s' % (p.get('sourceLocation', {}).get('file', '?'), p.get('sourceLocation', {}).get('line', '?')))
                if 'trace' in p:
                    f['trace'] = p['trace']
                r['failed'].append(f)
        if r['failed']:
            r['status'] = 'failed'
        elif (r['reach_bad'] and not (self.group and r['reach_ok'])) or r['obligations'] == 0 or r.get('nobody'):
            r['status'] = 'vacuous'
            r['detail'] = 'unreachable: %s; no body: %s' % (r['reach_bad'], r.get('nobody'))
        else:
            r['status'] = 'proved'
