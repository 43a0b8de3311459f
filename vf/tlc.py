"""Running TLC and reading what it says."""
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = ':'.join(['/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'])


class TlcError(Exception):
    pass


class Result(object):
    def __init__(self):
        self.out = ''
        self.generated = 0
        self.distinct = 0
        self.prints = []
        self.violated = None       # name of a violated invariant
        self.error = None          # evaluation or parse error
        self.finished = False


def write_cfg(path, constants=None, spec='Spec', invariants=(), extra=''):
    with open(path, 'w') as f:
        if constants:
            f.write('CONSTANTS\n')
            for k, v in constants.items():
                f.write('  %s = %s\n' % (k, tla(v)))
        f.write('SPECIFICATION %s\n' % spec)
        for i in invariants:
            f.write('INVARIANT %s\n' % i)
        f.write('CHECK_DEADLOCK FALSE\n')
        f.write(extra + '\n')


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    raise ValueError(v)


def run(module, constants=None, invariants=(), spec='Spec', env=None, workers=8, timeout=600, heap='6g',
        simulate=None, depth=None, seed=None, extra=''):
    """simulate: number of behaviours of a random walk, instead of exhaustive search."""
    work = tempfile.mkdtemp(prefix='tlc-')
    try:
        cfg = os.path.join(work, 'mc.cfg')
        write_cfg(cfg, constants, spec, invariants, extra)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xss16m', '-Xmx' + heap, '-cp', JARS, 'tlc2.TLC',
               '-config', cfg, '-metadir', os.path.join(work, 'states'), '-noGenerateSpecTE',
               '-workers', str(workers)]
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate]
            if depth:
                cmd += ['-depth', str(depth)]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        cmd.append(os.path.join(SPEC, module + '.tla'))
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        r = Result()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired as x:
            r.out = (x.stdout or b'').decode('utf-8', 'replace')
            r.error = 'timeout after %d s' % timeout
            return r
        r.out = p.stdout.decode('utf-8', 'replace')
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct', r.out)
        if m:
            r.generated, r.distinct = (int(x.replace(',', '')) for x in m[-1])
        m = re.findall(r'The number of states generated: ([\d,]+)', r.out)
        if m:
            r.generated = int(m[-1].replace(',', ''))
        for line in r.out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                r.prints.append(re.sub(r'\\(.)', r'\1', line[1:-1]))
        m = re.search(r'Invariant (\S+) is violated', r.out)
        if m:
            r.violated = m.group(1)
        elif 'Temporal properties were violated' in r.out or 'is violated by the initial state' in r.out:
            r.violated = 'property'
        r.finished = 'Model checking completed. No error has been found.' in r.out or \
            (simulate is not None and p.returncode == 0)
        if not r.finished and not r.violated:
            i = r.out.find('Error:')
            r.error = r.out[i:i + 1500] if i >= 0 else r.out[-1500:]
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)
