"""Binding between the Quint specification and the real code.

simulate()  draws behaviours of a specification with `quint run` (several processes, one seed each)
program()   translates the events of a behaviour to a program of the Rust harness
execute()   runs a program in one build of the harness and returns what was observed
judge()     compares observations with the obligations the specification attached to the event

The comparison is the refinement mapping: Montgomery words are decoded to residues and Jacobian
coordinates are projected to affine ones.  Everything else was computed by the specification.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
P = 21888242871839275222246405745257275088696311157297823662689037894645226208583
R = 21888242871839275222246405745257275088548364400416034343698204186575808495617
W = 1 << 256
WINV = {P: pow(W, -1, P), R: pow(W, -1, R)}
WORDS = {'fr': 1, 'g1': 3, 'g2': 6, 'gt': 12}
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


class ToolError(Exception):
    """Something of ours (or the sandbox) failed: no verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------- builds
BUILDS = {
    'dev': (['build'], 'target/debug/conform'),
    'release': (['build', '--release'], 'target/release/conform'),
    'borsh': (['build', '--no-default-features', '--features', 'ser-borsh', '--target-dir', 'target/borsh'],
              'target/borsh/debug/conform'),
    'borsh-release': (['build', '--release', '--no-default-features', '--features', 'ser-borsh', '--target-dir',
                       'target/borsh'], 'target/borsh/release/conform'),
}


def build(names):
    """Builds the harness from /repo's working tree; returns {name: binary}."""
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    env.pop('RUSTFLAGS', None)
    env.pop('CARGO_TARGET_DIR', None)

    def one(n):
        args, path = BUILDS[n]
        p = subprocess.run(['cargo'] + args + ['--offline'], cwd=HARNESS, env=env, capture_output=True, text=True)
        if p.returncode:
            raise ToolError('build %s failed:\n%s' % (n, p.stderr[-4000:]))
        return n, os.path.join(HARNESS, path)
    os.makedirs(os.path.join(HARNESS, 'target'), exist_ok=True)
    with open(os.path.join(HARNESS, 'target', '.verif-lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # dev and release share a target directory (cargo locks it), borsh has its own
        with cf.ThreadPoolExecutor(4) as ex:
            return dict(ex.map(one, names))


# ---------------------------------------------------------------------------- specification
def seeds(base, label, n):
    out = []
    for i in range(n):
        h = hashlib.sha256(('%s:%s:%d' % (base, label, i)).encode()).digest()
        out.append(int.from_bytes(h[:6], 'big'))
    return out


def _num(v):
    """ITF value -> Python value"""
    if isinstance(v, dict):
        if '#bigint' in v:
            return int(v['#bigint'])
        if '#tup' in v:
            return [_num(x) for x in v['#tup']]
        if '#set' in v:
            return [_num(x) for x in v['#set']]
        if '#map' in v:
            return {str(_num(k)): _num(x) for k, x in v['#map']}
        return {k: _num(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_num(x) for x in v]
    return v


def _load_itf(path):
    st = json.load(open(path))['states']
    os.unlink(path)
    key = [k for k in st[0] if k == 'ev' or k.endswith('::ev')][0]
    evs = [_num(s[key]) for s in st]
    return evs[1:], len(st)


def _quint_run(job):
    spec, main, step, traces, steps, seed, inv, tmp, init = job
    out = os.path.join(tmp, '%s-%s-%d.itf.json' % (main, step, seed))
    cmd = ['quint', 'run', os.path.join(SPEC, spec), '--main', main, '--step', step, '--init', init, '--seed', str(seed),
           '--max-samples', str(traces), '--n-traces', str(traces), '--max-steps', str(steps), '--verbosity', '1',
           '--out-itf', out]
    if inv:
        cmd += ['--invariant', inv]
    p = subprocess.run(cmd, cwd=tmp, capture_output=True, text=True)
    if p.returncode:
        raise ToolError('quint run %s %s seed %d failed:\n%s' % (main, step, seed, (p.stdout + p.stderr)[-3000:]))
    base = out[:-len('.itf.json')]
    files = [out] if traces == 1 else [base + '%d.itf.json' % i for i in range(traces)]
    res = []
    for i, f in enumerate(files):
        if not os.path.exists(f):
            raise ToolError('quint wrote no trace %s' % f)
        evs, n = _load_itf(f)
        res.append({'main': main, 'step': step, 'seed': seed, 'index': i, 'events': evs, 'states': n})
    return res


def simulate(jobs):
    """jobs: dicts spec, main, step, procs, traces, steps, inv, seed, label -> list of behaviours."""
    tmp = tempfile.mkdtemp(prefix='verif-sim-')
    try:
        flat = []
        for j in jobs:
            for s in seeds(j['seed'], j['label'] + ':' + j['step'], j['procs']):
                flat.append((j['spec'], j['main'], j['step'], j['traces'], j['steps'], s, j.get('inv'), tmp, j.get('init', 'init')))
        with cf.ProcessPoolExecutor(JOBS) as ex:
            return [t for ts in ex.map(_quint_run, flat) for t in ts]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------------------- translation
def _le(words, cut):
    b = b''.join(w.to_bytes(32, 'little') for w in words)
    return (b[:len(b) - cut] if cut else b).hex() or '-'


def _hx(n):
    return '%x' % n


def line_api(e):
    op, s, x = e['op'], e['s'], e['x']
    a = ' '.join(str(i) for i in e['a'])
    w = '%s.%s %s' % (s, op, a)
    if s == 'st':
        return {'new': 'st.new %s' % e['f'], 'cut': 'st.cut %s' % (x or [0])[0],
                'put': 'st.put %s %s %s' % ((x or [0])[0], e['f'], a), 'get': 'st.get %s %s' % ((x or [0])[0], e['f'])}[op].rstrip()
    if op == 'mulf':
        return '%s %s' % (w, _hx(x[0]))
    if op == 'str':
        return '%s %s' % (w, ''.join(chr(c) for c in x).encode('utf-8').hex() or '-')
    if op == 'strrep':
        return 'fr.str %s %s' % (a, (''.join(chr(c) for c in x) * e['cut']).encode('utf-8').hex() or '-')
    if op == 'slice':
        return '%s %s' % (w, bytes(x).hex() or '-')
    if op == 'interp':
        return '%s %0128x' % (w, x[0])
    if op.startswith('c_') or s == 'law':
        return ' '.join([w.strip()] + [str(v) for v in x] + ([e['f']] if e['f'] else []))
    if op == 'load':
        if e['cut'] and e['f'] in ('tjson', 'tcbor'):      # damage to the structure
            return '%s %s %s!%d' % (w, _le(x, 0), e['f'], e['cut'])
        return '%s %s %s' % (w, _le(x, e['cut']), e['f'])
    if op == 'rt':
        return '%s %s' % (w, e['f'])
    return w


def line_arith(e):
    op, x = e['op'], e['x']
    if op in ('add', 'sub', 'neg', 'mul', 'invert', 'cmp', 'even', 'iszero', 'consts', 'bytes', 'from', 'bits', 'ser', 'show'):
        return ' '.join(['u.' + op] + [_hx(v) for v in x])
    if op == 'getbit':
        return 'u.getbit %x %d' % (x[0], x[1])
    if op == 'setbit':
        return 'u.setbit %x %d %d' % (x[0], x[1], x[2])
    if op == 'slice':
        return 'u.slice %s' % (bytes(x).hex() or '-')
    if op == 'divrem':
        return 'w.divrem %x %x' % (x[0], x[1])
    if op == 'from5':
        return 'w.from %x %x %x' % tuple(x)
    if op == 'wgetbit':
        return 'w.getbit %x %d' % (x[0], x[1])
    if op in ('wser', 'wshow', 'weq'):
        return ' '.join(['w.' + op[1:]] + [_hx(v) for v in x])
    if op == 'collect':
        return ' '.join(['w.collect'] + ['%x' % v for v in x])
    if op == 'interp':
        return 'w.interp %0128x' % x[0]
    if op.startswith('c_'):
        return 'u.%s %x %d %d' % (op, x[0], x[1], x[2])
    raise ToolError('unknown arith op ' + op)


# ---------------------------------------------------------------------------- execution
class Runner:
    def __init__(self, bins):
        self.bins = bins
        self.hung = False

    def execute(self, build_name, lines, tmp, tag, mode=('run',), limit=120):
        """-> list of observation strings, one per line (missing tail if the process died or hung)."""
        prog = os.path.join(tmp, tag + '.prog')
        outp = os.path.join(tmp, tag + '.' + build_name + '.out')
        with open(prog, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        end = None
        with open(outp, 'wb') as o:
            p = subprocess.Popen([self.bins[build_name], mode[0], prog] + list(mode[1:]), stdout=o, stderr=subprocess.DEVNULL)
            t0 = time.time()
            lim = 10 if self.hung else limit
            while p.poll() is None:
                if time.time() - t0 > lim:
                    p.kill()
                    p.wait()
                    end = 'hang'
                    self.hung = True
                    break
                time.sleep(0.01 if time.time() - t0 < 1 else 0.1)
        text = open(outp, 'rb').read().decode('utf-8', 'replace')
        os.unlink(outp)
        obs, tail, done = {}, [], False
        for l in text.split('\n'):
            if l == 'end':
                done = True
            elif l.startswith('par '):
                tail.append(l)
            elif l:
                n, _, rest = l.partition(' ')
                obs[int(n)] = rest
        if any('HARNESS' in v for v in obs.values() if v.startswith('panic')):
            raise ToolError('harness: ' + [v for v in obs.values() if 'HARNESS' in v][0])
        if not done:
            why = end or 'died with status %s' % p.returncode
            n = max(obs) if obs else 0
            if not obs.get(n):
                obs[n] = 'panic ' + why
            else:
                obs[n + 1] = 'panic ' + why
        return [obs.get(i) for i in range(len(lines))], tail


def parse(o):
    """observation -> dict"""
    if o is None:
        return None
    if o.startswith('panic'):
        return {'panic': o[6:]}
    d = {}
    for t in o.split(' ')[1:]:
        k, _, v = t.partition('=')
        d[k] = v
    return d


def raw_words(h):
    b = bytes.fromhex(h)
    if len(b) % 32:
        return None
    return [int.from_bytes(b[i:i + 32], 'little') for i in range(0, len(b), 32)]


def block_hex(w):
    """32-byte block of the public encoding: 64-bit words least significant first, each big-endian"""
    return ''.join('%016x' % (w >> (64 * i) & (2 ** 64 - 1)) for i in range(4))


def f2inv(a):
    n = pow((a[0] * a[0] + a[1] * a[1]) % P, -1, P)
    return a[0] * n % P, -a[1] * n % P


def f2mul(a, b):
    return (a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P


def project(sort, raw):
    """Representation words -> the value in the specification's terms, or a string saying why there is none."""
    w = raw_words(raw)
    if w is None or len(w) != WORDS[sort]:
        return 'serialized size %d' % (len(raw) // 2)
    m = R if sort == 'fr' else P
    if any(x >= m for x in w):
        return 'representation word not below the modulus'
    v = [x * WINV[m] % m for x in w]
    if sort in ('fr', 'gt'):
        return v
    if sort == 'g1':
        c = [(v[0], 0), (v[1], 0), (v[2], 0)]
    else:
        c = [(v[0], v[1]), (v[2], v[3]), (v[4], v[5])]
    if c[2] == (0, 0):
        return [1, 0, 1] if sort == 'g1' else [1, 0, 0, 1, 0]
    zi = f2inv(c[2])
    z2 = f2mul(zi, zi)
    x, y = f2mul(c[0], z2), f2mul(c[1], f2mul(z2, zi))
    return [0, x[0], y[0]] if sort == 'g1' else [0, x[0], x[1], y[0], y[1]]


class Judge:
    """Judges one behaviour in one build.  want: which obligations count for the property."""

    def __init__(self, want, canon, prefix=0):
        self.want = want
        self.prefix = prefix        # 0: the build's containers have length prefixes of 8 bytes, 1: of 4
        self.canon = canon          # shared across behaviours: value -> encodings
        self.raws = {}              # (sort, register) -> observed representation

    def api(self, e, obs):
        """-> list of complaints"""
        o = parse(obs)
        s, op, want = e['s'], e['op'], self.want
        if o is None:
            return []               # never reached: the run ended at an earlier event, judged there
        if 'panic' in o:
            return ['panic or hang: ' + o['panic']]
        if s == 'law':
            return [] if o.get('r') == str(e['v'][0]) else ['law %s: expected truth %d, observed %s' % (op, e['v'][0], o.get('r'))]
        if e['rej']:
            return [] if 'rej' in o and o['rej'] != 'othererr' else ['must be rejected, but was answered %s' % obs[:300]]
        if 'rej' in o:
            return ['rejected (%s), must be accepted with value %s' % (o['rej'], e['v'])]
        if s == 'st':
            if op == 'get' and o.get('r') != str(e['v'][0]):
                return ['read %s values, expected %d' % (o.get('r'), e['v'][0])]
            if op == 'put' and e['v'] and o.get('r') != str(e['v'][self.prefix]):
                return ['wrote %s bytes, expected %d' % (o.get('r'), e['v'][self.prefix])]
            return []
        bad = []
        if 'raw' not in o:
            return ['no value observed: ' + obs[:200]]
        d = e['a'][0]
        val = project(s, o['raw'])
        if 'value' in want:
            if isinstance(val, str):
                bad.append(val)
            elif val != e['v']:
                bad.append('value: expected %s, observed %s' % (e['v'], val))
        if 'zero' in want and e['z'] >= 0 and o['z'] != str(e['z']):
            bad.append('zero test: expected %d, observed %s' % (e['z'], o['z']))
        if 'eq' in want:
            exp = ''.join(str(b) for b in e['eq'])
            if o['eq'] != exp:
                bad.append('equality with registers: expected %s, observed %s' % (exp, o['eq']))
        if 'enc' in want:
            w = raw_words(o['raw'])
            if e['enc'] and w != e['enc']:
                bad.append('representation words: expected %s, observed %s' % ([_hx(v) for v in e['enc']], o['raw']))
            if w is None or len(w) != WORDS[s]:
                bad.append('serialized size %d' % (len(o['raw']) // 2))
            else:
                exp = ''.join(block_hex(v) for v in w)
                if o['b'] != exp:
                    bad.append('into_bytes: expected %s, observed %s' % (exp, o['b']))
                if o['v'] not in ('-', exp):
                    bad.append('Vec::from: expected %s, observed %s' % (exp, o['v']))
        if 'same' in want and e['same'] >= 0:
            src = self.raws.get((s, e['same']))
            if src is not None and (o['raw'], o['b']) != src:
                bad.append('encoding changed by a round trip: %s became %s' % (src[0], o['raw']))
        if 'canon' in want and (s in ('fr', 'gt') or op == 'norm'):
            key = (s, tuple(e['v']))
            enc = (o['raw'], o['b'], o['d'])
            old = self.canon.setdefault(key, enc)
            if old != enc:
                bad.append('two encodings of one value: %s and %s' % (old, enc))
            for part, what in ((1, 'bytes'), (2, 'text')) if s == 'fr' else ((1, 'bytes'),):
                other = self.canon.setdefault((what, s, enc[part]), key)
                if other != key:
                    bad.append('the same %s %s for two values: %s and %s' % (what, enc[part], other[1], key[1]))
        self.raws[(s, d)] = (o['raw'], o['b'])
        return bad

    chains = api

    def protocolReal(self, e, obs):
        """Group values are given by their logarithms: equal logarithms, and only those, have equal values."""
        o = parse(obs)
        bad = self.api(e, obs)
        if bad or o is None or e['s'] not in ('g1', 'g2', 'gt') or 'raw' not in o:
            return bad
        val = project(e['s'], o['raw'])
        if isinstance(val, str):
            return [val]
        old = self.canon.setdefault(('log', e['s'], e['v'][0]), val)
        if old != val:
            return ['logarithm %d belongs to two values: %s and %s' % (e['v'][0], old, val)]
        k = self.canon.setdefault(('val', e['s'], tuple(val)), e['v'][0])
        if k != e['v'][0]:
            return ['value %s obtained for logarithms %d and %d' % (val, k, e['v'][0])]
        return []

    def arith(self, e, obs):
        o = parse(obs)
        if o is None:
            return []
        if 'panic' in o:
            return ['panic or hang: ' + o['panic']]
        try:
            got = self.observed_ints(e, o)
        except (KeyError, ValueError):
            return ['expected %s, observed %s' % ([_hx(abs(x)) for x in e['v']], obs[:400])]
        if e['op'] == 'slice' and e['v'] == [-1]:
            exp = 'err32:%d' % len(e['x'])
            return [] if o['r'] == exp else ['expected %s, observed %s' % (exp, o['r'])]
        return [] if got == e['v'] else ['expected %s, observed %s' % ([_hx(abs(x)) for x in e['v']], [_hx(abs(x)) for x in got])]

    def observed_ints(self, e, o):
        op = e['op']
        if op == 'consts':
            got = [int(o['r'], 16), int(o['one'], 16)]
        elif op == 'cmp':
            got = [int(o[k]) for k in ('r', 'p', 'eq', 'lt', 'ge')]
        elif op == 'setbit':
            got = [int(o['r'], 16), int(o['ok'])]
        elif op == 'bits':
            got = [int(o['r'] or '0', 2), len(o['r'])]
        elif op == 'slice':
            got = [-1] if o['r'].startswith('err') else [int(o['r'], 16)]
        elif op in ('ser', 'wser'):
            got = [int(o['r'], 16), -1 if o['back'] == 'err' else int(o['back'], 16)]
        elif op in ('show', 'wshow'):
            words = re.fullmatch(r'"((?:0x[0-9A-F]+)*)"', o['r'])
            words = words.group(1).split('0x')[1:] if words else []
            got = [sum(int(w, 16) << (64 * i) for i, w in enumerate(words)) if len(words) == (4 if op == 'show' else 8) else -1]
        elif op == 'divrem':
            got = [int(o['r'], 16), -1 if o['q'] == 'none' else int(o['q'], 16)]
        else:
            got = [int(o['r'], 16)]
        return got


LINE = {'api': line_api, 'chains': line_api, 'arith': line_arith, 'protocolReal': line_api}


def run_conformance(runner, behaviours, builds, want, kind_of=lambda t: t['main']):
    """Replays behaviours in all builds.  -> (stats, violations)"""
    tmp = tempfile.mkdtemp(prefix='verif-run-')
    canon = {}
    violations, stats = [], {'events': 0, 'executed': 0, 'replayed': 0, 'ops': {}, 'inner': 0, 'distinct': set(), 'samples': []}
    try:
        def job(k):
            i, b = k
            t = behaviours[i]
            conv = LINE[kind_of(t)]
            lines = [conv(e) for e in t['events']]
            obs, _ = runner.execute(b, lines, tmp, 't%d.%s' % (i, b))
            os.unlink(os.path.join(tmp, 't%d.%s.prog' % (i, b)))
            return i, b, lines, obs
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for i, b, lines, obs in ex.map(job, [(i, b) for i in range(len(behaviours)) for b in builds]):
                t = behaviours[i]
                j = Judge(want, canon, 1 if 'borsh' in b else 0)
                f = getattr(j, kind_of(t))
                stats['replayed'] += 1
                for n, e in enumerate(t['events']):
                    if obs[n] is not None:
                        stats['executed'] += 1
                    bad = f(e, obs[n])
                    if bad:
                        violations.append({'behaviour': {k: t[k] for k in ('main', 'step', 'seed', 'index')}, 'build': b,
                                           'event_index': n, 'event': e, 'line': lines[n], 'observed': obs[n],
                                           'complaints': bad, 'program': lines[:n + 1]})
                        break
        for t in behaviours:
            for e in t['events']:
                stats['events'] += 1
                if e['op'].startswith('c_') or (e.get('s') == 'law' and e['x']):
                    stats['inner'] += e['x'][-1] * len(builds)
                k = (e.get('s', '') + '.' + e['op'])
                stats['ops'][k] = stats['ops'].get(k, 0) + 1
                if nontrivial(e):
                    stats['distinct'].add(hashlib.md5(json.dumps([k, e['x'], e['v'], e.get('eq'), e.get('cut')]).encode()).digest())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return stats, violations


def nontrivial(e):
    """Not a constant, and not an operation whose result is just zero, one or the identity."""
    if e['op'] in ('zero', 'one', 'consts'):
        return False
    if e.get('rej'):
        return True
    v = e['v']
    if e.get('s') in ('g1', 'g2'):
        return v[0] == 0 if len(v) > 1 else v[0] not in (0, 1)
    if e.get('s') == 'gt':
        return v[0] != 1 or any(v[1:]) if len(v) > 1 else v[0] != 0
    return e.get('s') == 'law' or any(x not in (0, 1) for x in v) or e['op'] in ('cmp', 'even', 'iszero', 'getbit', 'wgetbit', 'slice')
