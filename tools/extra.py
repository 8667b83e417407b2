"""Conformance beyond register-machine replay: cross-build and cross-thread purity."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import tempfile

import conf


def cross(runner, behaviours, builds, par):
    """The same program must be observed identically in every build, again in a second run, and
    when every event is re-evaluated on its recorded operands from several threads."""
    tmp = tempfile.mkdtemp(prefix='verif-cross-')
    vio, n = [], 0
    # one behaviour per profile is also kept running for long
    soaked = {}
    for i, t in enumerate(behaviours):
        soaked.setdefault((t['main'], t['step']), i)
    soaked = set(soaked.values())
    try:
        def job(i):
            t = behaviours[i]
            lines = [conf.LINE[t['main']](e) for e in t['events']]
            out = {}
            for b in builds:
                out[b], tail = runner.execute(b, lines, tmp, 'x%d' % i, ('par', '8') if par else ('run',), 240)
                out[b + ' par'] = tail
            if par and i in soaked:
                b = [x for x in ('release', builds[0]) if x in builds][0]
                _, out[b + ' soak par'] = runner.execute(b, lines, tmp, 'z%d' % i, ('soak', '8'), 400)
            if par:
                out[builds[0] + ' again'], _ = runner.execute(builds[0], lines, tmp, 'y%d' % i)
            return i, lines, out
        with cf.ThreadPoolExecutor(2 if par else conf.JOBS) as ex:
            for i, lines, out in ex.map(job, range(len(behaviours))):
                t = behaviours[i]
                who = {k: t[k] for k in ('main', 'step', 'seed', 'index')}
                ref = out[builds[0]]
                for k, obs in out.items():
                    if k.endswith(' par'):
                        for l in obs:
                            f = dict(x.split('=', 1) for x in l.split()[1:])
                            n += int(f['evaluated'])
                            if f['differ']:
                                m = f['differ'].split(',')[0]
                                m = int(m) if m.isdigit() else len(lines) - 1
                                vio.append({'behaviour': who, 'build': k, 'event_index': m, 'line': lines[m], 'observed': l,
                                            'event': t['events'][m], 'program': lines, 'mode': 'par',
                                            'complaints': ['re-evaluation from threads on the same operands differs: ' + l[:200]]})
                        continue
                    if k == builds[0]:
                        continue
                    for m, (a, b) in enumerate(zip(ref, obs)):
                        n += 1
                        if a is not None and b is not None and a != b and not lines[m].startswith('st.put') and not (a.startswith('panic') and b.startswith('panic')):
                            vio.append({'behaviour': who, 'build': k, 'event_index': m, 'line': lines[m], 'observed': b,
                                        'event': t['events'][m], 'program': lines[:m + 1], 'mode': 'cross',
                                        'complaints': ['build %s observed %s, build %s observed %s' % (builds[0], a[:300], k, b[:300])]})
                            break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return n, vio


def run(pid, tier, seed, runner, builds):
    if pid == 'C18':
        return sampler(tier, seed, runner, builds)
    return {}, []


# ---------------------------------------------------------------- C18: trace validation of sampling
SORTS = ['fr', 'g1', 'g2', 'g1std', 'g2std', 'gt', 'u256', 'u512']
BASE = {'g1std': 'g1', 'g2std': 'g2'}
BYTES = {'fr': 32, 'g1': 96, 'g2': 192, 'gt': 384}
MODULI = [conf.R, conf.P, 2 ** 253 + 2 ** 200 + 1, 2 ** 61 - 1, 97]


def _values(sort, text):
    """recorded text -> representation words"""
    b = BASE.get(sort, sort)
    if b in ('u256', 'u512'):
        return [[int(t, 16)] for t in text.split(',')]
    out = []
    for t in text.split(','):
        w = conf.raw_words(t)
        out.append(w if w is not None and len(w) == conf.WORDS[b] else [-1])
    return out


def _obs(kind, sort, w=(), drew=0, n=0, m=0, c=()):
    return '{ kind: "%s", sort: "%s", w: [%s], drew: %d, n: %d, m: %d, c: [%s] }' % (
        kind, BASE.get(sort, sort), ', '.join(map(str, w)), drew, n, m, ', '.join(map(str, c)))


def _trace(job):
    """One recorded trace against sampler.qnt; -> (job, list of (index, reason), states)"""
    name, obs = job
    tmp = tempfile.mkdtemp(prefix='verif-trace-')
    try:
        for f in ('bn.qnt', 'sampler.qnt'):
            shutil.copy(os.path.join(conf.SPEC, f), tmp)
        with open(os.path.join(tmp, 'trace.qnt'), 'w') as f:
            f.write('module trace {\n  import sampler(OBS = [\n    %s\n  ]).* from "./sampler"\n}\n' % ',\n    '.join(obs))
        out = os.path.join(tmp, 'o.itf.json')
        p = subprocess.run(['quint', 'run', 'trace.qnt', '--main', 'trace', '--max-samples', '1', '--n-traces', '1', '--seed', '1',
                            '--max-steps', str(len(obs)), '--verbosity', '1', '--out-itf', out], cwd=tmp, capture_output=True, text=True)
        if p.returncode or not os.path.exists(out):
            raise conf.ToolError('trace %s: %s' % (name, (p.stdout + p.stderr)[-2000:]))
        st = json.load(open(out))['states']
        last = {k: conf._num(v) for k, v in st[-1].items() if not k.startswith('#')}
        key = [k for k in last if k.endswith('bad')][0]
        pos = [k for k in last if k == 'l' or k.endswith('::l')][0]
        if last[pos] != len(obs):
            raise conf.ToolError('trace %s consumed %s of %d observations' % (name, last[pos], len(obs)))
        return name, last[key], len(st)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _counts(vals, cells, f):
    c = [0] * cells
    for v in vals:
        k = f(v)
        if 0 <= k < cells:
            c[k] += 1
        else:
            c[0] += 10 ** 6        # out of range altogether: can only be a violation
    return c


def _stats(sort, vals, n, tag):
    """observations on the distribution of integers that must be uniform below n"""
    o, b = [], n.bit_length()

    def add(kind, m, c, what, size=0):
        o.append((_obs(kind, sort, (), 0, n, m, c), '%s: %s' % (tag, what)))
    for sh in (9, 7, 4):
        if b > sh + 8:
            m = 1 << (b - sh)
            add('top', m, _counts(vals, (n + m - 1) // m, lambda v: v // m), 'values by their top %d bits' % sh)
    for k in (256, 16, 3, 5, 7, 11, 13, 65537 if n < 65537 else 17):
        if n > 100 * k:
            add('mod', k, _counts(vals, k, lambda v: v % k), 'values modulo %d' % k)
    # middle of the integer: reduction errors hide there
    bits = [0] * b
    for v in vals:
        if v < 0 or v >= n:
            bits[0] += 10 ** 6
            continue
        s = bin(v)[2:][::-1]
        for i, ch in enumerate(s):
            if ch == '1':
                bits[i] += 1
    add('bits', len(vals), bits, 'each bit')
    if b > 16:
        m = 1 << (b - 4)
        k = (n + m - 1) // m
        pairs = list(zip(vals, vals[1:]))
        add('pairs', m, _counts(pairs, k * k, lambda p: p[0] // m * k + p[1] // m), 'consecutive samples')
        m9 = 1 << (b - 8)
        for what, f in (('difference of consecutive samples', lambda p: (p[1] - p[0]) % n), ('sum of consecutive samples', lambda p: (p[0] + p[1]) % n)):
            add('top', m9, _counts(pairs, (n + m9 - 1) // m9, lambda p: f(p) // m9), what)
    return o


def sampler(tier, seed, runner, builds):
    big = tier == 'thorough'
    # ---- record: the same program in every build; observations on the slow ones are small
    N = {'fr': 2000000 if big else 200000, 'g1': 20000 if big else 4000, 'g2': 12000 if big else 3000, 'g1std': 10000 if big else 2000,
         'g2std': 6000 if big else 1500, 'gt': 200 if big else 40, 'u256': 200000 if big else 40000, 'u512': 200000 if big else 40000}
    s0 = conf.seeds(seed, 'C18', 4)
    feeds = ['00' * 4096, 'ff' * 4096, 'ff' * 128 + '00' * 128, '00' * 128 + 'ff' * 128, '01' + '00' * 255, '00' * 252 + '01000000', '80' * 256,
             '7f' * 256, '00000001' * 64, 'ff000000' * 64, 'fffefdfc' * 64]
    rest = hashlib.sha256(('feed%d' % seed).encode())
    for i in range(60 if big else 16):
        rest.update(b'x')
        d = rest.digest()
        feeds.append(''.join(['00', 'ff', '%02x' % d[j % 32]][(d[j // 8 % 32] >> (j % 3)) % 3] for j in range(256)))

    def args(sort, m):
        return ' %x' % m if sort == 'u256' else ''

    jobs = []          # (kind, sort, modulus, line)
    for sort in SORTS:
        for m in (MODULI if sort == 'u256' else [0]):
            jobs.append(('main', sort, m, 'stream.%s %d %d%s' % (sort, s0[0] >> 1, N[sort] if m in (0, conf.R) else 4000, args(sort, m))))
            k = {'g1': 40, 'g2': 20, 'g1std': 20, 'g2std': 10, 'gt': 5}.get(sort, 300)
            jobs.append(('prefix', sort, m, 'stream.%s %d %d%s' % (sort, s0[0] >> 1, k, args(sort, m))))
            jobs.append(('fresh', sort, m, 'fresh.%s %d %d%s' % (sort, s0[1] >> 1, {'fr': 20000, 'u256': 4000, 'u512': 4000}.get(sort, k * 4), args(sort, m))))
            jobs.append(('sens', sort, m, 'sens.%s %d %d%s' % (sort, s0[2] >> 1, {'fr': 1, 'u256': 1, 'u512': 1, 'gt': 16}.get(sort, 4), args(sort, m))))
    for i, h in enumerate(feeds):
        for sort in ('fr', 'g1', 'g2', 'u256') + (('gt',) if i < 4 or big else ()):
            jobs.append(('feed', sort, conf.R if sort == 'u256' else 0, 'feed.%s %s %s%s' % (
                sort, s0[3] >> 1 if sort != 'u256' else h, h if sort != 'u256' else '', args(sort, conf.R))))
    # the harness reads: feed.<sort> SEED BYTES [MOD]
    jobs = [(k, s, m, 'feed.u256 %d %s %x' % (s0[3] >> 1, l.split()[1], m) if k == 'feed' and s == 'u256' else l) for k, s, m, l in jobs]
    rel = 'release' if 'release' in builds else builds[0]
    tmp = tempfile.mkdtemp(prefix='verif-rand-')
    vio, seen_obs = [], {}
    try:
        # one process per stream in the fast build; one process for everything small, in program order, in each build
        small = [j for j in jobs if j[0] in ('prefix', 'feed')]
        order = small + small[::-1]

        def one(k):
            what, i = k
            if what == 'rel':
                return k, [jobs[i][3]], runner.execute(rel, [jobs[i][3]], tmp, 'r%d' % i, ('run',), 300)[0]
            return k, [j[3] for j in order], runner.execute(what, [j[3] for j in order], tmp, 's' + what, ('run',), 300)[0]
        todo = [('rel', i) for i in range(len(jobs)) if jobs[i][0] != 'feed'] + [(b, 0) for b in builds]
        obs = {}
        with cf.ThreadPoolExecutor(conf.JOBS) as ex:
            for k, lines, out in ex.map(one, todo):
                for l, o in zip(lines, out):
                    d = conf.parse(o)
                    if d is None:
                        continue
                    if 'panic' in d:
                        vio.append({'build': rel if k[0] == 'rel' else k[0], 'line': l[:400], 'program': [l], 'mode': 'run', 'observed': o,
                                    'complaints': ['panic or hang while sampling: ' + d['panic'][:200]]})
                        continue
                    obs.setdefault(l, []).append((k[0], d))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if vio:
        return {}, vio[:3]
    # ---- translate to observations
    traces = {}

    def put(trace, o, why, line):
        traces.setdefault(trace, []).append((o, why, line))
    evals = distinct = 0
    samples = []
    for kind, sort, m, line in jobs:
        got = obs.get(line, [])
        if not got:
            raise conf.ToolError('no observation for ' + line[:200])
        d0 = got[0][1]
        key = 'mod %x' % m if sort == 'u256' else ''
        if kind in ('prefix', 'feed'):
            # the same generator output, whatever the build and whatever was sampled before
            dig = [int(hashlib.sha256(d['v'].encode()).hexdigest()[:12], 16) for _, d in got]
            if kind == 'prefix':
                long_ = [l for k2, s2, m2, l in jobs if (k2, s2, m2) == ('main', sort, m)][0]
                cut = ','.join(obs[long_][0][1]['v'].split(',')[:d0['v'].count(',') + 1])
                dig.append(int(hashlib.sha256(cut.encode()).hexdigest()[:12], 16))
            put('same', _obs('same', sort, dig, 0, 0, 0, [dig[0]] * len(dig)), 'repetition of ' + line[:80], line)
            evals += len(got) * (d0['v'].count(',') + 1)
        if kind == 'feed':
            w = _values(sort, d0['v'])[0]
            if not (w == [0] or sort in ('g1', 'g2') and not any(w[len(w) // 3 * 2:])):
                put('feed', _obs('fed', sort, w, 0, 1, m), 'chosen generator output', line)
        if kind in ('main', 'fresh'):
            vals = _values(sort, d0['v'])
            drew = [int(x) for x in d0['drew'].split(',')] if kind == 'main' else []
            evals += len(vals)
            distinct += len(set(map(tuple, vals)))
            if kind == 'main' and not (sort == 'u256' and m < 2 ** 64):
                lim = {'fr': 150, 'g1': 150, 'g2': 50, 'g1std': 60, 'g2std': 25, 'gt': 6, 'u256': 40, 'u512': 40}[sort] * (4 if big else 1)
                for i, w in enumerate(vals[:lim]):
                    deep = 1 if sort in ('g2', 'g2std') and i < (24 if big else 3) else 0
                    put('%s %s' % (sort, key), _obs('sample', sort, w, drew[i], deep, m), 'sample %d of %s' % (i, line), line)
                if len(samples) < 4:
                    samples.append({'trace': line, 'sample': '%x' % vals[0][0], 'drew': drew[0]})
            if not (sort == 'u256' and m < 2 ** 64):
                put('same', _obs('distinct', sort, (), 0, len(vals), len(set(map(tuple, vals)))), 'distinctness of ' + line, line)
            tag = '%s %s%s' % (sort, kind, ' ' + key if key else '')
            if sort in ('fr', 'u256'):
                mod = conf.R if sort == 'fr' else m
                ints = [w[0] * conf.WINV[conf.R] % conf.R if sort == 'fr' and 0 <= w[0] < conf.R else w[0] for w in vals]
                for o, why in _stats(sort, ints, mod, tag):
                    put('stat ' + tag, o, why, line)
            elif sort == 'u512':
                for o, why in _stats(sort, [w[0] for w in vals], 2 ** 512, tag):
                    put('stat ' + tag, o, why, line)
            elif sort in ('g1', 'g2', 'g1std', 'g2std') and kind == 'main':
                pr = [conf.project(BASE.get(sort, sort), x) for x in d0['v'].split(',')]
                for i in range(1, len(pr[0]) if not isinstance(pr[0], str) else 1):
                    ints = [q[i] if not isinstance(q, str) and q[0] == 0 else -1 for q in pr]
                    for o, why in _stats(sort, ints, conf.P, tag + ' coordinate %d' % i):
                        if '"pairs"' not in o and 'consecutive' not in why:
                            put('stat ' + tag, o, why, line)
        if kind == 'sens':
            step = int(line.split()[2])
            # does extreme output make it draw again?  (rejection sampling needs no surplus bits)
            f = [l for k2, s2, m2, l in jobs if k2 == 'feed' and s2 == BASE.get(sort, sort) and (m2 == m or m2 == 0) and 'ff' * 4096 in l]
            rej = 1 if f and int(obs[f[0]][0][1].get('drew', '0')) > 3 * int(d0['drew']) else 0
            need = {'g1': 254, 'g2': 254, 'g1std': 254, 'g2std': 254, 'gt': 254, 'fr': 254, 'u512': 512 - 64}.get(sort) or m.bit_length()
            # hits are counted on every step-th bit of the output
            if sort == 'gt':
                # a pairing of two independent samples: counted coarsely
                need = 254
            put('same', _obs('entropy', sort, (), int(d0['drew']), need, rej, [min(int(d0['hit']) * step, 8 * int(d0['drew']))]),
                'dependence on generator output of ' + sort + ' ' + key, line)
            evals += int(d0['tried'])
    names = sorted(traces)
    # group small traces so that no more processes start than cores
    groups = [[] for _ in range(8)]
    for nme in sorted(names, key=lambda x: -cost(traces[x])):
        min(groups, key=lambda g: sum(cost(traces[x]) for x in g)).append(nme)
    batches = []
    for g in groups:
        for_batch = [x for nme in g for x in traces[nme]]
        if for_batch:
            batches.append(for_batch)
    with cf.ThreadPoolExecutor(8) as ex:
        for (name, bad, _), batch in zip(ex.map(_trace, [(str(i), [o for o, _, _ in b]) for i, b in enumerate(batches)]), batches):
            for pos, why in bad:
                o, tag, line = batch[pos]
                vio.append({'build': rel, 'line': line[:400], 'program': [line], 'mode': 'run', 'observed': o[:2000],
                            'complaints': ['%s: %s' % (tag[:200], why)]})
    part = {'evaluations': evals, 'distinct': distinct, 'traces': len(names), 'samples': samples,
            'rule': 'Sampling: an evaluation is one sample drawn from a recorded generator (or one generator bit flipped); distinct samples are counted. ',
            'coverage': {'trace_observations': sum(len(b) for b in batches), 'streams': {k: N[k] for k in N}}}
    return part, vio


def cost(tr):
    return sum(3000 if '"g2"' in o and 'n: 1,' in o else 4000 if '"gt"' in o and ('"sample"' in o or '"fed"' in o) else len(o) for o, _, _ in tr)
