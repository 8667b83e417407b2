"""Design-level machines checked exhaustively with TLC (through quint verify)."""
import concurrent.futures as cf
import os
import random
import re
import shutil
import socket
import subprocess
import tempfile
import threading
import time

import conf

T, S, Q, A = 'tlc', 'sim', 'test', 'apalache'
# name: kind, spec, main, init, step, invariant, what it shows; a sim has (processes, traces, steps) per tier,
# an Apalache run its number of steps (0: one step of a formula over all its arguments; 1: the step of an induction)
MODELS = {
    'limbs2': (T, 'limbs.qnt', 'limbsToy', 'init', 'step', 'inv', 'carry chains, comparison and Montgomery product on 2 words of 4 bits, every odd modulus below 64, every operand'),
    'limbs3': (T, 'limbs.qnt', 'limbsToy3', 'init', 'step', 'inv', 'the same on 3 words, extreme moduli and operands of extreme words'),
    'bea8': (T, 'bea.qnt', 'beaToy', 'init', 'step', 'inv', 'binary extended Euclid, every odd modulus below 2^6 and operand: invariant relations, range, termination, result'),
    'bea10': (T, 'bea.qnt', 'beaToy2', 'init', 'step', 'inv', 'the same below 2^8'),
    'div4': (T, 'divrem.qnt', 'divremToy', 'init', 'step', 'inv', 'bitwise division, 4-bit words, every dividend and modulus'),
    'div6': (T, 'divrem.qnt', 'divremToy2', 'init', 'step', 'inv', 'bitwise division, 6-bit words, every dividend and modulus'),
    'dec4': (T, 'decode.qnt', 'decodeToy', 'init', 'step', 'inv', 'decimal decoding, every string of 4 characters, R = 7'),
    'dec5': (T, 'decode.qnt', 'decodeToy2', 'init', 'step', 'inv', 'decimal decoding, every string of 5 characters, R = 97'),
    'bias': (T, 'bias.qnt', 'biasToy', 'init', 'step', 'inv', 'reducing a wide uniform integer favours no residue by more than one preimage'),
    'jac': (T, 'jacobian.qnt', 'jacobian', 'init', 'step', 'inv', 'Jacobian formulas over p = 19: every pair of representations, all operation sequences'),
    'member': (T, 'jacobian.qnt', 'membership', 'minit', 'mstep', 'minv', 'every coordinate triple over p = 19: the membership test admits exactly the group'),
    'ate': (T, 'ate.qnt', 'ateToy', 'init', 'step', 'inv', 'pairing pipeline over p = 103 step by step against its definition, 8 x 5 pairs of points'),
    'ateAll': (T, 'ate.qnt', 'ateToyAll', 'init', 'step', 'inv', 'pairing pipeline over p = 103, all 97 x 97 pairs of points: bilinear, non-degenerate'),
    'ateMid': (S, 'ate.qnt', 'ateMid', 'init', 'step', 'invReal', 'pairing pipeline over p = 100003 against the definition', (2, 1, 40), (4, 30, 40)),
    'ateReal': (S, 'ate.qnt', 'ateReal', 'init', 'step', 'invReal', 'pairing pipeline at the real parameters against the definition', (1, 1, 100), (4, 6, 100)),
    'deep': (S, 'api.qnt', 'api', 'init', 'stepAll', 'invDeep', 'logarithms, values and unitarity agree in the API specification', (1, 1, 40), (4, 4, 150)),
    'consts': (Q, 'api_test.qnt', 'api_test', '', '', '', 'constants of the specification recomputed from their definitions'),
    'proto2': (T, 'protocol.qnt', 'protocolToy2', 'initOne', 'stepCore', 'inv', 'agreement and sound verdicts in every schedule with every key, R = 2'),
    'words': (A, 'wide.qnt', 'words', 'init', 'step', 'inv', 'add with carry, subtract with borrow, multiply-accumulate: every 64-bit word', 0),
    'modular': (A, 'wide.qnt', 'modular', 'init', 'step', 'inv', 'modular sum, difference, negation, doubling: every pair of residues at the real width', 0),
    'redcR': (A, 'wide.qnt', 'redcR', 'init', 'step', 'inv', 'Montgomery reduction rounds, real width, modulus r', 0),
    'redcP': (A, 'wide.qnt', 'redcP', 'init', 'step', 'inv', 'Montgomery reduction rounds, real width, modulus p', 0),
    'divBase': (A, 'wide.qnt', 'division', 'init', 'step', 'inv', 'bitwise division, 512 by 256 bits: the invariant holds at the start', 0),
    'divStep': (A, 'wide.qnt', 'division', 'anywhere', 'step', 'inv', 'bitwise division, 512 by 256 bits: every iteration keeps the invariant', 1),
    'invBaseR': (A, 'wide.qnt', 'inversionR', 'init', 'step', 'inv', 'binary Euclid modulo r: the invariant holds at the start', 0),
    'invStepR': (A, 'wide.qnt', 'inversionR', 'anywhere', 'step', 'inv', 'binary Euclid modulo r: every iteration keeps the invariant', 1),
    'invGhostR': (A, 'wide.qnt', 'inversionR', 'anywhere', 'step', 'ghosts', 'binary Euclid modulo r: the ghosts of the linear form are the products they stand for', 0),
    'invBaseP': (A, 'wide.qnt', 'inversionP', 'init', 'step', 'inv', 'binary Euclid modulo p: the invariant holds at the start', 0),
    'invStepP': (A, 'wide.qnt', 'inversionP', 'anywhere', 'step', 'inv', 'binary Euclid modulo p: every iteration keeps the invariant', 1),
    'invGhostP': (A, 'wide.qnt', 'inversionP', 'anywhere', 'step', 'ghosts', 'binary Euclid modulo p: ghosts', 0),
    'tower': (Q, 'tower.qnt', 'tower', '', '', '', 'products, squares, sparse products, Frobenius maps of the tower at the real parameters, complete on a basis'),
    'codecSmall': (T, 'codec.qnt', 'codecSmall', 'init', 'step', 'inv', 'streams of fixed-width records and containers over a transport that fragments, damages, ends early'),
    'codec': (T, 'codec.qnt', 'codecToy', 'init', 'step', 'inv', 'the same, larger words'),
    'codec3': (T, 'codec.qnt', 'codecToy3', 'init', 'step', 'inv', 'the same, three sorts'),
    'closed': (Q, 'chains.qnt', 'chains', '', '', '', 'closed forms of the chains against repeated single steps'),
    'laws': (Q, 'laws.qnt', 'laws', '', '', '', 'the laws evaluated by the implementation hold of the mathematical values, and their negative parts too'),
    'proto3': (T, 'protocol.qnt', 'protocolToy', 'initOne', 'stepCore', 'inv', 'the same with R = 3'),
}
# property -> models of the quick tier, further models of the thorough tier
PLAN = {
    'C01': ('bea8 modular', 'limbs2 bea10 words redcR invBaseR invStepR invGhostR closed laws'),
    'C02': ('dec4', 'dec5 div4 div6'),
    'C03': ('modular', 'limbs2 words'),
    'C04': ('jac', 'consts laws'),
    'C05': ('consts', 'jac deep laws'),
    'C06': ('jac', 'deep'),
    'C07': ('jac', 'laws'),
    'C08': ('jac', ''),
    'C09': ('ate', 'ateAll ateMid consts laws'),
    'C10': ('ate ateMid', 'ateAll ateReal consts tower'),
    'C11': ('ate tower', 'ateAll ateMid deep laws'),
    'C12': ('codecSmall', 'codec codec3'),
    'C13': ('codecSmall', 'codec codec3'),
    'C14': ('member consts', 'ate codec laws'),
    'C15': ('', 'codecSmall'),
    'C16': ('limbs2 bea8 words modular redcP', 'limbs3 bea10 redcR invBaseR invStepR invGhostR invBaseP invStepP invGhostP'),
    'C17': ('div4 div6 divBase divStep', ''),
    'C18': ('bias', ''),
    'C19': ('proto2', 'proto3 laws'),
    'C20': ('bea8', 'bea10 ate invBaseR invStepR invBaseP invStepP'),
}


def level(pid):
    return 'model_checking' if PLAN.get(pid, ('', ''))[0] and any(MODELS[m][0] in (T, A) for m in PLAN[pid][0].split()) else 'exploration'


TAKEN = set()
PORTS = threading.Lock()


def free_port():
    """A port below the range the system hands out by itself, not given out before in this process."""
    while True:
        port = random.SystemRandom().randrange(10000, 32000)
        with PORTS, socket.socket() as s:
            try:
                s.bind(('0.0.0.0', port))
            except OSError:
                continue
            if port not in TAKEN:
                TAKEN.add(port)
                return port


def verify(args, tmp):
    """quint verify with a checker server of its own; started again when the server could not get its port."""
    for attempt in range(4):
        p = subprocess.run(['quint', 'verify'] + args[:-1] + ['--server-endpoint', 'localhost:%d' % free_port(), args[-1]],
                           cwd=tmp, capture_output=True, text=True, timeout=3000)
        text = p.stdout + p.stderr
        if 'Address already in use' not in text and 'Failed to bind' not in text:
            break
    return p.returncode, text


def one(job):
    name, tier, seed = job
    kind, spec, main, init, step, inv, what = MODELS[name][:7]
    tmp = tempfile.mkdtemp(prefix='verif-tlc-')
    t0 = time.time()
    path = os.path.join(conf.SPEC, spec)
    res = {'model': name, 'spec': spec, 'module': main, 'invariant': inv, 'shows': what, 'distinct_states': 0, 'transitions': 0,
           'exhaustive': kind == T}
    try:
        if kind == T:
            rc, text = verify(['--backend', 'tlc', '--main', main, '--init', init, '--step', step, '--invariant', inv, path], tmp)
            m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left', text)
            if rc or not m or 'No violation found' not in text:
                raise conf.ToolError('model %s %s: %s' % (spec, main, text[-3000:]))
            res['transitions'], res['distinct_states'] = (int(x.replace(',', '')) for x in m.groups())
        elif kind == A:
            rc, text = verify(['--main', main, '--init', init, '--step', step, '--invariant', inv, '--max-steps', str(MODELS[name][7]), path], tmp)
            if rc or 'No violation found' not in text or 'NoError' not in text:
                raise conf.ToolError('model %s %s: %s' % (spec, main, text[-3000:]))
            res['symbolic_steps'] = MODELS[name][7]
        elif kind == S:
            procs, traces, steps = MODELS[name][7 if tier == 'quick' else 8]

            def go(sd):
                cmd = ['quint', 'run', path, '--main', main, '--init', init, '--step', step, '--invariant', inv, '--seed', str(sd),
                       '--max-samples', str(traces), '--max-steps', str(steps), '--verbosity', '1']
                p = subprocess.run(cmd, cwd=tmp, capture_output=True, text=True, timeout=3000)
                if p.returncode or 'No violation found' not in p.stdout + p.stderr:
                    raise conf.ToolError('model %s %s seed %d: %s' % (spec, main, sd, (p.stdout + p.stderr)[-3000:]))
            with cf.ThreadPoolExecutor(procs) as ex:
                list(ex.map(go, conf.seeds(seed, 'model:' + name, procs)))
            res['simulated_states'] = procs * traces * steps
        else:
            p = subprocess.run(['quint', 'test', '--main', main, path], cwd=tmp, capture_output=True, text=True, timeout=3000)
            m = re.search(r'(\d+) passing', p.stdout)
            if p.returncode or not m:
                raise conf.ToolError('model %s: %s' % (spec, (p.stdout + p.stderr)[-3000:]))
            res['assertion_groups'] = int(m.group(1))
        res['wall_s'] = round(time.time() - t0, 1)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, seed):
    q, t = PLAN.get(pid, ('', ''))
    names = (q if tier == 'quick' else q + ' ' + t).split()
    with cf.ThreadPoolExecutor(4) as ex:
        runs = list(ex.map(one, [(n, tier, seed) for n in names]))
    return {'level': level(pid), 'states': sum(r['distinct_states'] for r in runs), 'transitions': sum(r['transitions'] for r in runs),
            'runs': runs, 'samples': []}
