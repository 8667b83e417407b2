// chains.qnt -- long runs of calls with a closed form, and laws over many operands (Quint).
//
// One transition is a *chain*: N calls of the public API, each on the result of the one before, of
// which only the end is observed.  The specification does not repeat the calls: the chain is a power
// of an affine map (or of a matrix) on residues or logarithms, so its end is known whatever N is, and
// an error in any one of the N calls shows in the end.  Or it is a *law*: an equation of the
// specification evaluated by the implementation on N operands drawn from stream number SEED, all of
// which must satisfy it.  A step of `api.qnt` samples one call; a step here samples thousands.
module chains {
  import api.* from "./api"
  import bn(
    P = 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    R = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    U = 4965661367192848881, BCOEF = 3, XI = (9, 1), NBITS = 254,
    GEN1 = ((1, 0), (2, 0)),
    GEN2 = ((10857046999023057135944570762232829481370756359578518086990519993285655852781,
             11559732032986387107991004021392285783925812861821192530917403151452391805634),
            (8495653923123431417604973247489272438418190587263600148770280649306958101930,
             4082367875863433681332203403145435568316851327593401208105741076214120093531))
  ).* from "./bn"

  // ================================================================ closed forms
  pure def md(a: int): int = (a % R + R) % R
  /// N times x -> al x + be
  type Aff = { al: int, be: int }
  pure def after(f: Aff, g: Aff): Aff = { al: f.al * g.al % R, be: (g.al * f.be + g.be) % R }
  pure def affPow(f: Aff, n: int): Aff =
    range(0, 17).foldl({ acc: { al: 1, be: 0 }, f: f, n: n }, (s, i) =>
      { acc: if (s.n % 2 == 1) after(s.acc, s.f) else s.acc, f: after(s.f, s.f), n: s.n / 2 }).acc
  pure def aff(al: int, be: int, n: int, x: int): int = { val f = affPow({ al: md(al), be: md(be) }, n) (f.al * x + f.be) % R }
  /// N times (x, y) -> M (x, y)
  type Mat = { a: int, b: int, c: int, d: int }
  pure def mm(m: Mat, n: Mat): Mat = { a: (m.a * n.a + m.b * n.c) % R, b: (m.a * n.b + m.b * n.d) % R, c: (m.c * n.a + m.d * n.c) % R, d: (m.c * n.b + m.d * n.d) % R }
  pure def matPow(m: Mat, n: int): Mat =
    range(0, 17).foldl({ acc: { a: 1, b: 0, c: 0, d: 1 }, m: m, n: n }, (s, i) =>
      { acc: if (s.n % 2 == 1) mm(s.acc, s.m) else s.acc, m: mm(s.m, s.m), n: s.n / 2 }).acc
  /// first component after N steps of (x, y) -> (y, x + y), and of (x, y) -> (y, x - y)
  pure def fib(x: int, y: int, n: int): int = { val m = matPow({ a: 0, b: 1, c: 1, d: 1 }, n) (m.a * x + m.b * y) % R }
  pure def fibs(x: int, y: int, n: int): int = { val m = matPow({ a: 0, b: 1, c: 1, d: R - 1 }, n) (m.a * x + m.b * y) % R }
  /// N times x -> 1 / (x + c) on the projective line; -1 at infinity
  pure def mobius(x: int, c: int, n: int): int = {
    val m = matPow({ a: 0, b: 1, c: 1, d: c }, n)
    val num = (m.a * x + m.b) % R
    val den = (m.c * x + m.d) % R
    if (den == 0) -1 else num * invMod(den, R) % R
  }
  pure def expMod(b: int, n: int, m: int): int =
    range(0, 17).foldl({ acc: 1, b: b % m, n: n }, (s, i) => { acc: if (s.n % 2 == 1) s.acc * s.b % m else s.acc, b: s.b * s.b % m, n: s.n / 2 }).acc
  /// N times x -> x^k
  pure def powChain(x: int, k: int, n: int): int =
    if (x == 0) (if (k == 0) (if (n == 0) 0 else 1) else 0) else powMod(x, expMod(k, n, R - 1), R)

  // ================================================================ scalars
  action frEnd(d: int, op: str, a: List[int], n: int, f: str, v: int): bool = putFr(d, { ...EV0, op: op, a: a, x: [n], f: f }, v)
  /// x, b, c: registers
  action frChain(d: int, i: int, j: int, k: int, n: int): bool = {
    val x = fr[i]
    val b = fr[j]
    val c = fr[k]
    val a = [i, j, k]
    any {
      frEnd(d, "c_lin", a, 20000 + n % 40000, "", aff(b, c, 20000 + n % 40000, x)),                  // x b + c
      frEnd(d, "c_rlin", a, 20000 + n % 40000, "", aff(-b, c, 20000 + n % 40000, x)),                // c - b x
      frEnd(d, "c_nlin", a, 20000 + n % 40000, "", aff(-b, -c, 20000 + n % 40000, x)),               // -(x b) - c
      frEnd(d, "c_fib", [i, j], 30000 + n % 60000, "", fib(x, b, 30000 + n % 60000)),
      frEnd(d, "c_fibs", [i, j], 30000 + n % 60000, "", fibs(x, b, 30000 + n % 60000)),
      frEnd(d, "c_sq", [i], 20000 + n % 40000, "", powChain(x, 2, 20000 + n % 40000)),
      { val v = mobius(x, c, 1500 + n % 3000)
        if (v < 0) answer({ ...EV0, s: "fr", op: "c_mob", a: [d, i, k], x: [1500 + n % 3000], rej: true })
        else frEnd(d, "c_mob", [i, k], 1500 + n % 3000, "", v) },
      frEnd(d, "c_pow", [i, j], 150 + n % 300, "", powChain(x, b, 150 + n % 300)),
    }
  }
  /// the value written out in decimal, big-endian, or together with another, and decoded again
  pure def onStr(b: int, n: int, x: int): int = aff(10^77 + b, 0, n, x)
  action frDecodeChain(d: int, i: int, j: int, n: int): bool = {
    val x = fr[i]
    val b = fr[j]
    any {
      frEnd(d, "c_interp", [i, j], 4000 + n % 8000, "", aff(W + b, 0, 4000 + n % 8000, x)),       // x 2^256 + b x
      frEnd(d, "c_str", [i, j], 300 + n % 700, "", onStr(b, 300 + n % 700, x)),                   // x 10^77 + b x
      frEnd(d, "c_slice", [i, j], 4000 + n % 8000, "", aff(b, 0, 4000 + n % 8000, x)),            // some alias of b x
      frEnd(d, "c_mulf", [i, j], 4000 + n % 8000, "", aff(b, 0, 4000 + n % 8000, x)),
    }
  }

  // ================================================================ points, by their logarithms
  pure def ofLog(g: int, k: int): El = if (g == 1) el1(k) else el2(k)
  action gEnd(g: int, d: int, op: str, a: List[int], n: int, f: str, k: int): bool =
    putG(g, d, { ...EV0, op: op, a: a, x: [n], f: f }, ofLog(g, k))
  /// shorter in the second group
  pure def len(g: int, n: int, base: int): int = (base + n % base) / g
  action gChain(g: int, d: int, i: int, j: int, n: int): bool = {
    val q = reg(g)[i].k
    val p = reg(g)[j].k
    val m = len(g, n, 5000)
    all {
      q >= 0, p >= 0,
      any {
        gEnd(g, d, "c_add", [i, j], m, "", aff(1, p, m, q)),
        gEnd(g, d, "c_radd", [i, j], m, "", aff(1, p, m, q)),
        gEnd(g, d, "c_sub", [i, j], m, "", aff(1, -p, m, q)),
        gEnd(g, d, "c_dad", [i, j], m, "", aff(2, p, m, q)),                                      // (Q + Q) + P
        gEnd(g, d, "c_pds", [i, j], m, "", aff(-2, p, m, q)),                                     // P - (Q + Q)
        gEnd(g, d, "c_nds", [i, j], m, "", aff(-2, -p, m, q)),                                    // -(Q + Q) - P
        gEnd(g, d, "c_fib", [i, j], m, "", fib(q, p, m)),
        gEnd(g, d, "c_fibs", [i, j], m, "", fibs(q, p, m)),
      },
    }
  }
  action gMulChain(g: int, d: int, i: int, j: int, s: int, n: int): bool = {
    val q = reg(g)[i].k
    val p = reg(g)[j].k
    val m = len(g, n, 60)
    all {
      q >= 0, p >= 0,
      gEnd(g, d, "c_mul", [i, j, s], m, "", aff(fr[s], p, m, q)),                                  // Q s + P
    }
  }
  action gNormChain(g: int, d: int, i: int, j: int, n: int): bool = all {
    reg(g)[i].k >= 0, reg(g)[j].k >= 0,
    gEnd(g, d, "c_norm", [i, j], len(g, n, 1000), "", aff(1, reg(g)[j].k, len(g, n, 1000), reg(g)[i].k)),
  }
  /// through a wire format at each step
  action gSerChain(g: int, d: int, i: int, j: int, f: str, n: int): bool = {
    val m = if (g == 1) 300 + n % 300 else 30 + n % 30
    all { reg(g)[i].k >= 0, reg(g)[j].k >= 0, gEnd(g, d, "c_ser", [i, j], m, f, aff(1, reg(g)[j].k, m, reg(g)[i].k)) }
  }
  action frSerChain(d: int, i: int, j: int, k: int, f: str, n: int): bool =
    frEnd(d, "c_ser", [i, j, k], 2000 + n % 3000, f, aff(fr[j], fr[k], 2000 + n % 3000, fr[i]))

  // ================================================================ target group, by logarithms
  action gtEnd(d: int, op: str, a: List[int], n: int, f: str, k: int): bool =
    putGt(d, { ...EV0, op: op, a: a, x: [n], f: f }, { k: k, e: ek(k) })
  action gtChain(d: int, i: int, j: int, s: int, n: int): bool = {
    val t = gt[i].k
    val u = gt[j].k
    val m = 1500 + n % 2000
    all {
      t >= 0, u >= 0,
      any {
        gtEnd(d, "c_mul", [i, j], m, "", aff(1, u, m, t)),
        gtEnd(d, "c_sqm", [i, j], m, "", aff(2, u, m, t)),
        gtEnd(d, "c_inv", [i, j], m, "", aff(-1, u, m, t)),                                        // inverse(t) u
        gtEnd(d, "c_isq", [i, j], m, "", aff(-2, u, m, t)),                                        // inverse(t t) u
        gtEnd(d, "c_fib", [i, j], m, "", fib(t, u, m)),
        gtEnd(d, "c_pow", [i, j, s], 20 + n % 20, "", aff(fr[s], u, 20 + n % 20, t)),                  // t^s u
      },
    }
  }
  action gtSerChain(d: int, i: int, j: int, f: str, n: int): bool = all {
    gt[i].k >= 0, gt[j].k >= 0,
    gtEnd(d, "c_ser", [i, j], 15 + n % 20, f, aff(1, gt[j].k, 15 + n % 20, gt[i].k)),
  }
  /// the product of e(P + t P', Q + t Q') for t < n
  pure def pairSum(p: int, q: int, p2: int, q2: int, n: int): int =
    (n * p * q + (p * q2 + q * p2) * (n * (n - 1) / 2) + p2 * q2 * ((n - 1) * n * (2 * n - 1) / 6)) % R
  action pairChain(d: int, i: int, j: int, k: int, l: int, n: int): bool = {
    val m = 10 + n % 20
    all {
      g1[i].k >= 0, g1[j].k >= 0, g2[k].k >= 0, g2[l].k >= 0,
      gtEnd(d, "c_pair", [i, k, j, l], m, "", pairSum(g1[i].k, g2[k].k, g1[j].k, g2[l].k, m)),
    }
  }

  // ================================================================ laws on many operands
  /// the law holds for the first n operands of the stream number `seed`
  action laws(op: str, a: List[int], seed: int, n: int): bool =
    answer({ ...EV0, s: "law", op: op, a: a, x: [seed % 2^62, n], v: [1] })

  // ================================================================ profiles
  action fillFr(s: int, kind: int, n: int, rnd: int): bool = frSet(s, scal(kind, n, rnd))
  /// C01, C03
  action stepFr = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet k = REG.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      fillFr(d, kind, n, rnd), frChain(d, i, j, k, n), frChain(d, i, j, k, n), frDecodeChain(d, i, j, n),
      laws("ring", [], n, 20000), laws("ring", [], n, 20000), laws("frpow", [], n, 400), laws("frinv", [], n, 3000), laws("frrace", [i, j, k], n, 4000),
    }
  }
  /// C02
  action stepDec = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any { fillFr(d, kind, n, rnd), frDecodeChain(d, i, j, n), frDecodeChain(d, i, j, n), laws("decode", [], n, 1000), laws("badstr", [], n, 5000) }
  }
  action fillG(g: int, d: int, kind: int, n: int, rnd: int): bool = gNew(g, d, kind, n, rnd)
  /// C04, C05
  action stepG(g: int): bool = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      fillG(g, d, kind, n, rnd), gChain(g, d, i, j, n), gChain(g, d, i, j, n), gChain(g, d, i, j, n),
      laws(if (g == 1) "group1" else "group2", [i, j], n, 3000 / g),
    }
  }
  action stepG1c = stepG(1)
  action stepG2c = stepG(2)
  /// C06
  action stepMulc = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet s = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      fillFr(s, kind, n, rnd), fillG(g, d, kind, n, rnd), gMulChain(g, d, i, j, s, n), laws(if (g == 1) "mul1" else "mul2", [i], n, 200 / g),
      laws(if (g == 1) "mul1" else "mul2", [i], n, 200 / g),
    }
  }
  /// C07, C08
  action stepRace = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any { fillG(g, d, kind, n, rnd), gNormChain(g, d, i, j, n), laws(if (g == 1) "race1" else "race2", [i, j], n, 2000 / g) }
  }
  /// C09, C10
  action stepPairc = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet k = REG.oneOf() nondet l = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any { fillG(g, d, kind, n, rnd), pairChain(d, i, j, k, l, n), laws("pairing", [i, j], n, 15) }
  }
  /// C11
  action stepGtc = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet s = REG.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      fillFr(s, kind, n, rnd), gtPut(d, scal(kind, n, rnd), "bin"), gtChain(d, i, j, s, n), gtChain(d, i, j, s, n),
      laws("gtpow", [i], n, 30), laws("gtgroup", [i, j], n, 600),
    }
  }
  /// C12, C13
  action stepSerc = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet k = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet f = FORMATS.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      fillFr(d, kind, n, rnd), fillG(g, d, kind, n, rnd), gtPut(d, scal(kind, n, rnd), "bin"),
      frSerChain(d, i, j, k, f, n), gSerChain(g, d, i, j, f, n), gtSerChain(d, i, j, f, n),
    }
  }
  /// C14: altered words of genuine values are refused, other representations of them are accepted
  action stepForge = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      fillG(g, d, kind, n, rnd), gtPut(d, scal(kind, n, rnd), "bin"),
      laws("forgefr", [], n, 20000), laws("forge1", [i], n, 20000), laws("forge2", [i], n, 10000), laws("forgegt", [i], n, 30),
      laws("lift1", [i], n, 100), laws("lift2", [i], n, 20),
    }
  }
  /// C19: sessions with many keys
  action stepProto = {
    nondet i = REG.oneOf() nondet d = REG.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any { fillFr(d, kind, n, rnd), laws("agree", [i], n, 8), laws("sign", [i], n, 4) }
  }
  action stepChains = any { stepFr, stepDec, stepG(1), stepG(2), stepMulc, stepRace, stepPairc, stepGtc, stepSerc, stepForge, stepProto }

  // ================================================================ closed forms against single steps
  pure val XS: List[int] = [0, 1, 2, R - 1, R - 2, 5, W % R, 123456789123456789]
  pure def times(n: int, x: int, f: int => int): int = range(0, n).foldl(x, (v, i) => f(v))
  run closedTest = all {
    assert(0.to(7).forall(x => 0.to(7).forall(b => 0.to(7).forall(n => {
      val u = XS[x]
      val v = XS[b]
      val w = XS[(x + b) % 8]
      and {
        aff(v, w, n, u) == times(n, u, t => (t * v + w) % R),
        aff(-v, -w, n, u) == times(n, u, t => ((-(t * v) - w) % R + R) % R),
        fib(u, v, n) == range(0, n).foldl((u, v), (s, i) => (s._2, (s._1 + s._2) % R))._1,
        fibs(u, v, n) == range(0, n).foldl((u, v), (s, i) => (s._2, (s._1 - s._2 + R) % R))._1,
        mobius(u, w, n) == times(n, u, t => if (t == -1) 0 else if ((t + w) % R == 0) -1 else invMod((t + w) % R, R)),
        powChain(u, v, n) == times(n, u, t => powMod(t, v, R)),
        pairSum(u, v, w, v + 1, n) == range(0, n).foldl(0, (s, i) => (s + (u + i * w) * (v + i * (v + 1))) % R),
      }
    })))),
    init,
  }
}
