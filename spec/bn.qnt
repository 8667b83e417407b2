// bn.qnt -- reference mathematics of a Barreto-Naehrig pairing group, by definition.
//
// Everything here is the textbook definition: integers modulo a prime, Fp2 = Fp[i]/(i^2+1),
// Fp12 = Fp2[w]/(w^6 - XI) with schoolbook multiplication, the affine chord-and-tangent law,
// and the optimal ate pairing built from affine lines and ONE exponentiation.  None of the
// implementation's tricks (Montgomery form, Jacobian coordinates, Karatsuba, cyclotomic
// squaring, sparse products, the final-exponentiation chain) appears here: those are modelled
// separately (limbs.qnt, bea.qnt, jacobian.qnt, ate.qnt ...) and compared with this module.
//
// The module is parametric.  api.qnt instantiates it with the real 254-bit curve (used for
// conformance of the Rust code) and with toy BN curves (used for exhaustive checking).
module bn {
  const P: int            // base field prime, P % 4 == 3
  const R: int            // prime group order
  const U: int            // BN parameter, positive
  const BCOEF: int        // E : y^2 = x^3 + BCOEF
  const XI: (int, int)    // sextic non-residue in Fp2; E' : y^2 = x^3 + BCOEF / XI
  const NBITS: int        // 2^NBITS > P and 2^NBITS > R
  const GEN1: ((int, int), (int, int))   // generator of G1, embedded in Fp2
  const GEN2: ((int, int), (int, int))   // generator of G2

  type F2 = (int, int)
  type F12 = List[F2]                    // coefficients of w^0 .. w^5
  type Pt = { inf: bool, x: F2, y: F2 }  // affine point over Fp2 (G1 embeds with zero imaginary part)

  // ---------------------------------------------------------------- integers
  /// bits of n, most significant first, len of them
  pure def bitsOf(n: int, len: int): List[int] =
    range(0, len).foldl({ b: [], m: n }, (s, i) => { b: [s.m % 2].concat(s.b), m: s.m / 2 }).b

  /// one step of the extended Euclidean algorithm
  pure def egcdStep(s: (int, int, int, int)): (int, int, int, int) =
    if (s._2 == 0) s
    else { val q = s._1 / s._2 (s._2, s._1 - q * s._2, s._4, s._3 - q * s._4) }

  /// inverse of a modulo m for gcd(a, m) = 1
  pure def invMod(a: int, m: int): int = {
    val e = range(0, 3 * NBITS / 2 + 4).foldl((m, a % m, 0, 1), (s, i) => egcdStep(s))
    (e._3 % m + m) % m
  }

  pure def powMod(a: int, e: int, m: int): int =
    bitsOf(e, NBITS).foldl(1, (acc, b) => if (b == 1) ((acc * acc % m) * a) % m else acc * acc % m)

  // ---------------------------------------------------------------- Fp2
  pure val f2zero: F2 = (0, 0)
  pure val f2one: F2 = (1, 0)
  pure def f2add(a: F2, b: F2): F2 = ((a._1 + b._1) % P, (a._2 + b._2) % P)
  pure def f2sub(a: F2, b: F2): F2 = ((a._1 - b._1 + P) % P, (a._2 - b._2 + P) % P)
  pure def f2neg(a: F2): F2 = ((P - a._1) % P, (P - a._2) % P)
  pure def f2mul(a: F2, b: F2): F2 =
    ((a._1 * b._1 + (P - a._2) * b._2) % P, (a._1 * b._2 + a._2 * b._1) % P)
  pure def f2scale(a: F2, k: int): F2 = (a._1 * k % P, a._2 * k % P)
  pure def f2conj(a: F2): F2 = (a._1, (P - a._2) % P)
  pure def f2inv(a: F2): F2 = {
    val n = invMod((a._1 * a._1 + a._2 * a._2) % P, P)
    (a._1 * n % P, (P - a._2) * n % P)
  }
  pure def f2pow(a: F2, bits: List[int]): F2 =
    bits.foldl(f2one, (acc, b) => if (b == 1) f2mul(f2mul(acc, acc), a) else f2mul(acc, acc))

  // ---------------------------------------------------------------- Fp12
  pure val f12one: F12 = [f2one, f2zero, f2zero, f2zero, f2zero, f2zero]
  pure def f12coef(a: F12, b: F12, k: int): F2 = {
    val s = range(0, 6).foldl((f2zero, f2zero), (acc, i) =>
      if (i <= k) (f2add(acc._1, f2mul(a[i], b[k - i])), acc._2)
      else (acc._1, f2add(acc._2, f2mul(a[i], b[k + 6 - i]))))
    f2add(s._1, f2mul(XI, s._2))
  }
  pure def f12mul(a: F12, b: F12): F12 =
    [f12coef(a, b, 0), f12coef(a, b, 1), f12coef(a, b, 2),
     f12coef(a, b, 3), f12coef(a, b, 4), f12coef(a, b, 5)]
  pure def f12pow(a: F12, bits: List[int]): F12 =
    bits.foldl(f12one, (acc, b) => if (b == 1) f12mul(f12mul(acc, acc), a) else f12mul(acc, acc))
  /// f^(p^6): w -> -w
  pure def f12conj(a: F12): F12 = [a[0], f2neg(a[1]), a[2], f2neg(a[3]), a[4], f2neg(a[5])]

  // ---------------------------------------------------------------- curve points
  pure val INF: Pt = { inf: true, x: f2zero, y: f2one }
  pure def pt(x: F2, y: F2): Pt = { inf: false, x: x, y: y }
  pure val B1: F2 = (BCOEF % P, 0)
  pure val B2: F2 = f2mul(B1, f2inv(XI))
  pure def onCurve(p: Pt, b: F2): bool =
    p.inf or f2mul(p.y, p.y) == f2add(f2mul(p.x, f2mul(p.x, p.x)), b)
  pure def pneg(p: Pt): Pt = if (p.inf) p else pt(p.x, f2neg(p.y))
  /// slope of the tangent (x equal) or chord
  pure def slope(p: Pt, q: Pt): F2 =
    if (p.x == q.x) f2mul(f2scale(f2mul(p.x, p.x), 3), f2inv(f2scale(p.y, 2)))
    else f2mul(f2sub(q.y, p.y), f2inv(f2sub(q.x, p.x)))
  pure def padd(p: Pt, q: Pt): Pt =
    if (p.inf) q else if (q.inf) p
    else if (p.x == q.x and p.y == f2neg(q.y)) INF
    else {
      val l = slope(p, q)
      val x3 = f2sub(f2sub(f2mul(l, l), p.x), q.x)
      pt(x3, f2sub(f2mul(l, f2sub(p.x, x3)), p.y))
    }
  pure def pmul(p: Pt, bits: List[int]): Pt =
    bits.foldl(INF, (acc, b) => if (b == 1) padd(padd(acc, acc), p) else padd(acc, acc))

  pure val P1: Pt = pt(GEN1._1, GEN1._2)
  pure val P2: Pt = pt(GEN2._1, GEN2._2)
  /// windowed tables: entry [j][d] is d * 16^j * generator
  pure def multiples(p: Pt): List[Pt] =
    range(1, 16).foldl([INF], (l, i) => l.append(padd(l[i - 1], p)))
  pure def windows(p: Pt): List[List[Pt]] =
    range(0, (NBITS + 3) / 4).foldl({ l: [], c: p }, (s, i) => {
      val m = multiples(s.c)
      { l: s.l.append(m), c: padd(m[15], s.c) }
    }).l
  pure val TBL1: List[List[Pt]] = windows(P1)
  pure val TBL2: List[List[Pt]] = windows(P2)
  pure def sumTbl(t: List[List[Pt]], k: int): Pt =
    range(0, (NBITS + 3) / 4).foldl({ a: INF, m: k }, (s, i) =>
      { a: padd(s.a, t[i][s.m % 16]), m: s.m / 16 }).a
  /// k times the generator of G1 / G2, 0 <= k < R
  pure def k1(k: int): Pt = sumTbl(TBL1, k)
  pure def k2(k: int): Pt = sumTbl(TBL2, k)

  // ---------------------------------------------------------------- optimal ate pairing
  /// line through (untwisted) t and s evaluated at p in E(Fp); slope lambda is that of the twist
  pure def line(t: Pt, s: Pt, p: Pt): F12 = {
    val l = slope(t, s)
    [p.y, f2neg(f2mul(l, p.x)), f2zero, f2sub(f2mul(l, t.x), t.y), f2zero, f2zero]
  }
  pure val LOOPBITS: List[int] = bitsOf(6 * U + 2, NBITS)
  pure def mstep(s: { f: F12, t: Pt, on: bool }, b: int, p: Pt, q: Pt): { f: F12, t: Pt, on: bool } =
    if (not(s.on)) { f: s.f, t: s.t, on: b == 1 }
    else {
      val f1 = f12mul(f12mul(s.f, s.f), line(s.t, s.t, p))
      val t1 = padd(s.t, s.t)
      if (b == 1) { f: f12mul(f1, line(t1, q, p)), t: padd(t1, q), on: true }
      else { f: f1, t: t1, on: true }
    }
  /// ceil of the bit length of P^2
  pure val GX: F2 = f2pow(XI, bitsOf((P - 1) / 3, NBITS))
  pure val GY: F2 = f2pow(XI, bitsOf((P - 1) / 2, NBITS))
  /// the p-power Frobenius in twist coordinates
  pure def twistFrob(q: Pt): Pt =
    if (q.inf) q else pt(f2mul(f2conj(q.x), GX), f2mul(f2conj(q.y), GY))
  pure def miller(p: Pt, q: Pt): F12 = {
    val s = LOOPBITS.foldl({ f: f12one, t: q, on: false }, (s, b) => mstep(s, b, p, q))
    val q1 = twistFrob(q)
    val q2 = pneg(twistFrob(q1))
    val f1 = f12mul(s.f, line(s.t, q1, p))
    f12mul(f1, line(padd(s.t, q1), q2, p))
  }
  /// The implementation's final power is the Tate power times this fixed unit modulo R
  /// (Fuentes-Castaneda, Knapp, Rodriguez-Henriquez); it is coprime to R.
  pure val SCOF: int = 2 * U * (6 * U * U + 3 * U + 1)
  pure val FEXP: List[int] = bitsOf(((P^12 - 1) / R) * SCOF, 16 * NBITS)
  pure def pairingRef(p: Pt, q: Pt): F12 =
    if (p.inf or q.inf) f12one else f12pow(miller(p, q), FEXP)
}
