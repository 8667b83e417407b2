// ate.qnt -- the pairing as the implementation computes it, step by step (Quint).
//
// bn.qnt defines the pairing by affine lines, schoolbook products and one exponentiation.  This
// machine computes it the way src/fields and src/groups do: Karatsuba towers, complex squaring,
// homogeneous doubling and mixed addition without inversions, sparse line products, Frobenius
// maps with coefficients, cyclotomic squaring and the addition chain of the final exponentiation.
// One transition is one Miller step or one operation of the chain; the invariants compare every
// step with the definition.  ateToy (p = 103) is explored with TLC for all pairs of points,
// ateMid (p = 100003, additions inside the loop) and ateReal are executed with quint run.
module ate {
  const FIELD: int
  const ORDER: int
  const PARAM: int
  const BB: int
  const NONRES: (int, int)
  const WIDTH: int
  const G1C: ((int, int), (int, int))
  const G2C: ((int, int), (int, int))
  const KS1: Set[int]       // logarithms of first arguments
  const KS2: Set[int]       // logarithms of second arguments
  const BASE: List[(int, int)]   // pairing of the generators
import bn(P = FIELD, R = ORDER, U = PARAM, BCOEF = BB, XI = NONRES, NBITS = WIDTH, GEN1 = G1C, GEN2 = G2C).* from "./bn"

  // ---------------------------------------------------------------- tower, the code's formulas
  pure def nr(a: F2): F2 = f2mul(a, XI)
  pure def kmul2(a: F2, b: F2): F2 = {
    val aa = a._1 * b._1 % P
    val bb = a._2 * b._2 % P
    ((bb * (P - 1) + aa) % P, ((a._1 + a._2) * ((b._1 + b._2) % P) + 2 * P - aa - bb) % P)
  }
  pure def ksq2(a: F2): F2 = {
    val ab = a._1 * a._2 % P
    (((a._2 * (P - 1) + a._1) % P * ((a._1 + a._2) % P) + P - ab + (P - ab * (P - 1) % P)) % P, 2 * ab % P)
  }
  type F6 = (F2, F2, F2)
  pure def add6(a: F6, b: F6): F6 = (f2add(a._1, b._1), f2add(a._2, b._2), f2add(a._3, b._3))
  pure def sub6(a: F6, b: F6): F6 = (f2sub(a._1, b._1), f2sub(a._2, b._2), f2sub(a._3, b._3))
  pure def neg6(a: F6): F6 = (f2neg(a._1), f2neg(a._2), f2neg(a._3))
  pure def nr6(a: F6): F6 = (nr(a._3), a._1, a._2)
  pure def scale6(a: F6, k: F2): F6 = (kmul2(a._1, k), kmul2(a._2, k), kmul2(a._3, k))
  pure def mul6(x: F6, y: F6): F6 = {
    val aa = kmul2(x._1, y._1)
    val bb = kmul2(x._2, y._2)
    val cc = kmul2(x._3, y._3)
    (f2add(nr(f2sub(f2sub(kmul2(f2add(x._2, x._3), f2add(y._2, y._3)), bb), cc)), aa),
     f2add(f2sub(f2sub(kmul2(f2add(x._1, x._2), f2add(y._1, y._2)), aa), bb), nr(cc)),
     f2sub(f2add(f2sub(kmul2(f2add(x._1, x._3), f2add(y._1, y._3)), aa), bb), cc))
  }
  pure def sq6(a: F6): F6 = {
    val s0 = ksq2(a._1)
    val ab = kmul2(a._1, a._2)
    val s1 = f2add(ab, ab)
    val s2 = ksq2(f2add(f2sub(a._1, a._2), a._3))
    val bc = kmul2(a._2, a._3)
    val s3 = f2add(bc, bc)
    val s4 = ksq2(a._3)
    (f2add(s0, nr(s3)), f2add(s1, nr(s4)), f2sub(f2sub(f2add(f2add(s1, s2), s3), s0), s4))
  }
  pure def inv6(a: F6): F6 = {
    val c0 = f2sub(ksq2(a._1), kmul2(a._2, nr(a._3)))
    val c1 = f2sub(nr(ksq2(a._3)), kmul2(a._1, a._2))
    val c2 = f2sub(ksq2(a._2), kmul2(a._1, a._3))
    val t = f2inv(f2add(nr(f2add(kmul2(a._3, c1), kmul2(a._2, c2))), kmul2(a._1, c0)))
    (kmul2(t, c0), kmul2(t, c1), kmul2(t, c2))
  }
  // elements of Fp12 stay in the layout of bn.qnt; lo and hi are the two halves of the tower
  pure def lo(e: F12): F6 = (e[0], e[2], e[4])
  pure def hi(e: F12): F6 = (e[1], e[3], e[5])
  pure def join(a: F6, b: F6): F12 = [a._1, b._1, a._2, b._2, a._3, b._3]
  pure def tmul(x: F12, y: F12): F12 = {
    val aa = mul6(lo(x), lo(y))
    val bb = mul6(hi(x), hi(y))
    join(add6(nr6(bb), aa), sub6(sub6(mul6(add6(lo(x), hi(x)), add6(lo(y), hi(y))), aa), bb))
  }
  pure def tsq(x: F12): F12 = {
    val ab = mul6(lo(x), hi(x))
    join(sub6(sub6(mul6(add6(nr6(hi(x)), lo(x)), add6(lo(x), hi(x))), ab), nr6(ab)), add6(ab, ab))
  }
  pure def tinv(x: F12): F12 = {
    val t = inv6(sub6(sq6(lo(x)), nr6(sq6(hi(x)))))
    join(mul6(lo(x), t), neg6(mul6(hi(x), t)))
  }
  pure def conj(x: F12): F12 = join(lo(x), neg6(hi(x)))
  /// Frobenius coefficients XI^((p^n - 1) / 6), / 3, and twice that
  pure def fcoef(n: int, d: int): F2 = f2pow(XI, bitsOf((P^n - 1) / 6 * d, 3 * NBITS))
  pure val FC: List[List[F2]] = range(0, 4).foldl([], (l, n) =>
    l.append(range(0, 5).foldl([], (k, d) => k.append(if (d == 3) f2one else fcoef(n, d)))))
  pure def frob2(a: F2, n: int): F2 = if (n % 2 == 0) a else (a._1, a._2 * (P - 1) % P)
  pure def frob6(a: F6, n: int): F6 = (frob2(a._1, n), kmul2(frob2(a._2, n), FC[n][2]), kmul2(frob2(a._3, n), FC[n][4]))
  pure def frob(x: F12, n: int): F12 = join(frob6(lo(x), n), scale6(frob6(hi(x), n), FC[n][1]))
  /// product with ell_0 + ell_vw w^3 + ell_vv w^4
  pure def sparse(x: F12, l0: F2, lvw: F2, lvv: F2): F12 = {
    val z0 = x[0] val z1 = x[2] val z2 = x[4] val z3 = x[1] val z4 = x[3] val z5 = x[5]
    val d0 = kmul2(z0, l0)
    val d2 = kmul2(z2, lvv)
    val d4 = kmul2(z4, lvw)
    val a1 = kmul2(z1, lvv)
    val a2 = kmul2(z5, lvw)
    val a3 = kmul2(z1, l0)
    val a4 = kmul2(z3, lvw)
    val a5 = kmul2(z3, l0)
    val a6 = kmul2(z5, lvv)
    val s1 = f2add(f2add(f2add(a1, a2), f2add(a3, a4)), f2add(a5, a6))
    val n0 = f2add(nr(f2add(a1, d4)), d0)
    val n1 = f2add(nr(f2add(a2, d2)), a3)
    val n2 = f2add(f2sub(f2sub(kmul2(f2add(z0, z2), f2add(l0, lvv)), d0), d2), a4)
    val n3 = f2add(nr(f2sub(f2sub(kmul2(f2add(z2, z4), f2add(lvv, lvw)), d2), d4)), a5)
    val n4 = f2add(nr(a6), f2sub(f2sub(kmul2(f2add(z0, z4), f2add(l0, lvw)), d0), d4))
    val n5 = f2sub(kmul2(f2add(f2add(z1, z3), z5), f2add(f2add(l0, lvv), lvw)), s1)
    [n0, n3, n1, n4, n2, n5]
  }
  pure def half(t: (F2, F2), tmp: F2): (F2, F2) =
    (f2sub(f2sub(kmul2(f2add(t._1, t._2), f2add(nr(t._2), t._1)), tmp), nr(tmp)), f2add(tmp, tmp))
  pure def up(t: F2, z: F2): F2 = { val s = f2sub(t, z) f2add(f2add(s, s), t) }
  pure def down(t: F2, z: F2): F2 = { val s = f2add(t, z) f2add(f2add(s, s), t) }
  pure def csq(x: F12): F12 = {
    val z0 = x[0] val z4 = x[2] val z3 = x[4] val z2 = x[1] val z1 = x[3] val z5 = x[5]
    val p = half((z0, z1), kmul2(z0, z1))
    val q = half((z2, z3), kmul2(z2, z3))
    val r = half((z4, z5), kmul2(z4, z5))
    [up(p._1, z0), down(nr(r._2), z2), up(q._1, z4), down(p._2, z1), up(r._1, z3), down(q._2, z5)]
  }
  pure def cpow(x: F12): F12 = bitsOf(U, NBITS).foldl({ a: f12one, on: false }, (s, b) => {
    val a = if (s.on) csq(s.a) else s.a
    if (b == 1) { a: tmul(x, a), on: true } else { a: a, on: s.on }
  }).a

  // ---------------------------------------------------------------- Miller steps
  type Hom = { x: F2, y: F2, z: F2 }
  type Ell = { l0: F2, vw: F2, vv: F2 }
  pure val HALF: int = (P + 1) / 2
  pure def dblStep(r: Hom): (Hom, Ell) = {
    val a = f2scale(kmul2(r.x, r.y), HALF)
    val b = ksq2(r.y)
    val c = ksq2(r.z)
    val d = f2add(f2add(c, c), c)
    val e = kmul2(B2, d)
    val f = f2add(f2add(e, e), e)
    val g = f2scale(f2add(b, f), HALF)
    val h = f2sub(ksq2(f2add(r.y, r.z)), f2add(b, c))
    val i = f2sub(e, b)
    val j = ksq2(r.x)
    val e2 = ksq2(e)
    ({ x: kmul2(a, f2sub(b, f)), y: f2sub(ksq2(g), f2add(f2add(e2, e2), e2)), z: kmul2(b, h) },
     { l0: nr(i), vw: f2neg(h), vv: f2add(f2add(j, j), j) })
  }
  pure def addStep(r: Hom, q: Pt): (Hom, Ell) = {
    val d = f2sub(r.x, kmul2(r.z, q.x))
    val e = f2sub(r.y, kmul2(r.z, q.y))
    val f = ksq2(d)
    val g = ksq2(e)
    val h = kmul2(d, f)
    val i = kmul2(r.x, f)
    val j = f2sub(f2add(kmul2(r.z, g), h), f2add(i, i))
    ({ x: kmul2(d, j), y: f2sub(kmul2(e, f2sub(i, j)), kmul2(h, r.y)), z: kmul2(r.z, h) },
     { l0: nr(f2sub(kmul2(e, q.x), kmul2(d, q.y))), vw: d, vv: f2neg(e) })
  }
  pure def evalEll(f: F12, l: Ell, p: Pt): F12 = sparse(f, l.l0, f2scale(l.vw, p.y._1), f2scale(l.vv, p.x._1))
  pure def frobPt(q: Pt): Pt = pt(kmul2(GX, frob2(q.x, 1)), kmul2(GY, frob2(q.y, 1)))

  // ---------------------------------------------------------------- the machine
  /// loop bits after the leading one, then the two Frobenius additions
  pure val BITS: List[int] = {
    val s = LOOPBITS.foldl({ l: [], on: false }, (s, b) => if (s.on) { l: s.l.append(b), on: true } else { l: [], on: b == 1 })
    s.l
  }
  /// the chain: (destination, operation, operands); register 0 is the Miller value, 22 the result
  type Op = { op: str, x: int, y: int }
  pure def op(o: str, x: int, y: int): Op = { op: o, x: x, y: y }
  pure val CHAIN: List[Op] = [
    op("inv", 0, 0), op("conj", 0, 0), op("mul", 2, 1), op("f2", 3, 0), op("mul", 4, 3),            // 5: easy part
    op("zneg", 5, 0), op("csq", 6, 0), op("csq", 7, 0), op("mul", 8, 7),                           // 6 a, 7 b, 8 c, 9 d
    op("zneg", 9, 0), op("csq", 10, 0), op("zneg", 11, 0), op("conj", 9, 0), op("conj", 12, 0),    // 10 e, 11 f, 12 g, 13 h, 14 i
    op("mul", 14, 10), op("mul", 15, 13), op("mul", 16, 7), op("mul", 16, 10), op("mul", 5, 18),   // 15 j, 16 k, 17 l, 18 m, 19 n
    op("f1", 17, 0), op("mul", 20, 19), op("f2", 16, 0), op("mul", 22, 21),                        // 20 o, 21 p, 22 q, 23 r
    op("conj", 5, 0), op("mul", 24, 17), op("f3", 25, 0), op("mul", 26, 23)]                       // 24 s, 25 t, 26 u, 27 v
  pure def exec(o: Op, r: List[F12]): F12 =
    if (o.op == "mul") tmul(r[o.x], r[o.y]) else if (o.op == "inv") tinv(r[o.x]) else if (o.op == "conj") conj(r[o.x])
    else if (o.op == "csq") csq(r[o.x]) else if (o.op == "zneg") conj(cpow(r[o.x]))
    else frob(r[o.x], if (o.op == "f1") 1 else if (o.op == "f2") 2 else 3)
  type M = { p: Pt, q: Pt, k: int, l: int, i: int, f: F12, r: Hom, t: Pt, log: int, ell: Ell, ref: F12, ok: bool, regs: List[F12] }
  var m: M
  pure val NOELL: Ell = { l0: f2zero, vw: f2zero, vv: f2zero }
  action init = {
    nondet k = KS1.oneOf() nondet l = KS2.oneOf()
    val p = if (k == 0) INF else k1(k)
    val q = if (l == 0) INF else k2(l)
    m' = { p: p, q: q, k: k, l: l, i: if (p.inf or q.inf) 1000 else 0, f: f12one, r: { x: q.x, y: q.y, z: f2one }, t: q, log: l, ell: NOELL,
           ref: f12one, ok: true, regs: [] }
  }
  /// the code's line is a multiple by Fp2 of w^3 times the line of the definition
  pure def sameLine(l: Ell, ref: F12, p: Pt): bool = {
    val a = [l.l0, f2scale(l.vw, p.y._1), f2scale(l.vv, p.x._1)]
    val b = [f2mul(XI, ref[3]), ref[0], ref[1]]
    and {
      f2mul(a[0], b[1]) == f2mul(a[1], b[0]), f2mul(a[1], b[2]) == f2mul(a[2], b[1]), f2mul(a[0], b[2]) == f2mul(a[2], b[0]),
      a[0] != f2zero or a[1] != f2zero or a[2] != f2zero,
    }
  }
  pure def dense(l: Ell, p: Pt): F12 = [l.l0, f2zero, f2zero, f2scale(l.vw, p.y._1), f2scale(l.vv, p.x._1), f2zero]
  pure def denotes(r: Hom, t: Pt): bool =
    r.z != f2zero and not(t.inf) and f2mul(t.x, r.z) == r.x and f2mul(t.y, r.z) == r.y
  pure def addTo(s: M, q: Pt): M = {
    val a = addStep(s.r, q)
    val ref = line(s.t, q, s.p)
    val f = evalEll(s.f, a._2, s.p)
    { ...s, f: f, r: a._1, t: padd(s.t, q), ell: a._2,
      ok: s.ok and s.t.x != q.x and sameLine(a._2, ref, s.p) and f == f12mul(s.f, dense(a._2, s.p)) }
  }
  pure def millerStep(s: M): M =
    if (s.i < length(BITS)) {
      val d = dblStep(s.r)
      val ref = line(s.t, s.t, s.p)
      val sq = tsq(s.f)
      val f = evalEll(sq, d._2, s.p)
      val s1 = { ...s, f: f, r: d._1, t: padd(s.t, s.t), ell: d._2, log: 2 * s.log % R,
                 ok: s.ok and sameLine(d._2, ref, s.p) and sq == f12mul(s.f, s.f) and f == f12mul(sq, dense(d._2, s.p)) }
      val s2 = if (BITS[s.i] == 1) { ...addTo(s1, s.q), log: (s1.log + s.l) % R } else s1
      { ...s2, i: s.i + 1 }
    } else {
      val q1 = frobPt(s.q)
      val s1 = if (s.i == length(BITS)) addTo(s, q1) else addTo(s, pneg(frobPt(q1)))
      { ...s1, i: s.i + 1, ok: s1.ok and q1 == twistFrob(s.q), regs: if (s.i == length(BITS)) [] else [s1.f] }
    }
  pure def chainStep(s: M): M = {
    val n = length(s.regs)
    val o = CHAIN[n - 1]
    val v = exec(o, s.regs)
    { ...s, regs: s.regs.append(v), i: s.i + 1,
      ok: s.ok and (if (o.op == "mul") v == f12mul(s.regs[o.x], s.regs[o.y])
                    else if (o.op == "csq") v == f12mul(s.regs[o.x], s.regs[o.x])
                    else if (o.op == "inv" or (o.op == "conj" and n > 6)) f12mul(v, s.regs[o.x]) == f12one
                    else if (o.op == "zneg") f12mul(v, f12pow(s.regs[o.x], bitsOf(U, NBITS))) == f12one
                    else if (o.op == "f1") v == f12pow(s.regs[o.x], bitsOf(P, NBITS)) else true) }
  }
  action step =
    if (m.i < length(BITS) + 2) m' = millerStep(m)
    else if (m.i < 1000 and length(m.regs) <= length(CHAIN)) m' = chainStep(m)
    else m' = m
  val finished: bool = m.i >= 1000 or length(m.regs) == length(CHAIN) + 1
  val result: F12 = if (m.i >= 1000) f12one else m.regs[length(CHAIN)]

  // ---------------------------------------------------------------- invariants
  /// every operation gives what the definition of its result says; additions never meet T = +-Q
  val stepsAgree: bool = m.ok
  /// the projective point is the multiple of Q that the loop has reached
  val pointAgrees: bool = m.i >= 1000 or m.i > length(BITS) or (denotes(m.r, m.t) and m.t == k2(m.log))
  /// the loop ends at (6u + 2) Q
  val loopEnds: bool = m.i == length(BITS) implies m.log == (6 * U + 2) * m.l % R
  /// bilinear and non-degenerate, with pairing(P1, P2) as the base
  val bilinear: bool = finished implies and {
    result == f12pow(BASE, bitsOf(m.k * m.l % R, NBITS)),
    (result == f12one) == (m.k == 0 or m.l == 0),
  }
  val inv: bool = stepsAgree and pointAgrees and loopEnds and bilinear
  /// the value is the one of the definition, one exponentiation by SCOF * (p^12 - 1) / R
  val isReference: bool = finished implies (if (m.i >= 1000) m.k == 0 or m.l == 0 else result == pairingRef(m.p, m.q))
  val invReal: bool = inv and isReference
}
module ateToy {
  import ate(FIELD = 103, ORDER = 97, PARAM = 1, BB = 5, NONRES = (2, 1), WIDTH = 7, G1C = ((2, 0), (61, 0)), G2C = ((86, 29), (88, 47)),
             KS1 = Set(0, 1, 2, 3, 47, 48, 95, 96), KS2 = Set(0, 1, 5, 48, 96),
             BASE = [(7, 8), (10, 77), (26, 25), (17, 93), (31, 44), (20, 47)]).*
}
/// every pair of points
module ateToyAll {
  import ate(FIELD = 103, ORDER = 97, PARAM = 1, BB = 5, NONRES = (2, 1), WIDTH = 7, G1C = ((2, 0), (61, 0)), G2C = ((86, 29), (88, 47)),
             KS1 = 0.to(96), KS2 = 0.to(96),
             BASE = [(7, 8), (10, 77), (26, 25), (17, 93), (31, 44), (20, 47)]).*
}
module ateMid {
  import ate(FIELD = 100003, ORDER = 99709, PARAM = 7, BB = 29, NONRES = (6, 1), WIDTH = 17, G1C = ((3, 0), (17170, 0)),
             G2C = ((82139, 61013), (51970, 34671)), KS1 = 0.to(99708), KS2 = 0.to(99708), BASE = [(45691, 91198), (95120, 74870), (12093, 45840), (22265, 98762), (50598, 58655), (60616, 98373)]).*
}
module ateReal {
  import ate(
    FIELD = 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    ORDER = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    PARAM = 4965661367192848881, BB = 3, NONRES = (9, 1), WIDTH = 254,
    G1C = ((1, 0), (2, 0)),
    G2C = ((10857046999023057135944570762232829481370756359578518086990519993285655852781,
            11559732032986387107991004021392285783925812861821192530917403151452391805634),
           (8495653923123431417604973247489272438418190587263600148770280649306958101930,
            4082367875863433681332203403145435568316851327593401208105741076214120093531)),
    KS1 = 0.to(21888242871839275222246405745257275088548364400416034343698204186575808495616),
    KS2 = 0.to(21888242871839275222246405745257275088548364400416034343698204186575808495616),
    BASE = [
    (17264119758069723980713015158403419364912226240334615592005620718956030922389,
     1300711225518851207585954685848229181392358478699795190245709208408267917898),
    (4233474252585134102088637248223601499779641130562251948384759786370563844606,
     9420544134055737381096389798327244442442230840902787283326002357297404128074),
    (8894217292938489450175280157304813535227569267786222825147475294561798790624,
     1829859855596098509359522796979920150769875799037311140071969971193843357227),
    (13457906610892676317612909831857663099224588803620954529514857102808143524905,
     5122435115068592725432309312491733755581898052459744089947319066829791570839),
    (4968700049505451466697923764727215585075098085662966862137174841375779106779,
     12814315002058128940449527172080950701976819591738376253772993495204862218736),
    (8891987925005301465158626530377582234132838601606565363865129986128301774627,
     440796048150724096437130979851431985500142692666486515369083499585648077975)]
  ).*
}
