// laws.qnt -- the laws that chains.qnt has the implementation evaluate on streams of operands (Quint).
//
// A step `law` of chains.qnt obliges the implementation to find an equation true for each of N
// operands.  Here the equations are written over the mathematical values, and tested on a small BN
// curve (p = 103, r = 97) for all values of one operand against a spread of the others, together
// with the negative parts (an altered element is no element, a wrong key gives another value).
// What the harness evaluates through the public API is the same conjunction, law by law.
module laws {
  import bn(P = 103, R = 97, U = 1, BCOEF = 5, XI = (2, 1), NBITS = 7,
            GEN1 = ((2, 0), (61, 0)), GEN2 = ((86, 29), (88, 47))).* from "./bn"

  // ---------------------------------------------------------------- scalars: "ring", "frinv", "frpow"
  pure def add(x: int, y: int): int = (x + y) % R
  pure def sub(x: int, y: int): int = (x - y + R) % R
  pure def neg(x: int): int = (R - x) % R
  pure def mul(x: int, y: int): int = x * y % R
  pure def ring(x: int, y: int, z: int): bool = {
    val p = mul(x, y)
    and {
      add(x, y) == add(y, x), p == mul(y, x), add(add(x, y), z) == add(x, add(y, z)), mul(p, z) == mul(x, mul(y, z)),
      mul(add(x, y), z) == add(mul(x, z), mul(y, z)), sub(x, y) == neg(sub(y, x)), add(sub(x, y), y) == x,
      mul(sub(x, y), z) == sub(mul(x, z), mul(y, z)), add(x, neg(x)) == 0, (x == y) == (sub(x, y) == 0),
      mul(x, add(y, 1)) == add(p, x), mul(x, 1) == x, add(x, 0) == x, neg(neg(x)) == x, mul(neg(x), y) == neg(p),
      add(x, x) == mul(x, 2), sub(mul(x, x), mul(y, y)) == mul(sub(x, y), add(x, y)),
    }
  }
  pure def frinv(x: int): bool = x == 0 or {
    val y = invMod(x, R)
    and { mul(x, y) == 1, invMod(y, R) == x, invMod(neg(x), R) == neg(y) }
  }
  pure def frpow(x: int, e: int): bool = bitsOf(e, 7).foldl(1, (a, b) => { val d = mul(a, a) if (b == 1) mul(d, x) else d }) == (if (e == 0) 1 else x^e % R)
  // ---------------------------------------------------------------- "decode": concatenation is multiplication by the radix
  pure def decode(h: int, l: int): bool = and {
    (h * 2^8 + l) % R == add(mul(h % R, 2^8 % R), l % R),
    (h * 1000 + l) % R == add(mul(h % R, 1000 % R), l % R),
  }
  // ---------------------------------------------------------------- points: "group1", "group2", "race1", "race2", "mul1", "mul2"
  pure def minus(p: Pt, q: Pt): Pt = padd(p, pneg(q))
  pure def group(x: Pt, y: Pt, z: Pt): bool = and {
    padd(x, y) == padd(y, x), padd(padd(x, y), z) == padd(x, padd(y, z)), padd(x, INF) == x, minus(x, x) == INF,
    minus(x, y) == pneg(minus(y, x)), padd(minus(x, y), y) == x, pneg(padd(x, y)) == padd(pneg(x), pneg(y)), pneg(pneg(x)) == x,
    (x == y) == (minus(x, y) == INF), (x == pneg(y)) == (padd(x, y) == INF), (x == padd(x, y)) == (y == INF),
    padd(padd(x, x), padd(y, y)) == padd(padd(x, y), padd(x, y)),
  }
  /// five ways to add p
  pure def race(y: Pt, p: Pt): bool = {
    val s = padd(y, p)
    and {
      padd(p, y) == s, minus(y, pneg(p)) == s, minus(padd(padd(y, y), p), y) == s, pneg(minus(pneg(y), p)) == s,
      padd(minus(padd(minus(y, padd(p, p)), padd(p, padd(p, p))), p), p) == s,
    }
  }
  pure def scalar(p: Pt, k: int): bool =
    pmul(p, bitsOf(k, 7)) == range(0, k).foldl(INF, (a, i) => padd(a, p))
  // ---------------------------------------------------------------- target group: "gtgroup", "gtpow"; "pairing"
  pure val E: F12 = pairingRef(P1, P2)
  pure def ek(k: int): F12 = f12pow(E, bitsOf(k % R, 7))
  pure def gtgroup(x: int, y: int): bool = and {
    f12mul(ek(x), ek(y)) == ek(x + y), f12conj(ek(x)) == ek(neg(x % R)), f12pow(ek(x), bitsOf(y % R, 7)) == ek(x * y),
  }
  pure def bilinear(x: int, y: int): bool = and {
    pairingRef(k1(x), k2(y)) == ek(x * y),
    f12mul(pairingRef(pneg(k1(x)), k2(y)), ek(x * y)) == f12one,
    f12mul(pairingRef(k1(x), pneg(k2(y))), ek(x * y)) == f12one,
  }
  // ---------------------------------------------------------------- "sign", "agree"
  pure def sign(x: int, y: int, m: int): bool = {
    val h = k1(m)
    val s = k1(mul(x, m))
    and {
      pairingRef(s, P2) == pairingRef(h, k2(x)),
      pairingRef(padd(s, k1(mul(y, m))), P2) == pairingRef(h, padd(k2(x), k2(y))),
      (pairingRef(k1(mul(y, m)), P2) == pairingRef(h, k2(x))) == (k1(mul(y, m)) == s),
      pairingRef(padd(s, P1), P2) != pairingRef(h, k2(x)),
      f12mul(pairingRef(s, P2), pairingRef(pneg(h), k2(x))) == f12one,
    }
  }
  // ---------------------------------------------------------------- "lift", "forge": Jacobian words
  pure def onJ(b: F2, x: F2, y: F2, z: F2): bool = {
    val z2 = f2mul(z, z)
    f2mul(y, y) == f2add(f2mul(x, f2mul(x, x)), f2mul(b, f2mul(z2, f2mul(z2, z2))))
  }
  pure def lift(p: Pt, b: F2, l: F2): bool = {
    val l2 = f2mul(l, l)
    val li = f2inv(l)
    val x = f2mul(p.x, l2)
    val y = f2mul(p.y, f2mul(l2, l))
    and { onJ(b, x, y, l), f2mul(x, f2mul(li, li)) == p.x, f2mul(y, f2mul(li, f2mul(li, li))) == p.y }
  }
  /// another value of a coordinate is on the curve only for the other roots: of -1 for Y, of order 3 for X, of order 6 for Z
  pure def forge(p: Pt, d: int): bool = {
    val y = ((p.y._1 + d) % P, p.y._2)
    val x = ((p.x._1 + d) % P, p.x._2)
    val z = ((1 + d) % P, 0)
    and {
      onJ(B1, p.x, y, f2one) == (y == p.y or y == f2neg(p.y)),
      onJ(B1, x, p.y, f2one) == (f2mul(x, f2mul(x, x)) == f2mul(p.x, f2mul(p.x, p.x))),
      onJ(B1, p.x, p.y, z) == (f2pow(z, [1, 1, 0]) == f2one),
    }
  }

  // ---------------------------------------------------------------- tests
  pure val SOME: List[int] = [0, 1, 2, 3, 48, 49, 60, 95, 96]
  run scalarLawsTest = all {
    assert(0.to(R - 1).forall(x => 0.to(8).forall(j => 0.to(8).forall(k => ring(x, SOME[j], SOME[k]))))),
    assert(0.to(R - 1).forall(x => frinv(x))), assert(0.to(R - 1).forall(x => 0.to(8).forall(j => frpow(x, SOME[j])))),
    assert(0.to(255).forall(h => 0.to(8).forall(j => decode(h, SOME[j])))),
    init,
  }
  run groupLawsTest = all {
    assert(0.to(R - 1).forall(x => 0.to(8).forall(j => group(k1(x), k1(SOME[j]), k1(SOME[(j + x) % 9]))))),
    assert(0.to(R - 1).forall(x => 0.to(8).forall(j => group(k2(x), k2(SOME[j]), k2(SOME[(j + x) % 9]))))),
    assert(0.to(R - 1).forall(x => 0.to(8).forall(j => race(k1(x), k1(SOME[j])) and race(k2(x), k2(SOME[j]))))),
    assert(0.to(R - 1).forall(x => scalar(P1, x) and scalar(P2, x) and scalar(k1(x), 96) and scalar(k2(x), 77))),
    init,
  }
  run targetLawsTest = all {
    assert(E != f12one), assert(0.to(R - 1).forall(x => 0.to(8).forall(j => gtgroup(x, SOME[j])))),
    assert(0.to(R - 1).forall(x => bilinear(x, (x * x + 3) % R))),
    assert(0.to(8).forall(i => 0.to(8).forall(j => sign(SOME[i], SOME[j], SOME[(i + 2 * j) % 9])))),
    init,
  }
  run decodingLawsTest = all {
    assert(1.to(R - 1).forall(x => 1.to(102).forall(l => lift(k1(x), B1, (l, 0))))),
    assert(1.to(12).forall(x => 1.to(102).forall(l => lift(k2(x), B2, (l, (l * l) % P))))),
    assert(1.to(R - 1).forall(x => 0.to(102).forall(d => forge(k1(x), d)))),
    init,
  }
  var dummy: int
  action init = dummy' = 0
}
