// api.qnt -- the public API of rabe-bn as a register machine (Quint).
//
// State: eight registers for each of the four sorts of value a user can hold.  A scalar
// register is a residue modulo R; a point register is the affine point plus its discrete
// logarithm where the specification knows it (-1 otherwise); a target-group register is an
// element of Fp12 plus its logarithm to the base e(P1, P2).  No internal representation is
// part of the state: two registers with the same mathematical value are indistinguishable,
// which is what the properties demand of the implementation.
//
// A transition is one call of the public API, chosen adversarially; `ev` records the call,
// its inputs and everything the implementation is obliged to answer.  `quint run` draws
// behaviours from one of the step actions at the end (one profile per property) and
// tools/check.py replays their `ev` sequences in the real code.
module api {
  import bn(
    P = 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    R = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    U = 4965661367192848881, BCOEF = 3, XI = (9, 1), NBITS = 254,
    GEN1 = ((1, 0), (2, 0)),
    GEN2 = ((10857046999023057135944570762232829481370756359578518086990519993285655852781,
             11559732032986387107991004021392285783925812861821192530917403151452391805634),
            (8495653923123431417604973247489272438418190587263600148770280649306958101930,
             4082367875863433681332203403145435568316851327593401208105741076214120093531))
  ).* from "./bn"

  // ================================================================ encoding of values
  pure val W: int = 2^256
  pure val WINVR: int = invMod(W % R, R)
  pure val WINVP: int = invMod(W % P, P)
  /// the 256-bit word integers by which the implementation represents residues
  pure def montR(v: int): int = v * W % R
  pure def montP(v: int): int = v * W % P
  pure def unP(w: int): int = w * WINVP % P

  // ================================================================ target group by logarithm
  /// e(P1, P2); the run `eIsPairingTest` of api_test.qnt recomputes it with pairingRef
  pure val E: F12 = [
    (17264119758069723980713015158403419364912226240334615592005620718956030922389,
     1300711225518851207585954685848229181392358478699795190245709208408267917898),
    (4233474252585134102088637248223601499779641130562251948384759786370563844606,
     9420544134055737381096389798327244442442230840902787283326002357297404128074),
    (8894217292938489450175280157304813535227569267786222825147475294561798790624,
     1829859855596098509359522796979920150769875799037311140071969971193843357227),
    (13457906610892676317612909831857663099224588803620954529514857102808143524905,
     5122435115068592725432309312491733755581898052459744089947319066829791570839),
    (4968700049505451466697923764727215585075098085662966862137174841375779106779,
     12814315002058128940449527172080950701976819591738376253772993495204862218736),
    (8891987925005301465158626530377582234132838601606565363865129986128301774627,
     440796048150724096437130979851431985500142692666486515369083499585648077975)]
  pure def gtMultiples(g: F12): List[F12] =
    range(1, 16).foldl([f12one], (l, i) => l.append(f12mul(l[i - 1], g)))
  pure val TBLE: List[List[F12]] =
    range(0, 64).foldl({ l: [], c: E }, (s, i) => {
      val m = gtMultiples(s.c)
      { l: s.l.append(m), c: f12mul(m[15], s.c) }
    }).l
  /// E^k, 0 <= k < R
  pure def ek(k: int): F12 =
    range(0, 64).foldl({ a: f12one, m: k }, (s, i) =>
      { a: if (s.m % 16 == 0) s.a else f12mul(s.a, TBLE[i][s.m % 16]), m: s.m / 16 }).a
  /// tower order of the implementation: c0.c0 c0.c1 c0.c2 c1.c0 c1.c1 c1.c2 = w^0 w^2 w^4 w^1 w^3 w^5
  pure def flat12(e: F12): List[int] =
    [e[0]._1, e[0]._2, e[2]._1, e[2]._2, e[4]._1, e[4]._2,
     e[1]._1, e[1]._2, e[3]._1, e[3]._2, e[5]._1, e[5]._2]
  pure def unflat12(v: List[int]): F12 =
    [(v[0], v[1]), (v[6], v[7]), (v[2], v[3]), (v[8], v[9]), (v[4], v[5]), (v[10], v[11])]
  pure val RBITS: List[int] = bitsOf(R, 254)
  /// the group of order R in Fp12*
  pure def inGt(e: F12): bool = f12pow(e, RBITS) == f12one

  // ================================================================ endomorphism, square roots
  /// (x, y) -> (BETA x, y) multiplies logarithms by LAM1 in G1 and LAM2 in G2
  pure val BETA: int = 2203960485148121921418603742825762020974279258880205651966
  pure val LAM1: int = 4407920970296243842393367215006156084916469457145843978461
  pure val LAM2: int = R - 1 - LAM1
  pure def phi(p: Pt): Pt = if (p.inf) p else pt(f2scale(p.x, BETA), p.y)
  /// candidate square root (P % 4 == 3)
  pure val SQRTBITS: List[int] = bitsOf((P + 1) / 4, 254)
  pure def sqrtP(a: int): int =
    SQRTBITS.foldl(1, (acc, b) => if (b == 1) (acc * acc % P) * a % P else acc * acc % P)
  /// square root in Fp2, or any value when there is none
  pure def sqrt2(a: F2): F2 =
    if (a._2 == 0) { val s = sqrtP(a._1) if (s * s % P == a._1) (s, 0) else (0, sqrtP((P - a._1) % P)) }
    else {
      val n = sqrtP((a._1 * a._1 + a._2 * a._2) % P)
      val half = (P + 1) / 2
      val d = (a._1 + n) * half % P
      val s = sqrtP(d)
      val d2 = (a._1 - n + P) * half % P
      val c = if (s * s % P == d) s else sqrtP(d2)
      if (c == 0) (0, 0) else (c, a._2 * half % P * invMod(c, P) % P)
    }
  /// first curve point with x-coordinate x, x+1, ... x+15 (G1), the generator if there is none
  pure def lift1(x: int): Pt =
    range(0, 16).foldl(INF, (acc, i) =>
      if (not(acc.inf)) acc else {
        val c = (x + i) % P
        val r = (c * c % P * c + BCOEF) % P
        val y = sqrtP(r)
        if (y * y % P == r) pt((c, 0), (y, 0)) else INF
      })
  /// a point of the twist, almost surely outside G2
  pure def lift2(x: F2): Pt =
    range(0, 16).foldl(INF, (acc, i) =>
      if (not(acc.inf)) acc else {
        val c = ((x._1 + i) % P, x._2)
        val r = f2add(f2mul(f2mul(c, c), c), B2)
        val y = sqrt2(r)
        if (f2mul(y, y) == r) pt(c, y) else INF
      })

  // ================================================================ adversarial inputs
  pure val HW: List[int] = [0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
  pure def word(n: int, rnd: int, i: int): int = {
    val d = n / 8^i % 8
    if (d < 7) HW[d] else rnd / 2^(32 * i) % 2^32
  }
  /// integer of k 32-bit words, each an extreme value or random
  pure def pat(n: int, rnd: int, k: int): int = range(0, k).foldl(0, (acc, i) => acc * 2^32 + word(n, rnd, i))
  /// 64-bit words all zero or all ones
  pure def pat64(n: int): int =
    range(0, 4).foldl(0, (acc, i) => acc * 2^64 + (if (n / 2^i % 2 == 1) 2^64 - 1 else 0))
  /// 64-bit words at which carries, signs and shifts turn
  pure val WL: List[int] = [0, 1, 2, 3, 2^63, 2^63 - 1, 2^63 + 1, 2^64 - 1, 2^64 - 2, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa,
    0x7000000000000001, 2^32 - 1, 2^32, 2^64 - 2^32, 0x3333333333333333]
  pure def mixWord(n: int, rnd: int, i: int): int = {
    val d = n / 20^i % 20
    if (d < 16) WL[d] else rnd / 2^(64 * i) % 2^64
  }
  /// four such words, independent, or two of them repeated so that they cancel in pairs; mostly with a
  /// most significant word below that of the moduli
  pure def mixed(n: int, rnd: int): int = {
    val t = n / 1280000 % 4
    val top = if (t == 0) 2^64 else R / 2^192
    val a = mixWord(n, rnd, 0)
    val b = mixWord(n, rnd, 1) % top
    val c = mixWord(n, rnd, 2)
    val d = mixWord(n, rnd, 3) % top
    val l = n / 160000 % 8
    val w = if (l == 0) [a, b, a, b] else if (l == 1) [a, a, b, b] else if (l == 2) [b, a, a, b] else if (l == 3) [b, b, b, b]
            else if (l == 4) [a, b, b, b] else [a, b, c, d]
    w[0] + w[1] * 2^64 + w[2] * 2^128 + w[3] * 2^192
  }
  pure def wordsOf(w: int): List[int] = [w % 2^64, w / 2^64 % 2^64, w / 2^128 % 2^64, w / 2^192]
  /// some of the four words of w replaced, result below m
  pure def swapWords(w: int, mask: int, rnd: int, m: int): int =
    range(0, 4).foldl(0, (acc, i) => acc +
      (if (mask / 2^i % 2 == 0) wordsOf(w)[i] else if (i == 3) rnd / 2^192 % (m / 2^192) else wordsOf(rnd)[i]) * 2^(64 * i)) % m
  /// representations of one, of minus one and the moduli: whole words of them must decide nothing
  pure val LANDMARK: List[int] = [W % R, W % P, R - W % R, P - W % P, R, P, R - 1, P - 1, (W * W) % R, (W * W) % P, 2 * W % R, 2 * W % P, R / 2, P / 2,
    R + 1, P + 1]
  /// raw 256-bit words
  pure def rawWords(kind: int, n: int, rnd: int): int =
    if (kind == 0) pat64(n) else if (kind == 1) 2^(n % 256) - 1 else if (kind == 2) 2^(n % 256)
    else if (kind == 3) rnd % 2^256 else if (kind == 4) pat(n, rnd, 8)
    else if (kind <= 6) mixed(n, rnd) else swapWords(LANDMARK[n % 16], n / 16 % 16, if (n / 256 % 2 == 0) rnd else mixed(n / 512, rnd), W)
  pure val SPECIAL: List[int] = [0, 1, 2, 3, R - 1, R - 2, (R - 1) / 2, (R + 1) / 2, W % R, WINVR, R - W % R,
    LAM1, LAM2, U, 6 * U + 2, 6 * U * U, 4, 5, 7, 8, 15, 16, 17, 255, 256, R - 3, (W * W) % R, 2^64, 2^128, 2^192, 2^253,
    2^63, 2^64 - 1, 2^127, 2^128 - 1, 2^191, 2^192 - 1, 2^32, 2^31, 2^253 - 1, R - 2^64, R - 2^128, R - 2^192,
    R % 2^64, R % 2^128, R % 2^192, R - R % 2^64, R - R % 2^128, R - R % 2^192, P % R, (P - 1) / 2 % R, R / 3, R / 2^64, R / 2^128, R / 2^192]
  /// a scalar of which a small multiple has words all zero or all ones, so that carries run through them
  pure def quotient(n: int, rnd: int): int = {
    val m = [3, 3, 5, 7, 2, 9, 15, 6][n % 8]
    val t = range(0, 4).foldl(0, (acc, i) => acc * 2^64 +
      (if (n / 8 / 4^i % 4 <= 1) 0 else if (n / 8 / 4^i % 4 == 2) 2^64 - 1 else rnd / 2^(64 * i) % 2^64))
    t / m + (if (t % m == 0) 0 else 1) + (if (n / 2^20 % 4 == 0) 1 else 0)
  }
  /// powers of the Frobenius eigenvalue P on the groups of order R
  pure val FROB: List[int] = range(0, 12).foldl([], (l, i) => l.append(powMod(P % R, i, R)))
  /// an integer repeating a block of 2, 4, 8, 16, 32 or 64 bits
  pure def repeated(n: int, rnd: int): int = {
    val b = 2^(1 + n % 6)
    val x = if (n / 8 % 3 == 0) rnd % 2^b else if (n / 8 % 3 == 1) 2^(b - 1) else 2^(n / 32 % b + 1) - 1
    (2^256 - 1) / (2^b - 1) * x
  }
  /// below 2^128: tiny, a boundary, random, signed
  pure def halfSize(n: int, rnd: int): int = {
    val x = if (n % 4 == 0) n / 8 % 4 else if (n % 4 == 1) 2^(120 + n / 8 % 8) - n / 64 % 3 else rnd % 2^(1 + n / 8 % 128)
    if (n / 4 % 2 == 0) x else R - x % R
  }
  /// next to a small multiple of m modulo a high power of two: binary Euclid shifts one bit at a time
  pure def slow(n: int, m: int): int = {
    val j = if (n % 3 == 0) 1 + n / 3 % 254 else 254 - n / 3 % 12
    val s = [-1, -1, -1, -3, 1, 3, -5, 5][n / 2^10 % 8]
    ((s * m % 2^j + 2^j) % 2^j + n / 2^13 % 9 * 2^j) % m
  }
  /// A scalar: special, extreme words (plain or in the words of its representation), small, bit
  /// patterns, low or high bits only, sparse, repetitive, decomposed along the endomorphism, powers of
  /// the Frobenius eigenvalue, words mixed from turning points, landmarks with words replaced, quotients
  /// of extreme words, slow to invert, random.
  pure val KINDS: Set[int] = 0.to(20)
  pure def scal(kind: int, n: int, rnd: int): int =
    if (kind == 0) SPECIAL[n % 55]
    else if (kind == 1) rawWords(n % 8, n / 8, rnd) % R
    else if (kind == 2) rawWords(n % 8, n / 8, rnd) % R * WINVR % R
    else if (kind == 3) (SPECIAL[n % 55] + n / 64 % 9 + R - 4) % R * (if (n / 1024 % 2 == 0) 1 else WINVR) % R
    else if (kind == 4) n % 40
    else if (kind == 5) 2^(n % 254) % R
    else if (kind == 6) (2^(n % 254) + R - 1) % R
    else if (kind == 7) R - 1 - n % 40
    else if (kind == 8) (if (n % 2 == 0) rnd else pat(n / 2^9, rnd, 8)) % 2^(64 * (1 + n / 2 % 3) - (if (n / 8 % 3 == 0) n / 32 % 16 else 0)) % R
    else if (kind == 9) (if (n % 2 == 0) rnd else pat(n / 2^9, rnd, 8)) % 2^(64 * (1 + n / 2 % 3) - (if (n / 8 % 3 == 0) n / 32 % 16 else 0)) % R * WINVR % R
    else if (kind == 10) rnd % 2^(1 + n % 254) * (if (n / 256 % 2 == 0) 1 else WINVR) % R
    else if (kind == 11) (2^(n % 254) + (if (n / 512 % 2 == 0) 2^(n / 1024 % 254) else R - 2^(n / 1024 % 254) % R)) % R
    else if (kind == 12) repeated(n, rnd) % R * (if (n / 2^20 % 2 == 0) 1 else WINVR) % R
    else if (kind == 13) (halfSize(n, rnd) + (if (n / 2^20 % 2 == 0) LAM1 else LAM2) * halfSize(n / 2^21, rnd / 2^256)) % R
    else if (kind == 14) rnd % 2^256 / 2^(64 * (1 + n % 3)) * 2^(64 * (1 + n % 3)) % R * (if (n / 4 % 2 == 0) 1 else WINVR) % R
    else if (kind == 15) mixed(n, rnd) % R * (if (n / 2^30 % 2 == 0) 1 else WINVR) % R
    else if (kind == 16) swapWords(if (n / 2^30 % 2 == 0) SPECIAL[n % 55] else montR(SPECIAL[n % 55]), 1 + n / 64 % 14, rnd, R) * (if (n / 2^30 % 2 == 0) 1 else WINVR) % R
    else if (kind == 17) (FROB[n % 12] * (1 + n / 16 % 3) + (if (n / 64 % 2 == 0) 0 else R - 1 - n / 128 % 3)) % R
    else if (kind == 18) quotient(n, rnd) % R
    else if (kind == 19) slow(n, R) * (if (n / 2^30 % 4 == 0) 1 else WINVR) % R
    else rnd % R
  /// base field element by the words of its representation
  pure def fieldEl(n: int, rnd: int): int = unP(if (n % 16 == 13) slow(n / 16, P) else rawWords(n % 8, n / 8, rnd) % P)
  /// projective factor: 1, a few fixed ones (so that registers share coordinates), extreme, random
  pure val LAMS: List[int] = [2, P - 1, 3, P - 2, BETA, P - BETA, 2 * BETA % P, WINVP, (P + 1) / 2]
  pure def lamOf(g: int, kind: int, n: int, rnd: int): F2 = {
    val a = if (kind == 0) 1 else if (kind <= 2) LAMS[n % 9] else fieldEl(n, rnd)
    val h = n / 2^26 % 6
    val b = if (g == 1 or n % 3 == 0) 0 else if (h == 0) a else if (h == 1) (P - a) % P
            else if (kind <= 2) LAMS[n / 16 % 9] else fieldEl(n / 8^9, rnd / 2^256)
    val c = if (n % 7 == 1 and g == 2) 0 else a
    if (c == 0 and b == 0) (1, 0) else (c, b)
  }
  /// cube roots: P - 1 and P^2 - 1 are divisible by 9 and not by 27; a^k is one up to a ninth root of unity
  pure val T9: int = (P - 1) / 9
  pure val T81: int = (P * P - 1) / 9
  pure val ZETA9: F2 = f2pow((3, 0), bitsOf(T9, 254))
  pure def cbrt(g: int, a: F2): F2 = {
    val r = f2pow(a, if (g == 1) bitsOf((1 + T9) / 3, 254) else bitsOf((1 + 2 * T81) / 3, 508))
    range(0, 9).foldl((r, r), (s, i) =>
      { val c = s._2 (if (f2mul(c, f2mul(c, c)) == a) c else s._1, f2mul(c, ZETA9)) })._1
  }
  /// an extreme coordinate: extreme words; in the extension also halves that vanish, agree or cancel
  pure def coord(g: int, n: int, rnd: int): F2 = {
    val w = fieldEl(n / 8, rnd)
    if (g == 1) (w, 0) else if (n % 8 == 0) (w, 0) else if (n % 8 == 1) (0, w) else if (n % 8 == 2) (w, w)
    else if (n % 8 == 3) (w, (P - w) % P) else (w, fieldEl(n / 2^20, rnd / 2^256))
  }
  /// projective factors that turn X or Y of a representation of p into t, where they exist
  pure def lamToX(g: int, p: Pt, t: F2): F2 =
    if (p.inf or p.x == f2zero or t == f2zero) f2one else {
      val c = f2mul(t, f2inv(p.x))
      val s = if (g == 1) (sqrtP(c._1), 0) else sqrt2(c)
      if (f2mul(s, s) == c) s else f2one
    }
  pure def lamToY(g: int, p: Pt, t: F2): F2 =
    if (p.inf or p.y == f2zero or t == f2zero) f2one else {
      val c = f2mul(t, f2inv(p.y))
      val s = cbrt(g, c)
      if (f2mul(s, f2mul(s, s)) == c) s else f2one
    }
  pure def lamForX(g: int, p: Pt, n: int, rnd: int): F2 = lamToX(g, p, coord(g, n, rnd))
  /// any of these
  pure def lamAny(g: int, p: Pt, n: int, rnd: int): F2 =
    if (p.inf or n % 16 > 2) lamOf(g, n / 16 % 6, n / 128, rnd)
    else if (n % 16 == 0) lamToY(g, p, coord(g, n / 16, rnd)) else lamToX(g, p, coord(g, n / 16, rnd))

  /// wire formats: binary, text, self-describing; whole buffers and readers that deliver fragments
  pure val FORMATS: Set[str] = Set("bin", "json", "jsonv", "cbor", "writer", "frag", "jfrag")

  // ================================================================ state
  type El = { k: int, p: Pt }
  type Te = { k: int, e: F12 }
  /// One call.  s/op: sort and operation; a: register indices, destination first; x: payload
  /// integers; f: wire format; cut: bytes missing at the end of the payload.
  /// Obligations: rej: must be refused; v: the value; z: answer of the zero test (-1: none);
  /// eq: answer of == against each register before the call; enc: representation words if the
  /// value determines them; same: register whose encoding must be reproduced (-1: none).
  /// mate: register to which a new representation was fitted (-1: none), for the choice of the next step.
  type Ev = { s: str, op: str, a: List[int], x: List[int], f: str, cut: int,
              rej: bool, v: List[int], z: int, eq: List[int], enc: List[int], same: int, mate: int }

  var fr: List[int]
  var g1: List[El]
  var g2: List[El]
  var gt: List[Te]
  var ev: Ev
  /// a byte stream: what has been written and not yet read, its format, values decoded and not yet used
  type Val = { s: str, k: int, el: El, te: Te }
  type Cont = { c: str, s: str, vals: List[Val], broken: bool }
  var buf: List[Cont]
  var pend: List[Val]
  var bufF: str

  pure val EV0: Ev = { s: "", op: "", a: [], x: [], f: "", cut: 0, rej: false, v: [], z: -1, eq: [], enc: [], same: -1, mate: -1 }
  pure val REG: Set[int] = 0.to(7)
  pure val ZEROEL: El = { k: 0, p: INF }
  pure def el1(k: int): El = { k: k, p: k1(k) }
  pure def el2(k: int): El = { k: k, p: k2(k) }

  action init = all {
    fr' = range(0, 8).foldl([], (l, i) => l.append(0)),
    g1' = range(0, 8).foldl([], (l, i) => l.append(ZEROEL)),
    g2' = range(0, 8).foldl([], (l, i) => l.append(ZEROEL)),
    gt' = range(0, 8).foldl([], (l, i) => l.append({ k: 0, e: f12one })),
    ev' = EV0,
    buf' = [], pend' = [], bufF' = "",
  }
  /// the stream is not touched
  action still = all { buf' = buf, pend' = pend, bufF' = bufF }

  action putFr(d: int, e: Ev, v: int): bool = all { putFr0(d, e, v), still }
  action putFr0(d: int, e: Ev, v: int): bool = all {
    fr' = fr.replaceAt(d, v), g1' = g1, g2' = g2, gt' = gt,
    ev' = { ...e, s: "fr", a: [d].concat(e.a), v: [v], z: if (v == 0) 1 else 0,
            eq: range(0, 8).foldl([], (l, i) => l.append(if (fr[i] == v) 1 else 0)), enc: [montR(v)] },
  }
  def reg(g: int): List[El] = if (g == 1) g1 else g2
  pure def ptV(g: int, p: Pt): List[int] =
    if (g == 1) [if (p.inf) 1 else 0, p.x._1, p.y._1]
    else [if (p.inf) 1 else 0, p.x._1, p.x._2, p.y._1, p.y._2]
  action putG(g: int, d: int, e: Ev, el: El): bool = all { putG0(g, d, e, el), still }
  action putG0(g: int, d: int, e: Ev, el: El): bool = all {
    fr' = fr, gt' = gt,
    g1' = if (g == 1) g1.replaceAt(d, el) else g1,
    g2' = if (g == 2) g2.replaceAt(d, el) else g2,
    ev' = { ...e, s: if (g == 1) "g1" else "g2", a: [d].concat(e.a), v: ptV(g, el.p), z: if (el.p.inf) 1 else 0,
            eq: range(0, 8).foldl([], (l, i) => l.append(if (reg(g)[i].p == el.p) 1 else 0)) },
  }
  action putGt(d: int, e: Ev, t: Te): bool = all { putGt0(d, e, t), still }
  action putGt0(d: int, e: Ev, t: Te): bool = all {
    fr' = fr, g1' = g1, g2' = g2, gt' = gt.replaceAt(d, t),
    ev' = { ...e, s: "gt", a: [d].concat(e.a), v: flat12(t.e),
            eq: range(0, 8).foldl([], (l, i) => l.append(if (gt[i].e == t.e) 1 else 0)),
            enc: flat12(t.e).foldl([], (l, c) => l.append(montP(c))) },
  }
  /// an answer that is not a value (a rejection, or a truth value in v)
  action answer(e: Ev): bool = all { answer0(e), still }
  action answer0(e: Ev): bool = all { fr' = fr, g1' = g1, g2' = g2, gt' = gt, ev' = e }

  // ================================================================ scalars
  action frMulf(d: int, raw: int): bool = putFr(d, { ...EV0, op: "mulf", x: [raw] }, raw % R)
  action frSet(d: int, v: int): bool = frMulf(d, v)
  action frAdd(d: int, i: int, j: int): bool = putFr(d, { ...EV0, op: "add", a: [i, j] }, (fr[i] + fr[j]) % R)
  action frSub(d: int, i: int, j: int): bool = putFr(d, { ...EV0, op: "sub", a: [i, j] }, (fr[i] - fr[j] + R) % R)
  action frMul(d: int, i: int, j: int): bool = putFr(d, { ...EV0, op: "mul", a: [i, j] }, fr[i] * fr[j] % R)
  action frNeg(d: int, i: int): bool = putFr(d, { ...EV0, op: "neg", a: [i] }, (R - fr[i]) % R)
  action frPow(d: int, i: int, j: int): bool = putFr(d, { ...EV0, op: "pow", a: [i, j] }, powMod(fr[i], fr[j], R))
  action frInv(d: int, i: int): bool =
    if (fr[i] == 0) answer({ ...EV0, s: "fr", op: "inv", a: [d, i], rej: true })
    else putFr(d, { ...EV0, op: "inv", a: [i] }, invMod(fr[i], R))
  action frZero(d: int): bool = putFr(d, { ...EV0, op: "zero" }, 0)
  action frOne(d: int): bool = putFr(d, { ...EV0, op: "one" }, 1)
  action frRt(d: int, i: int, f: str): bool = putFr(d, { ...EV0, op: "rt", a: [i], f: f, same: i }, fr[i])
  /// representation words from outside; genuine exactly when below R
  action frLoad(d: int, w: int, f: str, cut: int): bool =
    if (w < R and cut == 0) putFr(d, { ...EV0, op: "load", x: [w], f: f }, w * WINVR % R)
    else answer({ ...EV0, s: "fr", op: "load", a: [d], x: [w], f: f, cut: cut, rej: true })
  /// a residue whose representation differs from that of v in one bit, or in whole words
  pure def near(v: int, n: int): int =
    (v + (if (n % 4 == 0) R - 1 else 1) * WINVR % R * ((if (n % 4 <= 2) 2^(n / 4 % 254) else pat64(n / 4)) % R)) % R
  /// some words of the value, or of its representation, replaced
  pure def twinWords(v: int, n: int, rnd: int): int =
    if (n % 3 == 0) swapWords(v, 1 + n / 3 % 14, rnd, R)
    else swapWords(montR(v), 1 + n / 3 % 14, rnd, R) * WINVR % R
  /// a value related to a register: equal, opposite, inverse, neighbours, complements
  pure def related(v: int, n: int): int =
    if (n / 8 % 4 == 2) near(v, n / 32)
    else if (n / 8 % 4 == 3 and n / 32 % 2 == 0) twinWords(v, n / 64, n * n * n * n * n)
    else if (n / 8 % 4 == 3) v * FROB[n / 64 % 12] % R
    else if (n % 8 == 0) v else if (n % 8 == 1) (R - v) % R else if (n % 8 == 2) invMod(v, R)
    else if (n % 8 == 3) (v + 1) % R else if (n % 8 == 4) (R - v + 1) % R
    else if (n % 8 == 5) (v + R - 1) % R else if (n % 8 == 6) (v * 2) % R else (R - v + WINVR) % R
  action frArith(d: int, i: int, j: int, kind: int, n: int, rnd: int): bool = any {
    frSet(d, scal(kind, n, rnd)), frSet(d, related(fr[i], n)),
    frAdd(d, i, j), frSub(d, i, j), frMul(d, i, j), frNeg(d, i),
  }

  // ---------------------------------------------------------------- decoding
  pure def bytesBE(v: int, len: int): List[int] =
    range(0, len).foldl({ l: [], m: v }, (s, i) => { l: [s.m % 256].concat(s.l), m: s.m / 256 }).l
  pure def fromBytes(b: List[int]): int = b.foldl(0, (acc, x) => acc * 256 + x)
  /// decimal digits of v as code points, at least one, after z zeros
  pure def digits(v: int, z: int): List[int] = {
    val ds = range(0, 160).foldl({ l: [], m: v }, (s, i) =>
      if (s.m == 0) s else { l: [48 + s.m % 10].concat(s.l), m: s.m / 10 }).l
    range(0, z).foldl(ds, (l, i) => [48].concat(l))
  }
  pure def isDigit(c: int): bool = c >= 48 and c <= 57
  pure def wellFormed(s: List[int]): bool = s.foldl(true, (acc, c) => acc and isDigit(c))
  pure def decimal(s: List[int]): int = s.foldl(0, (acc, c) => acc * 10 + (c - 48))
  action frStr(d: int, s: List[int]): bool =
    if (wellFormed(s)) putFr(d, { ...EV0, op: "str", x: s }, decimal(s) % R)
    else answer({ ...EV0, s: "fr", op: "str", a: [d], x: s, rej: true })
  /// a long text: the digits s repeated cut times
  action frStrRep(d: int, s: List[int], cut: int): bool = {
    val b = powMod(10, length(s), R)
    if (wellFormed(s))
      putFr(d, { ...EV0, op: "strrep", x: s, cut: cut },
            decimal(s) * (powMod(10, length(s) * cut, R) + R - 1) % R * invMod((b + R - 1) % R, R) % R)
    else answer({ ...EV0, s: "fr", op: "strrep", a: [d], x: s, cut: cut, rej: true })
  }
  action frSlice(d: int, b: List[int]): bool =
    if (length(b) == 32) putFr(d, { ...EV0, op: "slice", x: b }, fromBytes(b) % R)
    else answer({ ...EV0, s: "fr", op: "slice", a: [d], x: b, rej: true })
  action frInterp(d: int, v: int): bool = putFr(d, { ...EV0, op: "interp", x: [v] }, v % R)
  /// characters that are digits, signs, separators or spaces elsewhere, but not ASCII digits
  pure val ODD: List[int] = [32, 43, 45, 46, 44, 95, 47, 58, 9, 10, 13, 0, 120, 97, 65, 101, 39, 160, 1632, 1633, 65297,
    178, 185, 120792, 9312, 8722, 12295, 65296, 3174, 188]
  pure def insertAt(s: List[int], i: int, c: int): List[int] =
    s.slice(0, i).append(c).concat(s.slice(i, length(s)))
  /// v + m R below 2^k, near the top or near the bottom of the range
  pure def alias(v: int, n: int, rnd: int, k: int): int = {
    val top = (2^k - 1 - v) / R
    val m = if (n % 3 == 0) n / 4 % 6 else if (n % 3 == 1) top - n / 4 % 3 else rnd % (top + 1)
    v + (if (m > top) top else if (m < 0) 0 else m) * R
  }
  pure val LENS: List[int] = [0, 1, 2, 8, 16, 24, 30, 31, 33, 34, 40, 48, 63, 64, 65, 96, 128]
  pure def cutLen(n: int): int = LENS[n % 17]
  action frDecode(d: int, i: int, kind: int, n: int, rnd: int): bool = any {
    frStr(d, digits(scal(kind, n, rnd), n % 5)),
    frStr(d, digits(alias(if (n % 2 == 0) fr[i] else n % 3, n, rnd, 512), n % 3)),
    frStr(d, digits(rnd % 10^(n % 78), 78 - n % 78)),
    frStr(d, digits(rnd % 10^(n % 12), 0)),
    frStrRep(d, if (n % 9 == 0) insertAt(digits(rnd % 10^4, 0), 2, ODD[n / 512 % 30]) else digits(rnd % 10^(1 + n / 16 % 12), n / 256 % 3),
             [5, 20, 40, 90, 333, 1000, 9000][n / 4096 % 7]),
    { val s = digits(rnd % 10^(n % 40), n / 40 % 3)
      frStr(d, insertAt(s, if (n % 5 == 0) 0 else if (n % 5 == 1) length(s) else n / 128 % (length(s) + 1), ODD[n / 512 % 30])) },
    frSlice(d, bytesBE(alias(if (n % 2 == 0) fr[i] else n % 3, n, rnd, 256), 32)),
    frSlice(d, bytesBE(rawWords(n % 8, n / 8, rnd), 32)),
    frSlice(d, bytesBE(rnd, cutLen(n))),
    frInterp(d, alias(if (n % 2 == 0) fr[i] else n % 3, n, rnd, 512)),
    frInterp(d, pat(n, rnd, 16)),
    frInterp(d, rnd),
    frMulf(d, alias(if (n % 2 == 0) fr[i] else n % 3, n, rnd, 256)),
    frMulf(d, rawWords(n % 8, n / 8, rnd)),
  }
  /// one residue by another route
  action frAlias(d: int, i: int, j: int, n: int, rnd: int): bool = {
    val v = if (n % 5 == 0) 0 else if (n % 5 == 1) 1 else fr[i]
    any {
      frMulf(d, alias(v, n / 8, rnd, 256)),
      frInterp(d, alias(v, n / 8, rnd, 512)),
      frStr(d, digits(alias(v, n / 8, rnd, 400), n % 4)),
      frSlice(d, bytesBE(alias(v, n / 8, rnd, 256), 32)),
      frLoad(d, montR(v), if (n % 16 < 8) "bin" else "tjson", 0), frSet(d, near(v, n / 8)),
      frSub(d, i, i), frPow(d, i, j), frInv(d, i), frNeg(d, i), frAdd(d, i, j), frSub(d, i, j), frMul(d, i, j),
      frZero(d), frOne(d), frRt(d, i, "bin"),
    }
  }

  // ================================================================ points
  pure def kmul(g: int, k: int): Pt = if (g == 1) k1(k) else k2(k)
  /// Jacobian representation words (x lam^2, y lam^3, lam)
  pure def jac(p: Pt, lam: F2): List[F2] = {
    val l2 = f2mul(lam, lam)
    [f2mul(p.x, l2), f2mul(p.y, f2mul(l2, lam)), lam]
  }
  /// representations of the identity that arithmetic reaches: (t^2, t^3, 0) and (0, 1, 0)
  pure def jacInf(t: F2, plain: bool): List[F2] =
    if (plain) [f2zero, f2one, f2zero] else { val t2 = f2mul(t, t) [t2, f2mul(t2, t), f2zero] }
  pure def words(g: int, c: List[F2]): List[int] =
    if (g == 1) [montP(c[0]._1), montP(c[1]._1), montP(c[2]._1)]
    else [montP(c[0]._1), montP(c[0]._2), montP(c[1]._1), montP(c[1]._2), montP(c[2]._1), montP(c[2]._2)]
  action gLoad(g: int, d: int, el: El, lam: F2, plain: bool, f: str): bool = {
    val w = words(g, if (el.p.inf) jacInf(lam, plain) else jac(el.p, lam))
    putG(g, d, { ...EV0, op: "load", x: w, f: f, enc: w }, el)
  }
  /// the same, remembering the register it is related to
  action gLoadM(g: int, d: int, mate: int, el: El, lam: F2, plain: bool): bool = {
    val w = words(g, if (el.p.inf) jacInf(lam, plain) else jac(el.p, lam))
    putG(g, d, { ...EV0, op: "load", x: w, f: "bin", enc: w, mate: mate }, el)
  }
  action gZero(g: int, d: int): bool =
    putG(g, d, { ...EV0, op: "zero", enc: words(g, jacInf(f2one, true)) }, ZEROEL)
  action gOne(g: int, d: int): bool =
    if (g == 1) putG(1, d, { ...EV0, op: "one", enc: words(1, jac(P1, f2one)) }, { k: 1, p: P1 })
    else putG(2, d, { ...EV0, op: "one", enc: words(2, jac(P2, f2one)) }, { k: 1, p: P2 })
  /// logarithm of a sum, when both are known
  pure def kAdd(a: int, b: int): int = if (a < 0 or b < 0) -1 else (a + b) % R
  pure def kMul(a: int, s: int): int = if (a < 0) -1 else a * s % R
  pure def fixK(e: El): El = if (e.p.inf) ZEROEL else e
  pure def elAdd(a: El, b: El): El = fixK({ k: kAdd(a.k, b.k), p: padd(a.p, b.p) })
  pure def elNeg(a: El): El = { k: kMul(a.k, R - 1), p: pneg(a.p) }
  pure def elMul(g: int, a: El, s: int): El =
    if (a.k >= 0) { val k = a.k * s % R { k: k, p: kmul(g, k) } }
    else fixK({ k: -1, p: pmul(a.p, bitsOf(s, 254)) })
  action gAdd(g: int, d: int, i: int, j: int): bool =
    putG(g, d, { ...EV0, op: "add", a: [i, j] }, elAdd(reg(g)[i], reg(g)[j]))
  action gSub(g: int, d: int, i: int, j: int): bool =
    putG(g, d, { ...EV0, op: "sub", a: [i, j] }, elAdd(reg(g)[i], elNeg(reg(g)[j])))
  action gNeg(g: int, d: int, i: int): bool = putG(g, d, { ...EV0, op: "neg", a: [i] }, elNeg(reg(g)[i]))
  action gMul(g: int, d: int, i: int, j: int): bool =
    putG(g, d, { ...EV0, op: "mul", a: [i, j] }, elMul(g, reg(g)[i], fr[j]))
  action gNorm(g: int, d: int, i: int): bool = putG(g, d, { ...EV0, op: "norm", a: [i] }, reg(g)[i])
  action gRt(g: int, d: int, i: int, f: str): bool = putG(g, d, { ...EV0, op: "rt", a: [i], f: f, same: i }, reg(g)[i])
  /// a new point with known logarithm
  action gNew(g: int, d: int, kind: int, n: int, rnd: int): bool = {
    val k = scal(kind, n, rnd)
    gLoad(g, d, { k: k, p: kmul(g, k) }, lamAny(g, kmul(g, k), n / 32, rnd), n % 2 == 0, "bin")
  }
  /// a new G1 point with extreme coordinate words, logarithm unknown
  action gLift(d: int, n: int, rnd: int): bool = {
    val p = lift1(fieldEl(n, rnd))
    val q = if (p.inf) P1 else p
    gLoad(1, d, { k: if (p.inf) 1 else -1, p: q },
          if (n % 5 == 0) lamForX(1, q, n / 8, rnd / 2^100) else lamOf(1, n / 32 % 6, n / 256, rnd / 2^200), false, "bin")
  }
  /// the same point, its opposite, or an image under the endomorphism, in another representation
  pure def relEl(g: int, e: El, n: int): El = {
    val l = if (g == 1) LAM1 else LAM2
    if (n % 8 <= 2) e
    else if (n % 8 == 3 or n % 8 == 4) elNeg(e)
    else if (n % 8 == 5) { k: kMul(e.k, l), p: phi(e.p) }
    else if (n % 8 == 6) { k: kMul(e.k, l * l % R), p: phi(phi(e.p)) }
    else elNeg({ k: kMul(e.k, l), p: phi(e.p) })
  }
  action gRel(g: int, d: int, i: int, n: int, rnd: int): bool = {
    val e = relEl(g, reg(g)[i], n)
    gLoadM(g, d, i, e, lamAny(g, e.p, n / 8, rnd), n % 3 == 0)
  }
  /// A representation of the point of register j whose cross products with the point loaded last
  /// (or with its opposite) differ from equality as little as possible: by one bit, in one word, in
  /// one half of the extension.
  action gNear(g: int, d: int, j: int, n: int): bool = {
    val last = ev.op == "load" and not(ev.rej) and ev.s == (if (g == 1) "g1" else "g2") and ev.enc != []
    val i = if (last) ev.a[0] else 0
    val opp = last and n % 4 == 0
    val a = reg(g)[i].p
    val e = if (opp) elNeg(reg(g)[i]) else reg(g)[j]
    val w = unP((if (n / 4 % 4 > 0) 2^(n / 16 % 254) else pat64(n / 16)) % P)
    val del = if (g == 1 or n / 4096 % 3 == 0) (w, 0) else if (n / 4096 % 3 == 1) (0, w) else (w, w)
    if (not(last) or a.inf or e.p.inf or w == 0) gLoadM(g, d, j, e, lamOf(g, n % 6, n / 16, n), true)
    else {
      val zi = f2inv(if (g == 1) (unP(ev.enc[2]), 0) else (unP(ev.enc[4]), unP(ev.enc[5])))
      val zi2 = f2mul(zi, zi)
      val lam =
        if (a.x == e.p.x and a.y == e.p.y) f2zero
        else if (a.x == e.p.x) cbrt(g, f2mul(del, f2inv(f2mul(f2sub(e.p.y, a.y), f2inv(f2mul(zi2, zi))))))
        else { val s = f2mul(f2mul(del, zi2), f2inv(f2sub(e.p.x, a.x))) if (g == 1) (sqrtP(s._1), 0) else sqrt2(s) }
      gLoadM(g, d, i, e, if (lam == f2zero) f2one else lam, true)
    }
  }
  /// A representation of the point of register j fitted to the point loaded last: the same X, Y or Z,
  /// or cross differences H and S whose ratio is small (equal, opposite, double, half).
  action gAlign(g: int, d: int, j: int, n: int): bool = {
    val last = ev.op == "load" and not(ev.rej) and ev.s == (if (g == 1) "g1" else "g2") and ev.enc != []
    val i = if (last) ev.a[0] else 0
    val a = reg(g)[i].p
    val e = if (n % 2 == 0) reg(g)[j] else elNeg(reg(g)[j])
    if (not(last) or a.inf or e.p.inf) gLoadM(g, d, j, e, lamOf(g, n % 6, n / 16, n), true)
    else {
      val c = unwords(g, ev.enc)
      val r = [1, P - 1, 2, P - 2, (P + 1) / 2, (P - 1) / 2, 3, BETA][n / 16 % 8]
      val lam =
        if (n / 2 % 8 == 0) c[2] else if (n / 2 % 8 == 1) f2sub(f2zero, c[2])
        else if (n / 2 % 8 == 2) lamToX(g, e.p, c[0]) else if (n / 2 % 8 == 3) lamToY(g, e.p, c[1])
        else if (a.x == e.p.x or a.y == e.p.y) f2one
        else f2mul((r, 0), f2inv(f2mul(c[2], f2mul(f2sub(e.p.y, a.y), f2inv(f2sub(e.p.x, a.x))))))
      gLoadM(g, d, i, e, lam, true)
    }
  }
  /// another point of the line of slope m through p (G1), the generator if there is none
  pure def lineThrough(p: Pt, m: int): Pt = {
    val k = (p.y._1 + (P - m) * p.x._1) % P
    val s = (m * m + P - p.x._1) % P
    val t = ((P - 2) * m % P * k + (P - p.x._1) * s) % P
    val dd = (s * s + (P - 4) * t) % P
    val r = sqrtP(dd)
    if (r * r % P != dd) INF else {
      val x2 = (s + r) * ((P + 1) / 2) % P
      pt((x2, 0), ((m * x2 + k) % P, 0))
    }
  }
  pure def slopeOf(p: Pt, n: int, rnd: int): int =
    if (n % 8 == 0) 1 else if (n % 8 == 1) P - 1 else if (n % 8 == 2) 2 else if (n % 8 == 3) P - 2
    else if (n % 8 <= 5) p.y._1 * invMod(p.x._1, P) % P
    else if (n % 8 == 6) BETA else fieldEl(n / 8, rnd)
  action gLine(d: int, i: int, n: int, rnd: int): bool = {
    val p = if (g1[i].p.inf) P1 else g1[i].p
    val q = lineThrough(p, slopeOf(p, n, rnd))
    val e = if (q.inf) { k: 1, p: P1 } else { k: -1, p: q }
    gLoadM(1, d, i, if (n / 8 % 2 == 0) e else elNeg(e), if (n / 16 % 2 == 0) f2one else lamOf(1, n / 32 % 6, n / 256, rnd), true)
  }
  /// the sum or difference of two registers, or of a representation fitted to another and that one
  action gPairwise(g: int, d: int, n: int): bool = {
    val i = ev.a[0]
    val j = ev.mate
    if (n % 4 == 0) gAdd(g, d, i, j) else if (n % 4 == 1) gAdd(g, d, j, i) else if (n % 4 == 2) gSub(g, d, i, j) else gSub(g, d, j, i)
  }
  action gArith(g: int, d: int, i: int, j: int, n: int, rnd: int): bool = any {
    gAdd(g, d, i, j), gSub(g, d, i, j), gNeg(g, d, i), gAdd(g, d, i, i), gSub(g, d, i, i),
    gRel(g, d, i, n, rnd), gRel(g, d, i, n, rnd), gRel(g, d, j, n, rnd),
    { nondet c = 0.to(5).oneOf()
      if (c == 0) gZero(g, d) else if (c == 1) gOne(g, d) else if (c == 2) gNorm(g, d, i)
      else if (c == 3) gLoad(g, d, ZEROEL, lamOf(g, 4, n, rnd), false, "bin") else gAdd(g, d, i, j) },
  }

  // ================================================================ target group and pairing
  action gtOne(d: int): bool = putGt(d, { ...EV0, op: "one" }, { k: 0, e: f12one })
  action gtMul(d: int, i: int, j: int): bool =
    putGt(d, { ...EV0, op: "mul", a: [i, j] }, { k: kAdd(gt[i].k, gt[j].k), e: f12mul(gt[i].e, gt[j].e) })
  action gtPow(d: int, i: int, j: int): bool =
    putGt(d, { ...EV0, op: "pow", a: [i, j] },
          if (gt[i].k >= 0) { val k = gt[i].k * fr[j] % R { k: k, e: ek(k) } }
          else { k: -1, e: f12pow(gt[i].e, bitsOf(fr[j], 254)) })
  action gtInv(d: int, i: int): bool =
    putGt(d, { ...EV0, op: "inv", a: [i] }, { k: kMul(gt[i].k, R - 1), e: f12conj(gt[i].e) })
  action gtRt(d: int, i: int, f: str): bool = putGt(d, { ...EV0, op: "rt", a: [i], f: f, same: i }, gt[i])
  action gtPut(d: int, k: int, f: str): bool =
    putGt(d, { ...EV0, op: "load", x: flat12(ek(k)).foldl([], (l, c) => l.append(montP(c))), f: f }, { k: k, e: ek(k) })
  /// a value related to a register: its inverse, its images under the Frobenius maps, neighbours
  action gtRel(d: int, i: int, n: int, f: str): bool = gtPut(d, related(if (gt[i].k < 0) 1 else gt[i].k, n), f)
  /// pairing value by bilinearity of the definition (logarithms known) ...
  action gtPair(d: int, i: int, j: int): bool = all {
    g1[i].k >= 0, g2[j].k >= 0,
    { val k = g1[i].k * g2[j].k % R
      putGt(d, { ...EV0, op: "pair", a: [i, j] }, { k: k, e: ek(k) }) },
  }
  /// ... and by the definition itself
  action gtPairRef(d: int, i: int, j: int): bool =
    putGt(d, { ...EV0, op: "pair", a: [i, j] },
      { k: if (g1[i].k < 0 or g2[j].k < 0) -1 else g1[i].k * g2[j].k % R, e: pairingRef(g1[i].p, g2[j].p) })

  // ---------------------------------------------------------------- laws evaluated inside the implementation
  action law(op: str, a: List[int], truth: bool): bool =
    answer({ ...EV0, s: "law", op: op, a: a, v: [if (truth) 1 else 0] })
  def pk(i: int, j: int): int = g1[i].k * g2[j].k % R
  action lawStep(i: int, j: int, k: int, l: int, s: int, t: int): bool = all {
    reg(1).foldl(true, (acc, e) => acc and e.k >= 0),
    any {
      law("add1", [i, j, k], ((g1[i].k + g1[j].k) * g2[k].k - pk(i, k) - pk(j, k)) % R == 0),
      law("add2", [i, j, k], (g1[i].k * (g2[j].k + g2[k].k) - pk(i, j) - pk(i, k)) % R == 0),
      law("sub1", [i, j, k], ((g1[i].k - g1[j].k) * g2[k].k - pk(i, k) + pk(j, k)) % R == 0),
      law("sub2", [i, j, k], (g1[i].k * (g2[j].k - g2[k].k) - pk(i, j) + pk(i, k)) % R == 0),
      law("scal", [i, j, s, t], true), law("scal", [i, j, s, t], true),
      law("mov1", [i, j, s], true), law("mov2", [i, j, s], true), law("mov3", [i, j, s], true),
      law("neg1", [i, j], true), law("neg2", [i, j], true), law("norm", [i, j], true),
      law("peq", [i, j, k, l], pk(i, j) == pk(k, l)),
      law("peq", [i, j, i, l], pk(i, j) == pk(i, l)),
      law("peq", [i, j, k, j], pk(i, j) == pk(k, j)),
      law("pone", [i, j], pk(i, j) == 0),
    },
  }
  action mulLaw(i: int, j: int, s: int, t: int): bool = any {
    law("dist1", [i, s, t], true), law("dist2", [i, s, t], true),
    law("comp1", [i, s, t], true), law("comp2", [i, s, t], true),
    law("padd1", [i, j, s], true), law("padd2", [i, j, s], true),
  }

  // ================================================================ decoding data from outside
  /// membership of Jacobian coordinates given by representation words
  pure def onCurveJ(g: int, c: List[F2]): bool = {
    val z2 = f2mul(c[2], c[2])
    val z6 = f2mul(z2, f2mul(z2, z2))
    f2mul(c[1], c[1]) == f2add(f2mul(c[0], f2mul(c[0], c[0])), f2mul(if (g == 1) B1 else B2, z6))
  }
  pure def affineOf(c: List[F2]): Pt = {
    val zi = f2inv(c[2])
    val z2 = f2mul(zi, zi)
    pt(f2mul(c[0], z2), f2mul(c[1], f2mul(z2, zi)))
  }
  pure def unwords(g: int, w: List[int]): List[F2] =
    if (g == 1) [(unP(w[0]), 0), (unP(w[1]), 0), (unP(w[2]), 0)]
    else [(unP(w[0]), unP(w[1])), (unP(w[2]), unP(w[3])), (unP(w[4]), unP(w[5]))]
  pure def inRange(w: List[int], m: int): bool = w.foldl(true, (acc, x) => acc and x < m)
  /// arbitrary words with nonzero Z: genuine exactly when in range, on the curve and of order R
  action gLoadRaw(g: int, d: int, w: List[int], f: str, cut: int): bool = {
    val c = unwords(g, w)
    val ok = cut == 0 and inRange(w, P) and onCurveJ(g, c) and (g == 1 or pmul(affineOf(c), RBITS).inf)
    if (ok) putG(g, d, { ...EV0, op: "load", x: w, f: f, enc: w }, { k: -1, p: affineOf(c) })
    else answer({ ...EV0, s: if (g == 1) "g1" else "g2", op: "load", a: [d], x: w, f: f, cut: cut, rej: true })
  }
  /// points of the twist outside G2: random, of small order 10069, and a G2 point plus such a point
  pure val TORS: Pt = pmul(pmul(lift2((5, 7)), bitsOf((2 * P - R) / 10069, 256)), RBITS)
  pure val OFF2: List[Pt] = [lift2((5, 7)), TORS, padd(P2, TORS), lift2((0, 1)), padd(k2(R - 1), TORS), lift2((P - 1, 3)), pneg(TORS),
                             padd(lift2((5, 7)), P2)]
  /// ... and of every prime order dividing the cofactor 2P - R of the twist, and of composite ones
  pure val COF2: List[int] = [10069, 5864401, 1875725156269, 197620364512881247228717050342013327560683201906968909]
  pure val TORSQ: List[Pt] = {
    val t = pmul(lift2((5, 7)), RBITS)
    COF2.append(1).foldl([], (l, q) => l.append(pmul(t, bitsOf(if (q == 1) 1 else (2 * P - R) / q, 256))))
  }
  pure def offPt(n: int, rnd: int): Pt = {
    val t = pmul(TORSQ[n % 5], bitsOf(1 + n / 5 % 10000, 14))
    val j = n / 2^17 % 5
    if (j == 0) t else padd(k2(if (j == 1) 1 else if (j == 2) R - 1 else rnd % R), t)
  }
  pure def bigWord(n: int, rnd: int, m: int): int =
    if (n % 6 == 0) m else if (n % 6 == 1) 2^256 - 1 - n / 8 % 4 else if (n % 6 == 2) m + 1 + n / 8 % 5
    else if (n % 6 == 3) m * (2 + n / 8 % 4) else if (n % 6 == 4) m + rnd % (2^256 - m) else 2^255 + n / 8 % 9
  pure def mutate(g: int, w: List[int], m: int, n: int, rnd: int): List[int] = {
    val i = n / 16 % length(w)
    if (m == 0) w
    else if (m == 1) w.replaceAt(i, w[i] + P * (1 + (if (w[i] + 2 * P < 2^256) n / 128 % 2 else 0)))
    else if (m == 2) w.replaceAt(i, bigWord(n / 256, rnd, P))
    else if (m == 3) w.replaceAt(i, (w[i] + 1 + n / 256 % 3) % P)
    else if (m == 4) w.replaceAt(i, w[(i + 1) % length(w)])
    else if (m == 5) w.replaceAt(i, rnd % P)
    else if (m == 6) w.replaceAt(i, (P - w[i]) % P)
    else if (m == 7) w.replaceAt(i, 0)
    else w
  }
  pure def zeroZ(g: int, w: List[int]): bool = if (g == 1) w[2] % P == 0 else (w[4] % P == 0 and w[5] % P == 0)
  action gForge(g: int, d: int, i: int, n: int, rnd: int, f: str): bool = {
    val base = if (reg(g)[i].p.inf) (if (g == 1) P1 else P2) else reg(g)[i].p
    val p = if (g == 2 and n % 8 == 0) OFF2[n / 8 % 8] else if (g == 2 and n % 8 == 4) offPt(n / 2^10, rnd) else base
    val cut = if (n % 16 == 7 and f == "bin") 1 + n / 16 % (32 * (if (g == 1) 3 else 6)) else if (n % 8 == 3 and (f == "tjson" or f == "tcbor")) 1 + n / 16 % 2^12 else 0
    val w = mutate(g, words(g, jac(p, lamOf(g, n / 8 % 6, n / 64, rnd))), if (n % 4 == 0) 0 else n / 4 % 8, n / 2^10, rnd / 2^128)
    all {
      not(zeroZ(g, w)),
      gLoadRaw(g, d, w, f, cut),
    }
  }
  /// coordinates of another curve y^2 = x^3 + b': simple shapes with Z = 1
  action gOther(g: int, d: int, n: int, rnd: int, f: str): bool = {
    val s = [0, 1, montP(1), montP(2), montP(P - 1), montP(P - 2), rnd % P, montP(3)]
    val w = if (g == 1) [s[n % 8], s[n / 8 % 8], montP(1)]
            else [s[n % 8], s[n / 8 % 8], s[n / 64 % 8], s[n / 512 % 8], montP(1), 0]
    gLoadRaw(g, d, w, f, 0)
  }
  /// values of Fp12 outside the target group
  pure val GEN12: F12 = [(3, 1), (4, 1), (5, 9), (2, 6), (5, 3), (5, 8)]
  pure val UNIT12: F12 = f12pow(GEN12, bitsOf(P^6 - 1, 6 * 254))
  pure val CYC12: F12 = f12pow(UNIT12, bitsOf(P^2 + 1, 2 * 254))
  pure def f12scale(e: F12, k: int): F12 = e.foldl([], (l, c) => l.append(f2scale(c, k)))
  /// scalars of Fp2, of Fp6 (the even powers of w), and roots of unity of small order in Fp and Fp2
  pure def f12scale2(e: F12, k: F2): F12 = e.foldl([], (l, c) => l.append(f2mul(c, k)))
  pure def fp6(a: int, b: int, c: int): F12 = [(a % P, b % P), f2zero, (c % P, a % P), f2zero, (b % P, (a + c) % P), f2zero]
  pure val SMALLQ: List[int] = [3, 13, 29, 67, 229, 311, 983, 11003]
  pure def root(q: int, x: int): int = powMod(2 + x, (P - 1) / q, P)
  pure def root2(q: int, x: int): F2 = f2pow((2 + x, 1), bitsOf((P^2 - 1) / q, 508))
  pure def outOfGt(n: int, e: F12, rnd: int): F12 =
    if (n % 6 == 0) f12scale(e, root(SMALLQ[n / 6 % 8], n / 48 % 4))
    else if (n % 6 == 1) f12scale2(e, root2(if (n / 6 % 2 == 0) 11 else 4, n / 12 % 8))
    else if (n % 6 == 2) f12scale2(e, (rnd % P, rnd / 7 % P))
    else if (n % 6 == 3) f12mul(e, fp6(rnd, n / 6, rnd / 3))
    else if (n % 6 == 4) f12mul(CYC12, f12mul(e, e))
    else e.replaceAt(n / 6 % 6, f2neg(e[n / 6 % 6]))
  action gtLoadRaw(d: int, w: List[int], f: str, cut: int): bool = {
    val e = unflat12(w.foldl([], (l, x) => l.append(unP(x))))
    if (cut == 0 and inRange(w, P) and inGt(e)) putGt(d, { ...EV0, op: "load", x: w, f: f }, { k: -1, e: e })
    else answer({ ...EV0, s: "gt", op: "load", a: [d], x: w, f: f, cut: cut, rej: true })
  }
  action gtForge(d: int, i: int, n: int, rnd: int, f: str): bool = {
    val c = n % 16
    val e = if (n / 64 % 2 == 0 and c < 12) outOfGt(n / 128, if (n / 128 % 5 == 0) f12one else gt[i].e, rnd)
            else if (c == 0) f12scale(gt[i].e, P - 1) else if (c == 1) f12scale(gt[i].e, BETA)
            else if (c == 2) f12scale(f12one, P - 1) else if (c == 3) GEN12 else if (c == 4) UNIT12 else if (c == 5) CYC12
            else if (c == 6) f12mul(CYC12, gt[i].e) else if (c == 7) f12scale(f12one, 0)
            else if (c == 8) f12scale(gt[i].e, 2 + rnd % (P - 2)) else if (c == 9) f12mul(UNIT12, gt[i].e)
            else if (c == 10) f12scale(f12one, BETA) else if (c == 11) f12scale(gt[i].e, 0) else gt[i].e
    val w0 = flat12(e).foldl([], (l, x) => l.append(montP(x)))
    val w = if (c >= 12) mutate(3, w0, n / 16 % 8, n / 2^10, rnd) else w0
    gtLoadRaw(d, w, f, if (n % 32 == 15 and f == "bin") 1 + n / 16 % 384 else if (n % 8 == 7 and (f == "tjson" or f == "tcbor")) 1 + n / 16 % 2^12 else 0)
  }
  action frForge(d: int, i: int, n: int, rnd: int, f: str): bool = any {
    frLoad(d, bigWord(n, rnd, R), f, 0),
    { val w = montR(fr[i]) frLoad(d, w + R * (1 + (if (w + 2 * R < 2^256) n % 2 else 0)), f, 0) },
    frLoad(d, rawWords(n % 8, n / 8, rnd), f, 0),
    frLoad(d, rawWords(n % 8, n / 8, rnd) % R, f, if (n % 4 == 1 and f == "bin") 1 + n / 16 % 32
                                                  else if (n % 2 == 1 and (f == "tjson" or f == "tcbor")) 1 + n / 16 % 2^12 else 0),
  }

  // ================================================================ streams
  // Values of several sorts written one after the other to one stream, alone or in containers, and
  // read back: every reader must consume exactly what its writer wrote.
  pure def valSize(s: str): int = if (s == "fr") 32 else if (s == "g1") 96 else if (s == "g2") 192 else 384
  pure def contSize(c: Cont, prefix: int): int =
    c.vals.foldl(if (c.c == "some") 1 else if (c.c == "vec") prefix else 0, (acc, v) => acc + valSize(v.s))
  def valOf(s: str, i: int): Val = {
    s: s, k: if (s == "fr") fr[i] else 0, el: if (s == "g1") g1[i] else if (s == "g2") g2[i] else ZEROEL,
    te: if (s == "gt") gt[i] else { k: 0, e: f12one },
  }
  pure def intact(b: List[Cont]): bool = b.foldl(true, (acc, c) => acc and not(c.broken))
  action stNew(f: str): bool = all { answer0({ ...EV0, s: "st", op: "new", f: f }), buf' = [], pend' = [], bufF' = f }
  /// v: bytes written with length prefixes of 8 and of 4 bytes (fixed-width formats)
  action stPut(c: str, s: str, regs: List[int]): bool = {
    val vals = if (c == "tuple") [valOf("fr", regs[0]), valOf("g1", regs[1]), valOf("g2", regs[2]), valOf("gt", regs[3])]
               else regs.foldl([], (l, i) => l.append(valOf(s, i)))
    val it = { c: c, s: s, vals: vals, broken: false }
    all {
      bufF != "", intact(buf), length(buf) < 6,
      answer0({ ...EV0, s: "st", op: "put", f: s, a: regs, x: [if (c == "one") 0 else if (c == "some") 1 else if (c == "vec") 2 else 3],
                v: if (bufF == "bin" or bufF == "fbin") [contSize(it, 8), contSize(it, 4)] else [] }),
      buf' = buf.append(it), pend' = pend, bufF' = bufF,
    }
  }
  /// the end of the stream is lost
  action stCut(n: int): bool = all {
    bufF == "bin" or bufF == "fbin", intact(buf), buf != [],
    val last = buf[length(buf) - 1]
    val len = contSize(last, 4)
    all {
      len > 0,
      answer0({ ...EV0, s: "st", op: "cut", x: [1 + n % len] }),
      buf' = buf.replaceAt(length(buf) - 1, { ...last, broken: true }), pend' = pend, bufF' = bufF,
    },
  }
  action stGet(s: str): bool = all {
    bufF != "", pend == [],
    if (buf == []) all { answer0({ ...EV0, s: "st", op: "get", f: s, x: [0], rej: true }), buf' = [], pend' = [], bufF' = "" }
    else {
      val c = buf.head()
      val e = { ...EV0, s: "st", op: "get", f: c.s, x: [if (c.c == "one") 0 else if (c.c == "some") 1 else if (c.c == "vec") 2 else 3] }
      if (c.broken) all { answer0({ ...e, rej: true }), buf' = [], pend' = [], bufF' = "" }
      else all { answer0({ ...e, v: [length(c.vals)] }), buf' = buf.tail(), pend' = c.vals, bufF' = bufF }
    },
  }
  action stTake(d: int): bool = all {
    pend != [],
    val v = pend.head()
    val e = { ...EV0, op: "take" }
    all {
      if (v.s == "fr") putFr0(d, e, v.k) else if (v.s == "g1") putG0(1, d, e, v.el)
      else if (v.s == "g2") putG0(2, d, e, v.el) else putGt0(d, e, v.te),
      buf' = buf, pend' = pend.tail(), bufF' = bufF,
    },
  }
  action stStep(d: int, i: int, j: int, k: int, n: int, s: str, c: str, f: str): bool =
    if (pend != []) stTake(d)
    else if (bufF == "") stNew(f)
    else if (length(buf) >= 6 or not(intact(buf))) stGet(s)
    else if (n % 5 <= 2)
      stPut(c, s, if (c == "one" or c == "some") [i] else if (c == "tuple") [i, j, k, d]
                  else [i, j, k].slice(0, n / 8 % 4))
    else if (buf == [] and n % 3 > 0) stNew(f)
    else if (n % 5 == 3 and n / 8 % 4 == 0 and buf != [] and (bufF == "bin" or bufF == "fbin")) stCut(n / 32)
    else stGet(s)

  // ================================================================ twins
  // Purity is broken by anything remembered between calls.  Two operands that agree in part of
  // their representation (some words, some coordinates) are made one after the other, and then
  // the same operation is applied to both: register 0 and register 1; register 3 is the other operand.
  pure def twinFr(v: int, n: int, rnd: int): int = if (n % 4 <= 2) twinWords(v, n / 4, rnd) else related(v, n / 4)
  /// representations that share coordinates with the one loaded last
  action gTwin(g: int, n: int, rnd: int): bool = {
    val e = reg(g)[0]
    val l = if (g == 1) LAM1 else LAM2
    val z = if (e.p.inf) f2one else if (g == 1) (unP(ev.enc[2]), 0) else (unP(ev.enc[4]), unP(ev.enc[5]))
    val im = { k: kMul(e.k, l), p: phi(e.p) }                    // (BETA x, y)
    val im2 = { k: kMul(im.k, l), p: phi(im.p) }
    if (e.p.inf) gLoad(g, 1, ZEROEL, lamOf(g, n % 6, n / 8, rnd), n % 2 == 0, "bin")
    else if (n % 7 == 0) gLoad(g, 1, elNeg(e), z, true, "bin")                       // (X, -Y, Z)
    else if (n % 7 == 1) gLoad(g, 1, elNeg(e), f2sub(f2zero, z), true, "bin")        // (X, Y, -Z)
    else if (n % 7 == 2) gLoad(g, 1, im, z, true, "bin")                             // (BETA X, Y, Z)
    else if (n % 7 == 3) gLoad(g, 1, im, f2scale(z, BETA), true, "bin")              // (X, Y, BETA Z)
    else if (n % 7 == 4) gLoad(g, 1, im2, f2scale(z, f2mul((BETA, 0), (BETA, 0))._1), true, "bin")
    else if (n % 7 == 5) gLoad(g, 1, fixK({ k: kAdd(e.k, 1), p: padd(e.p, if (g == 1) P1 else P2) }), z, true, "bin")  // same Z
    else gLoad(g, 1, e, lamOf(g, n / 8 % 6, n / 64, rnd), true, "bin")
  }
  action gOp(g: int, d: int, i: int, op: int): bool =
    if (op == 0) gMul(g, d, i, 3) else if (op == 1) gNorm(g, d, i) else if (op == 2) gAdd(g, d, i, 3) else if (op == 3) gNeg(g, d, i)
    else if (op == 4) (if (g == 1) gtPair(d, i, 3) else gtPair(d, 3, i)) else if (op == 5) gAdd(g, d, 3, i)
    else if (op == 6) gSub(g, d, i, 3) else gRt(g, d, i, "bin")
  action frOp(d: int, i: int, op: int, g: int): bool =
    if (op == 0) frInv(d, i) else if (op == 1) frPow(d, i, 3) else if (op == 2) frPow(d, 3, i) else if (op == 3) frMul(d, i, 3)
    else if (op == 4) frAdd(d, 3, i) else if (op == 5) frSub(d, i, 3) else if (op == 6) gMul(g, d, 3, i) else gtPow(d, 3, i)
  action gtOp(d: int, i: int, op: int): bool =
    if (op == 0) gtPow(d, i, 3) else if (op == 1) gtInv(d, i) else if (op == 2) gtMul(d, i, 3) else if (op == 3) gtMul(d, 3, i) else gtRt(d, i, "bin")
  /// the operation just performed on register 0, on register 1
  action again(d: int): bool = {
    val first = ev.a[1] == 0
    val g = if (ev.s == "g1") 1 else 2
    if (ev.s == "fr")
      frOp(d, 1, if (ev.op == "inv") 0 else if (ev.op == "pow") (if (first) 1 else 2) else if (ev.op == "mul") 3 else if (ev.op == "add") 4 else 5, 1)
    else if (ev.s == "gt") (
      if (ev.op == "pair") (if (first) gtPair(d, 1, 3) else gtPair(d, 3, 1))
      else if (ev.op == "pow" and not(first)) gtPow(d, 3, 1)
      else gtOp(d, 1, if (ev.op == "pow") 0 else if (ev.op == "inv") 1 else if (ev.op == "mul") (if (first) 2 else 3) else 4))
    else if (ev.op == "mul" and not(first)) gMul(g, d, 3, 1)
    else gOp(g, d, 1, if (ev.op == "mul") 0 else if (ev.op == "norm") 1 else if (ev.op == "add") (if (first) 2 else 5) else if (ev.op == "neg") 3
                      else if (ev.op == "sub") 6 else 7)
  }

  // ================================================================ profiles
  /// C01
  action stepScalar = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    // results go to the last three registers, so that operands stay extreme
    val r = 5 + d % 3
    any {
      frSet(d % 5, scal(kind, n, rnd)), frSet(d % 5, scal(kind, n, rnd)), frSet(d % 5, related(fr[i], n)), frArith(d, i, j, kind, n, rnd),
      frAdd(r, i, j), frAdd(r, i, j), frSub(r, i, j), frSub(r, i, j), frMul(r, i, j), frMul(r, i, j), frMul(r, i, i), frNeg(r, i),
      frPow(r, i, j), frInv(r, i), any { frZero(r), frOne(r), frInv(d, i) },
    }
  }
  /// C02
  action stepDecode = {
    nondet d = REG.oneOf() nondet i = REG.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    frDecode(d, i, kind, n, rnd)
  }
  /// C03
  action stepCanon = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any { frAlias(d, i, j, n, rnd), frAlias(d, i, j, n, rnd), frArith(d, i, j, kind, n, rnd) }
  }
  /// C04, C05, C07
  action stepPoints(g: int): bool = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    if (ev.mate >= 0 and ev.mate != ev.a[0]) gPairwise(g, d, n)
    else any {
      gArith(g, d, i, j, n, rnd), gArith(g, d, i, j, n, rnd), gArith(g, d, i, j, n, rnd), gArith(g, d, i, j, n, rnd),
      gAdd(g, d, i, j), gNear(g, d, j, n), gAlign(g, d, j, n), if (g == 1 and n % 2 == 0) gLine(d, i, n / 2, rnd) else gArith(g, d, i, j, n, rnd),
      if (g == 1) gLift(d, n, rnd) else gNew(g, d, kind, n, rnd),
    }
  }
  action stepG1 = stepPoints(1)
  action stepG2 = stepPoints(2)
  /// C07: mostly related points
  action stepEq = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      gRel(g, d, i, n, rnd), gRel(g, d, i, n, rnd), gRel(g, d, i, n, rnd), gArith(g, d, i, j, n, rnd), gNear(g, d, j, n), gNear(g, d, j, n),
      gArith(g, d, i, j, n, rnd), if (g == 1) gLine(d, i, n, rnd) else gAlign(g, d, j, n), gNorm(g, d, i),
      if (g == 1) gLift(d, n, rnd) else gNew(g, d, kind, n, rnd),
    }
  }
  /// C06
  action stepMul = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet s = REG.oneOf() nondet t = REG.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    // every new scalar is put to use before it is replaced
    if (ev.op == "mulf")
      any { gMul(g, d, i, ev.a[0]), gMul(g, d, i, ev.a[0]), gMul(g, d, i, ev.a[0]), mulLaw(i, j, ev.a[0], t), mulLaw(i, j, s, ev.a[0]) }
    else any {
      frSet(s, scal(kind, n, rnd)), frSet(s, scal(kind, n, rnd)), frSet(s, scal(kind, n, rnd)), frSet(s, scal(kind, n, rnd)),
      frSet(s, scal(kind, n, rnd)), frSet(s, related(fr[t], n)),
      gRel(g, d, i, n, rnd), gAdd(g, d, i, j), gNew(g, d, kind, n, rnd), gMul(g, d, i, s),
    }
  }
  /// C08
  action stepNorm = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      gNorm(g, d, i), gNorm(g, d, i), gNorm(g, d, i), gNorm(g, i, i), gArith(g, d, i, j, n, rnd), gArith(g, d, i, j, n, rnd), gSub(g, d, i, i),
      gRel(g, d, i, n, rnd), gRel(g, d, j, n, rnd), gLoad(g, d, ZEROEL, lamOf(g, 4, n, rnd), false, "bin"),
      if (g == 1) gLift(d, n, rnd) else gNew(g, d, kind, n, rnd),
    }
  }
  /// C09
  action stepBilinear = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet k = REG.oneOf() nondet l = REG.oneOf()
    nondet s = REG.oneOf() nondet t = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    if (ev.op == "mulf")
      { val u = ev.a[0]
        any { law("scal", [i, j, u, t], true), law("scal", [i, j, s, u], true), law("mov1", [i, j, u], true), law("mov2", [i, j, u], true),
              law("mov3", [i, j, u], true) } }
    else any {
      frSet(s, scal(kind, n, rnd)), frSet(s, scal(kind, n, rnd)), frSet(s, scal(kind, n, rnd)), frSet(s, related(fr[t], n)),
      gNew(g, d, kind, n, rnd), gNew(g, d, kind, n, rnd), gArith(g, d, i, j, n, rnd), gRel(g, d, i, n, rnd),
      lawStep(i, j, k, l, s, t), lawStep(i, j, k, l, s, t), lawStep(i, j, k, l, s, t), lawStep(i, j, k, l, s, t),
      lawStep(i, j, k, l, s, t), gtPair(d, i, j),
    }
  }
  /// C10
  action stepPair = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      gNew(g, d, kind, n, rnd), gArith(g, d, i, j, n, rnd), gRel(g, d, i, n, rnd), gNorm(g, d, i),
      gtPair(d, i, j), gtPair(d, i, j), gtPair(d, i, j), gtPair(d, i, j), gtPair(d, i, i), gtPair(d, i, j),
    }
  }
  /// C10: the definition itself, also for G1 points of unknown logarithm and extreme coordinates
  action stepPairRef = {
    nondet d = REG.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    if (ev.op == "" or ev.op == "pair") gLift(0, n, rnd)
    else if (ev.s == "g1") gNew(2, 0, if (kind < 3) 19 else kind, n, rnd)
    else gtPairRef(d, 0, 0)
  }
  /// C11
  action stepGt = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet s = REG.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    if (ev.op == "mulf") gtPow(d, i, ev.a[0])
    else any {
      frSet(s, scal(kind, n, rnd)), frSet(s, scal(kind, n, rnd)), frSet(s, related(fr[j], n)), gtPut(d, scal(kind, n, rnd), "bin"), gtRel(d, i, n, "bin"),
      gtMul(d, i, j), gtMul(d, i, j), gtMul(d, i, i), gtPow(d, i, s), gtInv(d, i), gtInv(d, i),
      any { gtOne(d), gtRt(d, i, "bin"), gtPow(d, i, j) },
    }
  }
  /// C12, C13: every value makes the round trip, and its copy is used afterwards
  action stepSer = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet s = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet f = FORMATS.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      frArith(d, i, j, kind, n, rnd), frRt(d, i, f), frRt(d, i, f), gArith(g, d, i, j, n, rnd), gArith(g, d, i, j, n, rnd),
      if (g == 1) gLift(d, n, rnd) else gNew(g, d, kind, n, rnd),
      gNear(g, d, j, n), gRt(g, d, i, f), gRt(g, d, i, f), gRt(g, d, j, f), gtPut(d, scal(kind, n, rnd), f), any { gtMul(d, i, j), gtRel(d, i, n, f) }, gtInv(d, i),
      gtRt(d, i, f), gtRt(d, i, f), gtRt(d, j, f), gtPow(d, i, s),
    }
  }
  /// C12, C13, C15: streams of values
  action stepStream = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet k = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet f = Set("bin", "fbin", "json", "cbor").oneOf() nondet s = Set("fr", "g1", "g2", "gt").oneOf()
    nondet c = Set("one", "some", "vec", "tuple").oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      stStep(d, i, j, k, n, s, c, f), stStep(d, i, j, k, n, s, c, f), stStep(d, i, j, k, n, s, c, f), stStep(d, i, j, k, n, s, c, f),
      stStep(d, i, j, k, n, s, c, f),
      frArith(d, i, j, kind, n, rnd), gArith(g, d, i, j, n, rnd), if (g == 1) gLift(d, n, rnd) else gNew(g, d, kind, n, rnd),
      gtPut(d, scal(kind, n, rnd), "bin"), any { gtMul(d, i, j), gtRel(d, i, n, "bin") },
    }
  }
  /// C14
  action stepLoad = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet f = Set("bin", "frag", "tjson", "tcbor", "writer").oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      frForge(d, i, n, rnd, f), gForge(1, d, i, n, rnd, f), gForge(1, d, i, n, rnd, f), gForge(2, d, i, n, rnd, f), gForge(2, d, i, n, rnd, f),
      gOther(g, d, n, rnd, f), gtForge(d, i, n, rnd, f), gtForge(d, i, n, rnd, f),
      any { frArith(d, i, j, kind, n, rnd), gLift(d, n, rnd), gNew(g, d, kind, n, rnd), gArith(g, d, i, j, n, rnd), gtPut(d, scal(kind, n, rnd), f) },
    }
  }
  /// C21: the same operation on operands that share part of their representation
  action stepTwin = {
    nondet d = 4.to(7).oneOf() nondet g = 1.to(2).oneOf() nondet op = 0.to(8).oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    val made = ev.op == "mulf" or ev.op == "load"
    val h = if (ev.s == "g1") 1 else 2
    if (made and ev.a[0] == 0)
      (if (ev.s == "fr") frSet(1, twinFr(fr[0], n, rnd)) else if (ev.s == "gt") gtPut(1, if (n % 2 == 0) (R - gt[0].k) % R else related(gt[0].k, n / 2), "bin")
       else gTwin(h, n, rnd))
    else if (made and ev.a[0] == 1 and op == 8)
      (if (ev.s == "fr") (if (n % 2 == 0) frMul(d, 1, 1) else frAdd(d, 1, 1)) else if (ev.s == "gt") gtMul(d, 1, 1)
       else if (n % 2 == 0) gAdd(h, d, 1, 1) else gSub(h, d, 1, 1))
    else if (made and ev.a[0] == 1)
      (if (ev.s == "fr") frOp(d, 0, op, g) else if (ev.s == "gt") gtOp(d, 0, op % 5) else gOp(h, d, 0, op))
    else if (ev.op != "" and not(made) and length(ev.a) >= 2 and (ev.a[1] == 0 or (length(ev.a) == 3 and ev.a[2] == 0))) again(d)
    else if (n % 8 == 0) any { frSet(3, scal(kind, n, rnd)), gNew(1, 3, kind, n, rnd), gNew(2, 3, kind, n, rnd), gtPut(3, scal(kind, n, rnd), "bin") }
    else if (n % 8 == 1) gtPut(0, scal(kind, n / 8, rnd), "bin")
    else if (n % 8 <= 4) frSet(0, scal(kind, n / 8, rnd))
    else gNew(g, 0, kind, n / 8, rnd)
  }
  /// C20, C21: everything
  action stepAll = {
    nondet d = REG.oneOf() nondet i = REG.oneOf() nondet j = REG.oneOf() nondet s = REG.oneOf() nondet g = 1.to(2).oneOf()
    nondet f = FORMATS.oneOf()
    nondet kind = KINDS.oneOf() nondet n = 0.to(2^60).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      frArith(d, i, j, kind, n, rnd), frArith(d, i, j, kind, n, rnd), frPow(d, i, j), frInv(d, i), frDecode(d, i, kind, n, rnd),
      frAlias(d, i, j, n, rnd), gArith(g, d, i, j, n, rnd), gArith(g, d, i, j, n, rnd), gArith(g, d, i, j, n, rnd),
      gNew(g, d, kind, n, rnd), gNorm(g, d, i), gMul(g, d, i, s), gtPair(d, i, j), gtPair(d, i, j), gtMul(d, i, j), gtPow(d, i, s), gtInv(d, i),
      gtPut(d, scal(kind, n, rnd), f), any { frMul(d, i, i), frAdd(d, i, i), frSub(d, i, i), gAdd(g, d, i, i), gSub(g, d, i, i), gtMul(d, i, i), gtMul(d, i, i), gtMul(d, i, j) },
      any { gRt(g, d, i, f), gtRt(d, i, f), frRt(d, i, f), frForge(d, i, n, rnd, f), gForge(g, d, i, n, rnd, f),
            gOther(g, d, n, rnd, f), gtForge(d, i, n, rnd, f), gtOne(d), gOne(g, d), gZero(g, d), frZero(d), frOne(d) },
    }
  }

  // ================================================================ invariants of the specification itself
  val inRanges: bool = fr.foldl(true, (acc, v) => acc and v >= 0 and v < R)
  val onCurves: bool = and {
    g1.foldl(true, (acc, e) => acc and onCurve(e.p, B1) and e.p.x._2 == 0 and e.p.y._2 == 0),
    g2.foldl(true, (acc, e) => acc and onCurve(e.p, B2)),
  }
  /// logarithm and value of the register written last agree (two independent computations)
  val logAgrees: bool =
    if (ev.rej or ev.s == "law" or ev.a == [] or ev.s == "fr") true
    else if (ev.s == "g1") { val e = g1[ev.a[0]] e.k < 0 or k1(e.k) == e.p }
    else if (ev.s == "g2") { val e = g2[ev.a[0]] e.k < 0 or k2(e.k) == e.p }
    else { val t = gt[ev.a[0]] t.k < 0 or ek(t.k) == t.e }
  /// unitary: the inverse in the target group is the conjugate
  val unitary: bool = gt.foldl(true, (acc, t) => acc and f12mul(t.e, f12conj(t.e)) == f12one)
  val lawsHold: bool = ev.s != "law" or ev.op == "peq" or ev.op == "pone" or ev.v == [1]
  val inv: bool = inRanges and onCurves and lawsHold
  val invDeep: bool = inv and logAgrees and unitary
}
