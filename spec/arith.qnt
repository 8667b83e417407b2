// arith.qnt -- the public 256/512-bit integers (rabe_bn::arith) by definition (Quint).
//
// State: the last eight 256-bit values and the last modulus seen, so that behaviours reuse
// and relate operands; `ev` is one call with its obligations.  Every obligation is stated on
// the integers the words denote: no limb, carry, Montgomery or binary-GCD step appears here
// (those are modelled and checked exhaustively in limbs.qnt, bea.qnt and divrem.qnt).
module arith {
  pure val R: int = 21888242871839275222246405745257275088548364400416034343698204186575808495617
  pure val P: int = 21888242871839275222246405745257275088696311157297823662689037894645226208583
  pure val W: int = 2^256
  type Ev = { op: str, x: List[int], v: List[int] }

  var r: List[int]   // recent values
  var m: int         // odd modulus below 2^254, at least 3
  var ev: Ev

  // ---------------------------------------------------------------- adversarial inputs
  pure val HW: List[int] = [0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
  pure def word(n: int, rnd: int, i: int): int = {
    val d = n / 8^i % 8
    if (d < 7) HW[d] else rnd / 2^(32 * i) % 2^32
  }
  pure def pat(n: int, rnd: int, k: int): int = range(0, k).foldl(0, (acc, i) => acc * 2^32 + word(n, rnd, i))
  pure def pat64(n: int, k: int): int =
    range(0, k).foldl(0, (acc, i) => acc * 2^64 + (if (n / 4^i % 4 == 0) 0 else if (n / 4^i % 4 == 1) 2^64 - 1 else if (n / 4^i % 4 == 2) 1 else 2^63))
  /// any integer below 2^bits, bits = 32 k
  pure def raw(n: int, rnd: int, k: int): int = {
    val c = n % 9
    val q = n / 9
    if (c == 0) pat64(q, k / 2) else if (c == 1) 2^(q % (32 * k)) else if (c == 2) 2^(q % (32 * k)) - 1
    else if (c == 3) rnd % 2^(32 * k) else if (c == 4) q % 20 else if (c == 5) 2^(32 * k) - 1 - q % 20
    else if (c == 6) rnd % 2^(1 + q % (32 * k)) else pat(q, rnd, k)
  }
  /// odd, 3 <= m < 2^254
  pure def modulus(n: int, rnd: int): int = {
    val c = n % 8
    val q = n / 8
    val a = if (c <= 1) R else if (c == 2) P else if (c == 3) 2^254 - 1 - 2 * (q % 8)
            else if (c == 4) 3 + 2 * (q % 8) else raw(q, rnd, 8) % 2^254
    val b = if (a % 2 == 0) a + 1 else a
    if (b < 3) 3 else b
  }
  /// next to a small multiple of md modulo a high power of two: binary Euclid shifts one bit at a time
  pure def slow(n: int, md: int): int = {
    val top = range(0, 256).foldl(0, (acc, i) => if (md >= 2^i) i + 1 else acc)
    val j = if (n % 3 == 0) 1 + n / 3 % top else top - n / 3 % (if (top < 12) top else 12)
    val s = [-1, -1, -1, -3, 1, 3, -5, 5][n / 2^10 % 8]
    (s * md % 2^j + 2^j) % 2^j + n / 2^13 % 9 * 2^j
  }
  /// a residue: reduced raw value, or one related to recent ones and to the modulus
  pure def residue(n: int, rnd: int, a: int, md: int): int = {
    val c = n % 11
    val q = n / 11
    val v = if (c == 0) a else if (c == 1) md - a % md else if (c == 2) md - 1 - q % 4 else if (c == 3) md / 2 + q % 3
            else if (c == 4) q % 4 else if (c == 5) a + 1 else if (c == 6) md - a % md + 1 else if (c == 7) slow(q, md) else raw(q, rnd, 8)
    (v % md + md) % md
  }

  // ---------------------------------------------------------------- definitions
  pure def egcdStep(s: (int, int, int, int)): (int, int, int, int) =
    if (s._2 == 0) s else { val q = s._1 / s._2 (s._2, s._1 - q * s._2, s._4, s._3 - q * s._4) }
  pure def egcd(a: int, md: int): (int, int, int, int) =
    range(0, 384).foldl((md, a % md, 0, 1), (s, i) => egcdStep(s))
  pure def invMod(a: int, md: int): int = (egcd(a, md)._3 % md + md) % md
  pure def gcd(a: int, md: int): int = egcd(a, md)._1
  pure def bytesBE(v: int, len: int): List[int] =
    range(0, len).foldl({ l: [], m: v }, (s, i) => { l: [s.m % 256].concat(s.l), m: s.m / 256 }).l
  /// 64-bit words least significant first, each big-endian, as one integer of 256 bits
  pure def layout(v: int): int = range(0, 4).foldl(0, (acc, i) => acc * 2^64 + v / 2^(64 * i) % 2^64)
  /// k words least significant first, each little-endian: the serialized form
  pure def bytesLE(v: int, k: int): int = range(0, k).foldl(0, (acc, i) => acc * 256 + v / 2^(8 * i) % 256)
  pure def layoutLE(v: int): int = bytesLE(v, 32)
  /// collecting words: their little-endian bytes in order, cut or zero-padded to 64 bytes, read big-endian
  pure def collected(ws: List[int]): int =
    range(0, 8).foldl(0, (acc, i) => acc * 2^64 + (if (i < length(ws)) bytesLE(ws[i], 8) else 0))
  pure def bit(v: int, i: int): int = v / 2^i % 2

  // ---------------------------------------------------------------- transitions
  action init = all { r' = [0, 1, 2, R - 1, R, P - 1, P, W - 1], m' = R, ev' = { op: "", x: [], v: [] } }
  action call(op: str, x: List[int], v: List[int], d: int, keep: int, md: int): bool =
    all { ev' = { op: op, x: x, v: v }, r' = r.replaceAt(d, keep), m' = md }
  action modStep(d: int, i: int, j: int, n: int, k: int, rnd: int): bool = {
    val md = if (n % 4 == 0) modulus(n / 4, rnd) else m
    val a = residue(n / 64, rnd, r[i], md)
    val b = residue(k, rnd / 2^256, if (k % 3 == 0) a else r[j], md)
    val ninv = (2^64 - invMod(md % 2^64, 2^64)) % 2^64
    val add = (a + b) % md
    val mul = a * b % md * invMod(W % md, md) % md
    any {
      call("add", [a, b, md], [add], d, a, md),
      call("sub", [a, b, md], [(a - b + md) % md], d, b, md),
      call("neg", [a, md], [(md - a) % md], d, a, md),
      call("mul", [a, b, md, ninv], [mul], d, mul, md),
      call("mul", [a, b, md, ninv], [mul], d, mul, md),
      call("mul", [a, b, md, ninv], [mul], d, mul, md),
      { val c = if (a != 0 and gcd(a, md) == 1) a else md - 1
        call("invert", [c, md], [invMod(c, md)], d, c, md) },
      { val c = if (b != 0 and gcd(b, md) == 1) b else 1
        call("invert", [c, md], [invMod(c, md)], d, c, md) },
    }
  }
  action bitStep(d: int, i: int, n: int, k: int, rnd: int): bool = {
    val a = raw(n, rnd, 8)
    val p = k % 256
    val b = if (k % 5 == 0) a else if (k % 5 == 1) (a + 2^p) % W else if (k % 5 == 2) (a - 2^p + W) % W else if (k % 5 == 3) r[i] else raw(k, rnd / 2^256, 8)
    val big = [256, 257, 300, 511, 512, 1000, 2^32, 2^63, 2^64 - 1]
    any {
      call("cmp", [a, b], if (a < b) [0, 0, 0, 1, 0] else if (a == b) [1, 1, 1, 0, 1] else [2, 2, 0, 0, 1], d, a, m),
      call("cmp", [a, b], if (a < b) [0, 0, 0, 1, 0] else if (a == b) [1, 1, 1, 0, 1] else [2, 2, 0, 0, 1], d, b, m),
      call("even", [a], [(a + 1) % 2], d, a, m),
      { val c = if (k % 3 == 0) 0 else if (k % 3 == 1) 2^(n % 256) else a call("iszero", [c], [if (c == 0) 1 else 0], d, a, m) },
      call("consts", [], [0, 1], d, a, m),
      call("getbit", [a, p], [bit(a, p)], d, a, m),
      call("getbit", [a, big[k % 9]], [2], d, a, m),
      call("setbit", [a, p, n % 2], [a - bit(a, p) * 2^p + (n % 2) * 2^p, 1], d, a, m),
      call("setbit", [a, big[k % 9], n % 2], [a, 0], d, a, m),
      call("bits", [a], [a, 256], d, a, m),
      call("slice", bytesBE(a, 32), [a], d, a, m),
      call("slice", bytesBE(rnd, [0, 1, 31, 33, 64, 8, 16, 63, 40][k % 9]), [-1], d, a, m),
      call("bytes", [a], [layout(a)], d, a, m),
      call("from", [a], [a], d, a, m),
      call("ser", [a], [layoutLE(a), a], d, a, m),
      call("show", [a], [a], d, a, m),
    }
  }
  action wideStep(d: int, i: int, j: int, n: int, k: int, rnd: int): bool = {
    // any modulus below 2^254, even ones and tiny ones included
    val md0 = if (n % 3 == 0) modulus(n / 4, rnd) else if (n % 3 == 1) m else raw(n / 4, rnd, 8) % 2^254
    val md = if (md0 == 0) 1 else md0
    val q0 = raw(k, rnd / 2^200, 8)
    val q = if (k % 11 < 4) (md + k % 11 - 2 + W) % W else q0
    val rem = residue(n / 64, rnd, r[i], md)
    val comp = q * md + rem
    val a = if (n % 5 == 0) raw(k, rnd, 16) else comp
    val c0 = raw(n, rnd, 8)
    val c1 = raw(k, rnd / 2^256, 8)
    val mm = raw(n / 5 + k / 3, rnd / 2^128, 8)
    any {
      call("divrem", [a, md], [a % md, if (a / md < md) a / md else -1], d, a % md, m),
      call("divrem", [a, md], [a % md, if (a / md < md) a / md else -1], d, a / md % W, m),
      call("divrem", [comp, md], [rem, if (q < md) q else -1], d, rem, m),
      call("from5", [c1, c0, mm], [c1 * mm + c0], d, c1, m),
      call("from5", [q, rem, md], [comp], d, q, m),
      call("wgetbit", [a, k % 512], [bit(a, k % 512)], d, a % W, m),
      call("wgetbit", [a, 512 + n % 4], [2], d, a % W, m),
      call("interp", [a], [a], d, a % W, m),
      { val ws = range(0, [0, 1, 7, 8, 9, 12, 8, 8][k % 8]).foldl([], (acc, w) => acc.append(if (w < 8) a / 2^(64 * w) % 2^64 else rnd % 2^64))
        call("collect", ws, [collected(ws)], d, a % W, m) },
      call("wser", [a], [bytesLE(a, 64), a], d, a % W, m),
      call("wshow", [a], [a], d, a % W, m),
      { val b = if (n % 3 == 0) a else if (n % 3 == 1) (a + 2^(k % 512)) % 2^512 else (a / 2^256 % W) + a % W * W
        call("weq", [a, b], [if (a == b) 1 else 0], d, a % W, m) },
      call("interp", [raw(n, rnd, 16)], [raw(n, rnd, 16)], d, a % W, m),
    }
  }
  /// C16
  action step = {
    nondet d = 0.to(7).oneOf() nondet i = 0.to(7).oneOf() nondet j = 0.to(7).oneOf()
    nondet n = 0.to(2^80).oneOf() nondet k = 0.to(2^80).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any { modStep(d, i, j, n, k, rnd), modStep(d, i, j, n, k, rnd), bitStep(d, i, n, k, rnd) }
  }
  /// C17
  action stepWide = {
    nondet d = 0.to(7).oneOf() nondet i = 0.to(7).oneOf() nondet j = 0.to(7).oneOf()
    nondet n = 0.to(2^80).oneOf() nondet k = 0.to(2^80).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    wideStep(d, i, j, n, k, rnd)
  }
  // ---------------------------------------------------------------- laws
  /// Equations that hold for all operands, evaluated by the implementation on the first `many` of the
  /// operands of stream number `seed`: residues form a ring; inversion is an involution; the order, the
  /// bits and the encodings are those of the words; division undoes composition and composition division.
  pure val PRIMES: List[int] = [R, P, 3, 5, 65537, 2^61 - 1, 2^127 - 1, 2^252 + 27742317777372353535851937790883648493, 2^64 - 59, 2^128 - 159]
  action law(op: str, md: int, seed: int, many: int): bool = call(op, [md, seed % 2^62, many], [1], 0, r[0], m)
  /// C16
  action stepLaw = {
    nondet n = 0.to(2^80).oneOf() nondet k = 0.to(2^80).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any {
      law("c_ring", modulus(n, rnd), k, 40000), law("c_ring", modulus(n, rnd), k, 40000), law("c_inv", PRIMES[n % 10], k, 5000),
      law("c_order", R, k, 200000), law("c_bits", R, k, 5000),
    }
  }
  /// C17
  action stepWideLaw = {
    nondet n = 0.to(2^80).oneOf() nondet k = 0.to(2^80).oneOf() nondet rnd = 0.to(2^512 - 1).oneOf()
    any { law("c_div", modulus(n, rnd), k, 15000), law("c_div", modulus(n, rnd), k, 15000), law("c_wide", R, k, 5000), law("c_compose", R, k, 200000) }
  }
  // ---------------------------------------------------------------- the specification's own sanity
  val isResult: bool = (ev.op == "mul") implies (ev.v[0] * W - ev.x[0] * ev.x[1]) % ev.x[2] == 0 and ev.v[0] < ev.x[2]
  val isInverse: bool = (ev.op == "invert") implies (ev.v[0] * ev.x[0] % ev.x[1] == 1)
  val contract: bool = and {
    m % 2 == 1, m >= 3, m < 2^254,
    (ev.op == "mul") implies (ev.x[3] * ev.x[2] + 1) % 2^64 == 0,
    (ev.op == "divrem") implies (ev.x[1] > 0 and ev.x[1] < 2^254 and ev.x[0] < 2^512),
    ev.op == "from5" implies ev.v[0] < 2^512,
    r.foldl(true, (acc, v) => acc and v >= 0 and v < W),
  }
  val inv: bool = isResult and isInverse and contract
}
