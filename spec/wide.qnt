// wide.qnt -- the word and loop steps of src/arith.rs at their real width (Quint, checked by Apalache).
//
// limbs.qnt, divrem.qnt and bea.qnt explore whole computations on small words.  Here single steps are
// decided symbolically for every 64-bit word, every 256-bit integer and every state of a loop that
// satisfies its invariant: an inductive proof at the width of the code.  Products of two unknowns are
// replaced by bounded unknowns (or by ghosts updated linearly), which only adds states.

// ---------------------------------------------------------------- one word
module words {
  pure val H: int = 2^32
  pure val W: int = 2^64
  type In = { a: int, b: int, c: int, hh: int, hl: int, lh: int, ll: int }
  var s: In
  action init = {
    nondet a = Int.oneOf() nondet b = Int.oneOf() nondet c = Int.oneOf()
    nondet hh = Int.oneOf() nondet hl = Int.oneOf() nondet lh = Int.oneOf() nondet ll = Int.oneOf()
    all {
      0 <= a, a < W, 0 <= b, b < W, 0 <= c, c < W,
      0 <= hh, hh <= (H - 1) * (H - 1), 0 <= hl, hl <= (H - 1) * (H - 1),
      0 <= lh, lh <= (H - 1) * (H - 1), 0 <= ll, ll <= (H - 1) * (H - 1),
      s' = { a: a, b: b, c: c, hh: hh, hl: hl, lh: lh, ll: ll },
    }
  }
  action step = s' = s

  /// adc: two half-word additions
  pure def adc(x: int, y: int, c: int): (int, int) = {
    val lo = x % H + y % H + c
    val hi = x / H + y / H + lo / H
    (hi % H * H + lo % H, hi / H)
  }
  val adcExact: bool = s.c <= 1 implies {
    val r = adc(s.a, s.b, s.c)
    r._1 + r._2 * W == s.a + s.b + s.c and r._2 <= 1 and 0 <= r._1 and r._1 < W
  }
  /// sbb: two half-word subtractions from a borrowed-in half word
  pure def sbb(x: int, y: int, c: int): (int, int) = {
    val lo = H + x % H - y % H - c
    val hi = H + x / H - y / H - (if (lo / H == 0) 1 else 0)
    (hi % H * H + lo % H, if (hi / H == 0) 1 else 0)
  }
  val sbbExact: bool = s.c <= 1 implies {
    val r = sbb(s.a, s.b, s.c)
    r._1 - r._2 * W == s.a - s.b - s.c and 0 <= r._1 and r._1 < W
  }
  /// mac_with_carry with the four half-word products of b and c as unknowns
  val macExact: bool = {
    val a = s.a
    val carry = s.c
    val x = s.ll + a % H + carry % H
    val r = x / H + s.lh % H + s.hl % H + a / H + carry / H
    val k = s.hh + r / H + s.lh / H + s.hl / H
    val out = r % H * H + x % H
    x < W and r < W and k < W and out < W and
    out + k * W == a + carry + s.ll + (s.lh + s.hl) * H + s.hh * W
  }
  val inv: bool = adcExact and sbbExact and macExact
}

// ---------------------------------------------------------------- modular addition, subtraction, negation
module modular {
  pure val FULL: int = 2^256
  type In = { a: int, b: int, m: int }
  var s: In
  /// every modulus below 2^255, every operand below it
  action init = {
    nondet a = Int.oneOf() nondet b = Int.oneOf() nondet m = Int.oneOf()
    all { 1 <= m, m < FULL / 2, 0 <= a, a < m, 0 <= b, b < m, s' = { a: a, b: b, m: m } }
  }
  action step = s' = s
  val addExact: bool = {
    val t = s.a + s.b
    val r = if (t >= s.m) t - s.m else t
    t < FULL and 0 <= r and r < s.m and (r == t or r == t - s.m)
  }
  val subExact: bool = {
    val t = if (s.a < s.b) s.a + s.m else s.a
    val r = t - s.b
    t < FULL and 0 <= r and r < s.m and (r == s.a - s.b or r == s.a - s.b + s.m)
  }
  val negExact: bool = {
    val r = if (s.a > 0) s.m - s.a else s.a
    0 <= r and r < s.m and (r + s.a == 0 or r + s.a == s.m)
  }
  val inv: bool = addExact and subExact and negExact
}

// ---------------------------------------------------------------- Montgomery reduction
/// the quotient (t + k m) / 2^256 of any product below m^2 needs one subtraction, M a field modulus
module redc {
  const M: int
  pure val FULL: int = 2^256
  type In = { t: int, k: int, u: int }
  var s: In
  action init = {
    nondet t = Int.oneOf() nondet k = Int.oneOf() nondet u = Int.oneOf()
    all { 0 <= t, t <= (M - 1) * (M - 1), 0 <= k, k < FULL, u * FULL == t + k * M, s' = { t: t, k: k, u: u } }
  }
  action step = s' = s
  val inv: bool = 0 <= s.u and s.u < 2 * M and s.t + s.k * M < FULL * FULL and
    { val r = if (s.u >= M) s.u - M else s.u  r < M and (r * FULL - s.t) % M == 0 }
}
module redcR { import redc(M = 21888242871839275222246405745257275088548364400416034343698204186575808495617).* }
module redcP { import redc(M = 21888242871839275222246405745257275088696311157297823662689037894645226208583).* }

// ---------------------------------------------------------------- division
/// One bit of U512::divrem from any state that satisfies the invariant.  t: the bits of the dividend
/// consumed so far; qm: ghost, quotient times modulus; q: quotient so far.
module division {
  pure val FULL: int = 2^256
  type S = { m: int, t: int, q: int, qm: int, r: int, spill: bool }
  var s: S
  pure def ind(x: S): bool = and {
    1 <= x.m, x.m < FULL / 2, 0 <= x.r, x.r < x.m, x.t == x.qm + x.r, 0 <= x.q, x.q <= x.qm, not(x.spill),
  }
  action init = {
    nondet m = Int.oneOf()
    all { 1 <= m, m < FULL / 2, s' = { m: m, t: 0, q: 0, qm: 0, r: 0, spill: false } }
  }
  action anywhere = {
    nondet m = Int.oneOf() nondet t = Int.oneOf() nondet q = Int.oneOf() nondet qm = Int.oneOf() nondet r = Int.oneOf()
    val x = { m: m, t: t, q: q, qm: qm, r: r, spill: false }
    all { ind(x), s' = x }
  }
  action step = {
    nondet bit = Set(0, 1).oneOf()
    val r2 = 2 * s.r + bit
    s' = if (r2 >= s.m) { ...s, t: 2 * s.t + bit, q: 2 * s.q + 1, qm: 2 * s.qm + s.m, r: r2 - s.m, spill: s.spill or r2 >= FULL }
         else { ...s, t: 2 * s.t + bit, q: 2 * s.q, qm: 2 * s.qm, r: r2, spill: s.spill or r2 >= FULL }
  }
  val inv: bool = ind(s)
}

// ---------------------------------------------------------------- inversion
/// One step of U256::invert (binary extended Euclid) from any state that satisfies the invariant, M a
/// field modulus.  Ghosts: ab = a b, ac = a c for the operand a; am = a M; kb, kc with a b = u + kb M,
/// a c = v + kc M.  A step either halves or subtracts; u + v falls in every step.
module inversion {
  const M: int
  pure val FULL: int = 2^256
  type S = { a: int, u: int, v: int, b: int, c: int, ab: int, ac: int, kb: int, kc: int, small: bool, down: bool }
  var s: S
  pure def ind(x: S): bool = and {
    0 < x.a, x.a < M, 1 <= x.u, x.u <= M, 1 <= x.v, x.v <= M, 0 <= x.b, x.b < M, 0 <= x.c, x.c < M,
    x.ab == x.u + x.kb * M, x.ac == x.v + x.kc * M, x.small, x.down,
  }
  action init = {
    nondet a = Int.oneOf() nondet kc = Int.oneOf()
    val x = { a: a, u: a, v: M, b: 1, c: 0, ab: a, ac: 0, kb: 0, kc: -1, small: true, down: true }
    all { 0 < a, a < M, s' = x }
  }
  action anywhere = {
    nondet a = Int.oneOf() nondet u = Int.oneOf() nondet v = Int.oneOf() nondet b = Int.oneOf() nondet c = Int.oneOf()
    nondet ab = Int.oneOf() nondet ac = Int.oneOf() nondet kb = Int.oneOf() nondet kc = Int.oneOf()
    val x = { a: a, u: u, v: v, b: b, c: c, ab: ab, ac: ac, kb: kb, kc: kc, small: true, down: true }
    all { ind(x), s' = x }
  }
  /// u (or v) even: halve it and its coefficient; h is half of the ghost product, kh the new cofactor
  action halve(first: bool): bool = {
    val u = if (first) s.u else s.v
    val b = if (first) s.b else s.c
    val ab = if (first) s.ab else s.ac
    nondet h = Int.oneOf()
    nondet kh = Int.oneOf()
    val t = if (b % 2 == 0) b else b + M
    val n = { ...s, small: s.small and t < FULL, down: s.down and u / 2 < u }
    all {
      u % 2 == 0,
      // exists because a b is even when b is, and a (b + M) when b + M is
      2 * h == (if (b % 2 == 0) ab else ab + aM),
      h == u / 2 + kh * M,
      s' = if (first) { ...n, u: u / 2, b: t / 2, ab: h, kb: kh } else { ...n, v: u / 2, c: t / 2, ac: h, kc: kh },
    }
  }
  val aM: int = s.a * M
  /// both odd and different: subtract the smaller
  action subtract = {
    val bc = if (s.b < s.c) s.b + M - s.c else s.b - s.c
    val cb = if (s.c < s.b) s.c + M - s.b else s.c - s.b
    all {
      s.u != s.v,
      s' = if (s.u > s.v)
             { ...s, u: s.u - s.v, b: bc, ab: if (s.b < s.c) s.ab - s.ac + aM else s.ab - s.ac,
               kb: if (s.b < s.c) s.kb - s.kc + s.a else s.kb - s.kc, down: s.down and s.u - s.v < s.u }
           else
             { ...s, v: s.v - s.u, c: cb, ac: if (s.c < s.b) s.ac - s.ab + aM else s.ac - s.ab,
               kc: if (s.c < s.b) s.kc - s.kb + s.a else s.kc - s.kb, down: s.down and s.v - s.u < s.v },
    }
  }
  action step = any { halve(true), halve(false), subtract }
  val inv: bool = ind(s)
  /// the ghosts asked for by a halving step exist: a cofactor is even when u and the product are
  val ghosts: bool = and {
    (s.u % 2 == 0 and s.ab % 2 == 0) implies s.kb % 2 == 0,
    (s.v % 2 == 0 and s.ac % 2 == 0) implies s.kc % 2 == 0,
    (s.u % 2 == 0 and (s.ab + aM) % 2 == 0) implies (s.kb + s.a) % 2 == 0,
    (s.v % 2 == 0 and (s.ac + aM) % 2 == 0) implies (s.kc + s.a) % 2 == 0,
  }
}
module inversionR { import inversion(M = 21888242871839275222246405745257275088548364400416034343698204186575808495617).* }
module inversionP { import inversion(M = 21888242871839275222246405745257275088696311157297823662689037894645226208583).* }
