// bea.qnt -- inversion by the binary extended Euclidean algorithm (Quint, checked by TLC).
//
// One transition is one halving or one subtraction of src/arith.rs U256::invert.  For every odd
// modulus below 2^(BITS-2) and every operand coprime to it: the Bezout relations a*b = u and
// a*c = v hold throughout, sums stay below 2^BITS, and the result is reached within 4*BITS steps.
module bea {
  const BITS: int
  pure def gcd(a: int, b: int): int = range(0, 2 * BITS).foldl((a, b), (t, i) => if (t._2 == 0) t else (t._2, t._1 % t._2))._1
  var a: int
  var m: int
  var u: int
  var v: int
  var b: int
  var c: int
  var n: int         // steps taken
  var big: bool      // a sum left the word
  var done: bool

  action init = {
    nondet m0 = 3.to(2^(BITS - 2) - 1).filter(x => x % 2 == 1).oneOf()
    nondet a0 = 1.to(m0 - 1).oneOf()
    all { gcd(a0, m0) == 1, m' = m0, a' = a0, u' = a0, v' = m0, b' = 1, c' = 0, n' = 0, big' = false, done' = false }
  }
  pure def half(x: int, mm: int): int = if (x % 2 == 0) x / 2 else (x + mm) / 2
  action step = all {
    a' = a, m' = m,
    if (done or u == 1 or v == 1) all { u' = u, v' = v, b' = b, c' = c, n' = n, big' = big, done' = true }
    else if (u % 2 == 0) all { u' = u / 2, b' = half(b, m), big' = big or b + m >= 2^BITS, v' = v, c' = c, n' = n + 1, done' = false }
    else if (v % 2 == 0) all { v' = v / 2, c' = half(c, m), big' = big or c + m >= 2^BITS, u' = u, b' = b, n' = n + 1, done' = false }
    else if (u >= v) all { u' = u - v, b' = (b - c + m) % m, v' = v, c' = c, n' = n + 1, big' = big, done' = false }
    else all { v' = v - u, c' = (c - b + m) % m, u' = u, b' = b, n' = n + 1, big' = big, done' = false },
  }
  val bezout: bool = (a * b - u) % m == 0 and (a * c - v) % m == 0
  val bounds: bool = b >= 0 and b < m + m and c >= 0 and c < m + m and not(big) and u >= 0 and v >= 1
  val bounded: bool = n <= 4 * BITS
  val result: bool = done implies { val r = if (u == 1) b else c r < m and a * r % m == 1 }
  val inv: bool = bezout and bounds and bounded and result
}
module beaToy { import bea(BITS = 8).* }
module beaToy2 { import bea(BITS = 10).* }
