// divrem.qnt -- bitwise division of a double-width integer (Quint, checked by TLC).
//
// One transition is one bit of src/arith.rs U512::divrem with words of BITS bits.  Every dividend
// below 2^(2*BITS) and every modulus below 2^(BITS-2) is explored.
module divrem {
  const BITS: int
  var x: int
  var m: int
  var i: int         // bits still to come
  var r: int
  var q: int         // -1: the quotient does not fit
  var spill: bool

  action init = {
    nondet x0 = 0.to(2^(2 * BITS) - 1).oneOf()
    nondet m0 = 1.to(2^(BITS - 2) - 1).oneOf()
    all { x' = x0, m' = m0, i' = 2 * BITS, r' = 0, q' = 0, spill' = false }
  }
  action step = all {
    x' = x, m' = m,
    if (i == 0) all { i' = 0, r' = r, q' = q, spill' = spill }
    else {
      val r2 = 2 * r + x / 2^(i - 1) % 2
      all {
        i' = i - 1, spill' = spill or r2 >= 2^BITS,
        if (r2 >= m) all { r' = r2 - m, q' = if (q < 0 or i - 1 >= BITS) -1 else q + 2^(i - 1) }
        else all { r' = r2, q' = q },
      }
    },
  }
  val loop: bool = r < m and not(spill) and (x / 2^i) % m == r and (q < 0 or q * 2^0 * m + r * 2^i + x % 2^i == x)
  val result: bool = i == 0 implies {
    val out = if (q >= 0 and q >= m) -1 else q
    r == x % m and (if (x / m < m) out == x / m else out == -1)
  }
  val inv: bool = loop and result
}
module divremToy { import divrem(BITS = 4).* }
module divremToy2 { import divrem(BITS = 6).* }
