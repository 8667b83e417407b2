// bias.qnt -- reduction of a wide random integer (Quint, checked by TLC).
// x uniform below 2^K reduced modulo m: one transition adds one x to the histogram.  No residue is
// ever more than one ahead of another, so the bias of a residue is below 2^-K and the statistical
// distance from uniform below m / 2^K: 2^-258 for 512-bit integers and the real order.
module bias {
  const K: int
  const M: int
  var m: int
  var x: int
  var h: List[int]
  action init = { nondet m0 = 1.to(M).oneOf() all { m' = m0, x' = 0, h' = range(0, m0).foldl([], (l, i) => l.append(0)) } }
  action step = all { m' = m, if (x < 2^K) all { h' = h.replaceAt(x % m, h[x % m] + 1), x' = x + 1 } else all { h' = h, x' = x } }
  val inv: bool = h.foldl(true, (ok, c) => ok and c - h[m - 1] <= 1 and c >= h[m - 1])
}
module biasToy { import bias(K = 8, M = 24).* }
