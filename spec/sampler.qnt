// sampler.qnt -- random sampling (Quint), checked against traces recorded from the real code.
//
// Sampling is a transition that advances the position in the generator's output and produces
// one value.  The specification says which values may be produced (genuine), how the position
// moves (every sample consumes fresh output), that a sample depends on enough of that output to
// be statistically uniform, and that what is produced is a function of the output alone.
// Recorded observations are consumed one per step; a step the specification does not allow is
// added to `bad` with its position and the obligation it breaks.
module sampler {
  import bn(
    P = 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    R = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    U = 4965661367192848881, BCOEF = 3, XI = (9, 1), NBITS = 254,
    GEN1 = ((1, 0), (2, 0)),
    GEN2 = ((10857046999023057135944570762232829481370756359578518086990519993285655852781,
             11559732032986387107991004021392285783925812861821192530917403151452391805634),
            (8495653923123431417604973247489272438418190587263600148770280649306958101930,
             4082367875863433681332203403145435568316851327593401208105741076214120093531))
  ).* from "./bn"

  /// kind: what was observed; sort: fr g1 g2 gt u256 u512; w: the value's representation words;
  /// drew: generator bytes consumed; n, m: sizes; c: counts
  type Obs = { kind: str, sort: str, w: List[int], drew: int, n: int, m: int, c: List[int] }
  const OBS: List[Obs]

  pure val WP: int = invMod(2^256 % P, P)
  pure def f2w(a: int, b: int): F2 = (a * WP % P, b * WP % P)
  pure def below(w: List[int], m: int): bool = w.foldl(true, (acc, x) => acc and x >= 0 and x < m)
  pure def onJ(b: F2, x: F2, y: F2, z: F2): bool = {
    val z2 = f2mul(z, z)
    z != f2zero and f2mul(y, y) == f2add(f2mul(x, f2mul(x, x)), f2mul(b, f2mul(z2, f2mul(z2, z2))))
  }
  pure def aff(x: F2, y: F2, z: F2): Pt = {
    val zi = f2inv(z)
    val z2 = f2mul(zi, zi)
    pt(f2mul(x, z2), f2mul(y, f2mul(z2, zi)))
  }
  pure val ORDER: List[int] = bitsOf(R, 254)
  /// a genuine, non-degenerate element (zero scalars, identities and units have negligible probability)
  pure def genuine(o: Obs): bool =
    if (o.sort == "fr") below(o.w, R) and o.w != [0]
    else if (o.sort == "g1") below(o.w, P) and onJ(B1, f2w(o.w[0], 0), f2w(o.w[1], 0), f2w(o.w[2], 0))
    else if (o.sort == "g2") and {
      below(o.w, P), onJ(B2, f2w(o.w[0], o.w[1]), f2w(o.w[2], o.w[3]), f2w(o.w[4], o.w[5])),
      o.n == 0 or pmul(aff(f2w(o.w[0], o.w[1]), f2w(o.w[2], o.w[3]), f2w(o.w[4], o.w[5])), ORDER).inf,
    }
    else if (o.sort == "gt") and {
      below(o.w, P),
      { val e: F12 = [f2w(o.w[0], o.w[1]), f2w(o.w[6], o.w[7]), f2w(o.w[2], o.w[3]), f2w(o.w[8], o.w[9]), f2w(o.w[4], o.w[5]), f2w(o.w[10], o.w[11])]
        (o.kind == "fed" or e != f12one) and f12pow(e, ORDER) == f12one },
    }
    else if (o.sort == "u256") below(o.w, o.m)
    else below(o.w, 2^512)
  /// how many of 0 .. n-1 fall in cell i, for the partition named by kind and parameter m
  pure def minI(a: int, b: int): int = if (a < b) a else b
  pure def weight(kind: str, n: int, m: int, i: int): int =
    if (kind == "top") minI(n, (i + 1) * m) - minI(n, i * m)               // v / m == i
    else if (kind == "mod") (n - i + m - 1) / m                            // v % m == i, i < m < n
    else { val half = 2^i val r = n % (2 * half)                           // bit i of v is set
           n / (2 * half) * half + (if (r > half) r - half else 0) }
  /// chi^2 <= k + sqrt(200 k + 3600): ten standard deviations, and more when k is small
  pure def chiOk(dof: int, chi: int): bool = chi <= dof or (chi - dof) * (chi - dof) <= 200 * dof + 3600
  /// rounded-down chi^2 of counts against weights out of total
  pure def chi(c: List[int], w: List[int], total: int): int = {
    val n = c.foldl(0, (a, x) => a + x)
    range(0, length(c)).foldl(0, (acc, i) =>
      if (w[i] == 0) (if (c[i] == 0) acc else acc + 10^9)
      else acc + 1000 * (c[i] * total - n * w[i]) * (c[i] * total - n * w[i]) / (n * w[i] * total)) / 1000
  }
  pure def weights(o: Obs): List[int] = range(0, length(o.c)).foldl([], (l, i) => l.append(weight(o.kind, o.n, o.m, i)))
  pure def uniform(o: Obs): bool =
    if (o.kind == "bits")
      range(0, length(o.c)).foldl(true, (acc, i) => {
        val w = weight("bits", o.n, 0, i)
        val d = o.c[i] * o.n - o.m * w
        acc and (if (w == 0) o.c[i] == 0 else d * d <= 81 * o.m * w * (o.n - w))
      })
    else if (o.kind == "pairs") {      // row-major cells (v / m, v' / m) of consecutive samples
      val k = (o.n + o.m - 1) / o.m
      val w = range(0, k * k).foldl([], (l, i) => l.append(weight("top", o.n, o.m, i / k) * weight("top", o.n, o.m, i % k)))
      chiOk(k * k - 1, chi(o.c, w, o.n * o.n))
    }
    else chiOk(length(o.c) - 1, chi(o.c, weights(o), o.n))
  /// A value uniform up to 2^-64 needs 64 bits beyond its own length, unless candidates out of
  /// range are rejected (m == 1: extreme generator output makes the sampler draw more).
  pure def entropy(o: Obs): bool = o.drew * 8 >= o.n and o.c[0] >= (if (o.m == 1) o.n else o.n + 64)

  var l: int
  var drawn: int
  var seen: Set[List[int]]
  var bad: List[(int, str)]

  action init = all { l' = 0, drawn' = 0, seen' = Set(), bad' = [] }
  /// one sample from a running generator
  action sample(o: Obs): bool = all {
    drawn' = drawn + o.drew,
    seen' = seen.union(Set(o.w)),
    bad' = if (not(genuine(o))) bad.append((l, "not a genuine element"))
           else if (seen.contains(o.w)) bad.append((l, "repeats an earlier sample"))
           else if (o.drew * 8 < 254) bad.append((l, "drew too little fresh randomness"))
           else bad,
  }
  /// chosen generator output: whatever it is, the result is an element
  action fed(o: Obs): bool = all {
    drawn' = drawn, seen' = seen,
    bad' = if (genuine(o)) bad
           else bad.append((l, "not a genuine element for this generator output")),
  }
  action verdict(ok: bool, why: str): bool = all {
    drawn' = drawn, seen' = seen, bad' = if (ok) bad else bad.append((l, why)),
  }
  action step = all {
    l < length(OBS),
    l' = l + 1,
    { val o = OBS[l]
      if (o.kind == "sample") sample(o)
      else if (o.kind == "fed") fed(o)
      else if (o.kind == "same") verdict(o.c == o.w, "the same generator output gave different samples")
      else if (o.kind == "distinct") verdict(o.n == o.m, "samples repeat")
      else if (o.kind == "entropy") verdict(entropy(o), "samples depend on too little generator output to be uniform")
      else verdict(uniform(o), "distribution is not uniform") },
  }
}
