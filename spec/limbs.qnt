// limbs.qnt -- multi-limb arithmetic with half-word carries (Quint, checked by TLC).
//
// The algorithms of src/arith.rs with a word of 2*H bits and N words: addition and subtraction
// with a half-word carry chain, comparison from the top word, and Montgomery multiplication by
// accumulating digit products and cancelling the low words.  One transition is one word of one
// inner loop.  H >= 2: five half-word digits must fit one word, as they do in the code (H = 32).
module limbs {
  const H: int       // bits of a half word
  const N: int       // words
  const MODS: Set[int]   // odd moduli below 2^(2*H*N - 2)
  const DIGITS: Set[int] // words operands are built from

  pure val HB: int = 2^H
  pure val WB: int = 2^(2 * H)
  pure val FULL: int = 2^(2 * H * N)
  pure def limb(v: int, i: int): int = v / WB^i % WB
  pure def toLimbs(v: int, n: int): List[int] = range(0, n).foldl([], (l, i) => l.append(limb(v, i)))
  pure def value(l: List[int]): int = range(0, length(l)).foldl(0, (a, i) => a + l[i] * WB^i)
  /// -m^-1 modulo one word
  pure def negInv(m: int): int = range(0, WB).foldl(0, (a, k) => if ((k * m + 1) % WB == 0) k else a)

  type S = { op: str, a: int, b: int, m: int, ph: str, acc: List[int], i: int, j: int, dig: int, carry: int, over: bool }
  var s: S

  action init = {
    nondet op = Set("add", "sub", "mul").oneOf()
    nondet m = MODS.oneOf()
    nondet a = 0.to(m - 1).filter(x => range(0, N).foldl(true, (ok, k) => ok and DIGITS.contains(limb(x, k)))).oneOf()
    nondet b = 0.to(m - 1).filter(x => range(0, N).foldl(true, (ok, k) => ok and DIGITS.contains(limb(x, k)))).oneOf()
    s' = { op: op, a: a, b: b, m: m, over: false, i: 0, j: 0, dig: 0, carry: 0,
           ph: if (op == "mul") "row" else if (op == "sub" and a < b) "lift" else "word",
           acc: if (op == "mul") toLimbs(0, 2 * N) else toLimbs(a, N) }
  }
  /// adc: two half-word additions
  pure def adc(x: int, y: int, c: int): (int, int) = {
    val lo = x % HB + y % HB + c
    val hi = x / HB + y / HB + lo / HB
    (hi % HB * HB + lo % HB, hi / HB)
  }
  /// sbb: two half-word subtractions from a borrowed-in half word
  pure def sbb(x: int, y: int, c: int): (int, int) = {
    val lo = HB + x % HB - y % HB - c
    val hi = HB + x / HB - y / HB - (if (lo / HB == 0) 1 else 0)
    (hi % HB * HB + lo % HB, if (hi / HB == 0) 1 else 0)
  }
  /// mac_with_carry: word, carry, and whether an intermediate left its word
  pure def mac(a: int, b: int, c: int, carry: int): (int, int, bool) = {
    val x = (b % HB) * (c % HB) + a % HB + carry % HB
    val y = (b % HB) * (c / HB)
    val z = (b / HB) * (c % HB)
    val r = x / HB + y % HB + z % HB + a / HB + carry / HB
    val k = (b / HB) * (c / HB) + r / HB + y / HB + z / HB
    (r % HB * HB + x % HB, k, x >= WB or r >= WB or k >= WB)
  }
  pure def other(t: S): int = if (t.ph == "lift" or t.ph == "fix") t.m else t.b
  /// one word of an addition or subtraction; ph: word (the operation), lift (+m before), fix (-m after)
  action word = all {
    Set("word", "lift", "fix").contains(s.ph), s.i < N,
    { val y = limb(other(s), s.i)
      val r = if (s.ph == "lift" or (s.ph == "word" and s.op == "add")) adc(s.acc[s.i], y, s.carry) else sbb(s.acc[s.i], y, s.carry)
      s' = { ...s, acc: s.acc.replaceAt(s.i, r._1), carry: r._2, i: s.i + 1 } },
  }
  action wordEnd = all {
    Set("word", "lift", "fix").contains(s.ph), s.i == N,
    s' = if (s.ph == "lift") { ...s, ph: "word", i: 0, over: s.over or s.carry != 0, carry: 0 }
         else if (s.ph == "word" and s.op == "add" and value(s.acc) >= s.m) { ...s, ph: "fix", i: 0, over: s.over or s.carry != 0, carry: 0 }
         else { ...s, ph: "done", over: s.over or s.carry != 0, carry: 0 },
  }
  /// next row of the product (row) or of the reduction (red)
  action row = all {
    s.ph == "row" or s.ph == "red",
    s' = if (s.i == N) (if (s.ph == "row") { ...s, ph: "red", i: 0 } else { ...s, ph: "top" })
         else {
           val d = if (s.ph == "row") limb(s.a, s.i) else negInv(s.m) * s.acc[s.i] % WB
           if (d == 0) { ...s, i: s.i + 1 } else { ...s, ph: if (s.ph == "row") "mac" else "macred", j: 0, dig: d, carry: 0 }
         },
  }
  action macStep = all {
    s.ph == "mac" or s.ph == "macred",
    { val k = s.i + s.j
      val back = if (s.ph == "mac") "row" else "red"
      if (k == 2 * N or (s.j >= N and s.carry == 0)) s' = { ...s, ph: back, i: s.i + 1, over: s.over or s.carry != 0, carry: 0 }
      else {
        val w = if (s.j >= N) 0 else limb(if (s.ph == "mac") s.b else s.m, s.j)
        val r = mac(s.acc[k], w, s.dig, s.carry)
        s' = { ...s, acc: s.acc.replaceAt(k, r._1), carry: r._2, over: s.over or r._3, j: s.j + 1 }
      } },
  }
  action top = all {
    s.ph == "top",
    { val t = s.acc.slice(N, 2 * N)
      s' = if (value(t) >= s.m) { ...s, acc: t, ph: "fix", i: 0, carry: 0 } else { ...s, acc: t, ph: "done" } },
  }
  action stay = all { s.ph == "done", s' = s }
  action step = any { word, wordEnd, row, macStep, top, stay }

  /// no intermediate overflows its word, no carry or borrow is lost
  val noOverflow: bool = not(s.over)
  val inWords: bool = s.acc.foldl(true, (a, x) => a and x >= 0 and x < WB)
  /// before the last subtraction a Montgomery product is below 2m
  val almost: bool = s.ph == "top" implies value(s.acc.slice(N, 2 * N)) < 2 * s.m and value(s.acc.slice(0, N)) == 0
  val exact: bool = s.ph == "done" implies {
    val v = value(s.acc)
    v < s.m and (if (s.op == "add") v == (s.a + s.b) % s.m else if (s.op == "sub") v == (s.a + s.m - s.b) % s.m
                 else (v * FULL - s.a * s.b) % s.m == 0)
  }
  val inv: bool = noOverflow and inWords and almost and exact
}
/// every odd modulus below 2^6 and every operand
module limbsToy { import limbs(H = 2, N = 2, MODS = 0.to(31).map(x => 2 * x + 1), DIGITS = 0.to(15)).* }
/// three words, extreme moduli, operands of extreme words
module limbsToy3 { import limbs(H = 2, N = 3, MODS = Set(1023, 1021, 769, 513, 991, 257), DIGITS = Set(0, 1, 7, 8, 14, 15)).* }
