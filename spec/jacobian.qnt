// jacobian.qnt -- the group law in Jacobian coordinates on a toy curve (Quint, checked by TLC).
//
// The formulas of src/groups/mod.rs over the BN curve y^2 = x^3 + 3, p = 19, whose 13 points form
// a group of prime order.  Two registers hold points in ANY representation (every projective
// factor, every form of the identity that arithmetic produces) together with their logarithms as
// ghosts; all sequences of operations are explored.
module jacobian {
  pure val P: int = 19
  pure val R: int = 13
  pure val B: int = 3
  type J = { x: int, y: int, z: int }
  pure def md(v: int): int = ((v % P) + P) % P
  pure def inv19(a: int): int = range(1, P).foldl(0, (acc, i) => if (i * a % P == 1) i else acc)
  // ---- reference: affine multiples of (1, 2), index 0 unused
  pure def chord(x1: int, y1: int, x2: int, y2: int): (int, int) = {
    val l = if (x1 == x2 and y1 == y2) md(3 * x1 * x1 * inv19(md(2 * y1))) else md((y2 - y1) * inv19(md(x2 - x1)))
    val x3 = md(l * l - x1 - x2)
    (x3, md(l * (x1 - x3) - y1))
  }
  pure val MULT: List[(int, int)] =
    range(2, R).foldl([(0, 0), (1, 2)], (l, i) => l.append(chord(l[i - 1]._1, l[i - 1]._2, 1, 2)))
  // ---- the code's formulas
  pure val ZERO: J = { x: 0, y: 1, z: 0 }
  pure def dbl(p: J): J = {
    val a = md(p.x * p.x)
    val b = md(p.y * p.y)
    val c = md(b * b)
    val d = md(2 * (md((p.x + b) * (p.x + b)) - a - c))
    val e = md(3 * a)
    val x3 = md(e * e - 2 * d)
    { x: x3, y: md(e * (d - x3) - 8 * c), z: md(2 * p.y * p.z) }
  }
  pure def add(p: J, q: J): J =
    if (p.z == 0) q else if (q.z == 0) p
    else {
      val z1 = md(p.z * p.z)
      val z2 = md(q.z * q.z)
      val u1 = md(p.x * z2)
      val u2 = md(q.x * z1)
      val s1 = md(p.y * md(q.z * z2))
      val s2 = md(q.y * md(p.z * z1))
      if (u1 == u2 and s1 == s2) dbl(p)
      else {
        val h = md(u2 - u1)
        val i = md(4 * h * h)
        val j = md(h * i)
        val r = md(2 * (s2 - s1))
        val v = md(u1 * i)
        val x3 = md(r * r - j - 2 * v)
        { x: x3, y: md(r * (v - x3) - 2 * s1 * j), z: md((md((p.z + q.z) * (p.z + q.z)) - z1 - z2) * h) }
      }
    }
  pure def neg(p: J): J = if (p.z == 0) p else { ...p, y: md(-p.y) }
  pure def jeq(p: J, q: J): bool =
    if (p.z == 0) q.z == 0 else if (q.z == 0) false
    else md(p.x * q.z * q.z) == md(q.x * p.z * p.z) and md(p.y * md(q.z * q.z * q.z)) == md(q.y * md(p.z * p.z * p.z))
  pure def norm(p: J): J =
    if (p.z == 0) ZERO else { val i = inv19(p.z) { x: md(p.x * i * i), y: md(p.y * md(i * i * i)), z: 1 } }
  pure def mul(p: J, k: int): J =
    range(0, 4).foldl({ r: ZERO, on: false }, (t, n) => {
      val r = if (t.on) dbl(t.r) else t.r
      if (k / 2^(3 - n) % 2 == 1) { r: add(r, p), on: true } else { r: r, on: t.on }
    }).r
  /// the value of a representation: its multiple of the generator
  pure def denotes(p: J, k: int): bool =
    if (k == 0) p.z == 0
    else p.z != 0 and { val a = norm(p) a.x == MULT[k]._1 and a.y == MULT[k]._2 }
  pure def member(p: J): bool = p.z == 0 or md(p.y * p.y) == md(p.x * p.x * p.x + B * md(md(p.z * p.z * p.z) * md(p.z * p.z * p.z)))

  var a: J
  var b: J
  var ka: int
  var kb: int
  pure def rep(k: int, l: int): J =
    if (k == 0) (if (l == 0) ZERO else { x: md(l * l), y: md(l * l * l), z: 0 })
    else { val t = if (l == 0) 1 else l { x: md(MULT[k]._1 * t * t), y: md(MULT[k]._2 * md(t * t * t)), z: t } }
  action init = {
    nondet k = 0.to(R - 1).oneOf() nondet l = 0.to(P - 1).oneOf()
    nondet k2 = 0.to(R - 1).oneOf() nondet l2 = 0.to(P - 1).oneOf()
    all { a' = rep(k, l), ka' = k, b' = rep(k2, l2), kb' = k2 }
  }
  action put1(x: J, k: int): bool = all { a' = x, ka' = k, b' = b, kb' = kb }
  action step = any {
    put1(add(a, b), (ka + kb) % R), put1(add(a, neg(b)), (ka + R - kb) % R), put1(neg(a), (R - ka) % R),
    put1(add(a, a), 2 * ka % R), put1(norm(a), ka),
    all { a' = b, ka' = kb, b' = a, kb' = ka },
    { nondet k = 0.to(R - 1).oneOf() put1(mul(a, k), ka * k % R) },
  }
  val values: bool = denotes(a, ka) and member(a)
  val equality: bool = jeq(a, b) == (ka == kb) and jeq(b, a) == (ka == kb) and (a.z == 0) == (ka == 0)
  val canonical: bool = norm(norm(a)) == norm(a) and ((ka == kb) implies norm(a) == norm(b))
  /// every triple of coordinates is a member exactly when it denotes a multiple of the generator
  val inv: bool = values and equality and canonical
}
/// all coordinate triples, genuine or not: the membership test admits exactly the group
module membership {
  import jacobian.*
  var t: J
  action minit = {
    nondet x = 0.to(P - 1).oneOf() nondet y = 0.to(P - 1).oneOf() nondet z = 1.to(P - 1).oneOf()
    all { t' = { x: x, y: y, z: z }, a' = ZERO, b' = ZERO, ka' = 0, kb' = 0 }
  }
  action mstep = all { t' = t, a' = a, b' = b, ka' = ka, kb' = kb }
  val minv: bool = member(t) == 1.to(R - 1).exists(k => denotes(t, k))
}
