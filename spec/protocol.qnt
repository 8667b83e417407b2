// protocol.qnt -- pairing protocols under every schedule (Quint).
//
// Two- and three-party Diffie-Hellman over either group, Joux' one-round three-party key
// agreement, pairing signatures (either group for the signatures, honest and forged,
// single and aggregated), identity-based encryption with a genuine or another identity's key,
// and signatures by two of three holders of a shared key.  The state is the discrete logarithm of every message in flight and
// a program counter per party; a transition is one API call by one party, or a message being
// serialized, normalized or re-encoded on its way.  `agree` and `soundVerdict` are checked for
// every schedule and every key with a small order R, and behaviours of the same machine with
// the real R are replayed in the implementation, which must answer every equality as the
// logarithms do.
module protocol {
  const R: int
  const FORMATS: Set[str]

  type Ev = { s: str, op: str, a: List[int], x: List[int], f: str, cut: int,
              rej: bool, v: List[int], z: int, eq: List[int], enc: List[int], same: int }
  pure val EV0: Ev = { s: "", op: "", a: [], x: [], f: "", cut: 0, rej: false, v: [], z: -1, eq: [], enc: [], same: -1 }
  pure val Z8: List[int] = [0, 0, 0, 0, 0, 0, 0, 0]

  var fr: List[int]       // 0..2 the parties' secrets, 3..5 message hashes (as logarithms)
  var g1: List[int]       // 0 the generator, 1..3 and 4..6 messages and keys, 7 aggregate
  var g2: List[int]
  var gt: List[int]
  var ev: Ev
  var proto: int          // 0 DH2, 1 DH3, 2 Joux, 3 signatures, 4 encryption, 5 threshold signatures, -1 setting up
  var side: int           // group in which the messages (signatures) live
  var pc: List[int]
  var agg: int

  action init = all {
    fr' = Z8, g1' = Z8, g2' = Z8, gt' = Z8, ev' = EV0, proto' = -1, side' = 1, pc' = [0, 0, 0], agg' = 0,
  }
  def reg(g: int): List[int] = if (g == 1) g1 else g2
  pure def eqs(l: List[int], v: int): List[int] = range(0, 8).foldl([], (acc, i) => acc.append(if (l[i] == v) 1 else 0))
  pure def bit(b: bool): int = if (b) 1 else 0
  action control(p: List[int], n: int): bool = all { proto' = proto, side' = side, pc' = p, agg' = n }

  // ---------------------------------------------------------------- API calls at the level of logarithms
  action doFr(d: int, e: Ev, v: int): bool = all {
    fr' = fr.replaceAt(d, v), g1' = g1, g2' = g2, gt' = gt,
    ev' = { ...e, s: "fr", a: [d].concat(e.a), v: [v], z: bit(v == 0), eq: eqs(fr, v) },
  }
  action doG(g: int, d: int, e: Ev, k: int): bool = all {
    fr' = fr, gt' = gt,
    g1' = if (g == 1) g1.replaceAt(d, k) else g1,
    g2' = if (g == 2) g2.replaceAt(d, k) else g2,
    ev' = { ...e, s: if (g == 1) "g1" else "g2", a: [d].concat(e.a), v: [k], z: bit(k == 0), eq: eqs(reg(g), k) },
  }
  action doGt(d: int, e: Ev, k: int): bool = all {
    fr' = fr, g1' = g1, g2' = g2, gt' = gt.replaceAt(d, k),
    ev' = { ...e, s: "gt", a: [d].concat(e.a), v: [k], eq: eqs(gt, k) },
  }
  action mulG(g: int, d: int, i: int, j: int): bool = doG(g, d, { ...EV0, op: "mul", a: [i, j] }, reg(g)[i] * fr[j] % R)
  action addG(g: int, d: int, i: int, j: int): bool = doG(g, d, { ...EV0, op: "add", a: [i, j] }, (reg(g)[i] + reg(g)[j]) % R)
  action negG(g: int, d: int, i: int): bool = doG(g, d, { ...EV0, op: "neg", a: [i] }, (R - reg(g)[i]) % R)
  action pairT(d: int, i: int, j: int): bool = doGt(d, { ...EV0, op: "pair", a: [i, j] }, g1[i] * g2[j] % R)
  /// e(X, Y) with X in the group of messages and Y in the other one
  action pairS(d: int, m: int, o: int): bool = if (side == 1) pairT(d, m, o) else pairT(d, o, m)
  action mulT(d: int, i: int, j: int): bool = doGt(d, { ...EV0, op: "mul", a: [i, j] }, (gt[i] + gt[j]) % R)
  action powT(d: int, i: int, j: int): bool = doGt(d, { ...EV0, op: "pow", a: [i, j] }, gt[i] * fr[j] % R)
  action invT(d: int, i: int): bool = doGt(d, { ...EV0, op: "inv", a: [i] }, (R - gt[i]) % R)
  action addF(d: int, i: int, j: int): bool = doFr(d, { ...EV0, op: "add", a: [i, j] }, (fr[i] + fr[j]) % R)
  action subF(d: int, i: int, j: int): bool = doFr(d, { ...EV0, op: "sub", a: [i, j] }, (R + fr[i] - fr[j]) % R)
  action mulF(d: int, i: int, j: int): bool = doFr(d, { ...EV0, op: "mul", a: [i, j] }, fr[i] * fr[j] % R)
  /// Euclid: (r0, t0), (r1, t1) with t a = r modulo R
  pure def inverse(a: int): int = {
    val s = range(0, 400).foldl({ r0: R, t0: 0, r1: a, t1: 1 }, (s, i) =>
      if (s.r1 == 0) s
      else { val q = s.r0 / s.r1 { r0: s.r1, t0: s.t1, r1: s.r0 - q * s.r1, t1: s.t0 - q * s.t1 } })
    (s.t0 % R + R) % R
  }
  action invF(d: int, i: int): bool = doFr(d, { ...EV0, op: "inv", a: [i] }, inverse(fr[i]))
  /// the verification equation e(X, Y) == e(X', Y') evaluated in one expression
  action verify(x: int, y: int, u: int, w: int): bool = all {
    fr' = fr, g1' = g1, g2' = g2, gt' = gt,
    ev' = { ...EV0, s: "law", op: "peq", a: if (side == 1) [x, y, u, w] else [y, x, w, u],
            v: [bit((reg(side)[x] * reg(3 - side)[y] - reg(side)[u] * reg(3 - side)[w]) % R == 0)] },
  }

  // ---------------------------------------------------------------- messages on their way
  action touch(g: int, m: int, f: str): bool = any {
    all { doG(g, m, { ...EV0, op: "norm", a: [m] }, reg(g)[m]), control(pc, agg) },
    all { doG(g, m, { ...EV0, op: "rt", a: [m], f: f, same: m }, reg(g)[m]), control(pc, agg) },
    all { doG(g, m, { ...EV0, op: "rt", a: [m], f: f, same: m }, reg(g)[m]), control(pc, agg) },
    all { doGt(m, { ...EV0, op: "rt", a: [m], f: f, same: m }, gt[m]), control(pc, agg) },
    all { doFr(m, { ...EV0, op: "rt", a: [m], f: f, same: m }, fr[m]), control(pc, agg) },
  }

  // ---------------------------------------------------------------- roles
  pure def nx(i: int): int = (i + 1) % 3
  pure def pv(i: int): int = (i + 2) % 3
  action go(i: int, n: int): bool = control(pc.replaceAt(i, n), agg)
  /// keys that are small, close to the order, sparse, all ones, or whose representation is a single word
  pure def special(n: int): int = {
    val t = 2^(n / 16 % 254)
    val c = n % 16
    (if (c < 8) [0, 1, 2, R - 1, R - 2, (R + 1) / 2, 3, (R - 1) / 2][c]
     else if (c == 8) t else if (c == 9) t - 1 else if (c == 10) R * t - t else if (c == 11) n / 2^16 % 2^64
     else if (c == 12) n / 2^16 % 2^128 else if (c == 13) n / 2^64 % 2^64 * inverse(2^256 % R) else if (c == 14) n - n % t
     else R * 2^64 - n % 2^64) % R
  }
  action key(i: int, d: int, kind: int, n: int): bool = {
    val v = if (kind == 0) special(n) else if (kind == 1) fr[nx(i)] else n
    doFr(d, { ...EV0, op: "mulf", x: [v] }, v)
  }
  action dh2(i: int, kind: int, n: int): bool = all {
    i < 2,
    if (pc[i] == 0) all { key(i, i, kind, n), go(i, 1) }
    else if (pc[i] == 1) all { mulG(side, 1 + i, 0, i), go(i, 2) }
    else all { pc[i] == 2, pc[1 - i] >= 2, mulG(side, 4 + i, 2 - i, i), go(i, 3) },
  }
  action dh3(i: int, kind: int, n: int): bool =
    if (pc[i] == 0) all { key(i, i, kind, n), go(i, 1) }
    else if (pc[i] == 1) all { mulG(side, 1 + i, 0, i), go(i, 2) }
    else if (pc[i] == 2) all { pc[pv(i)] >= 2, mulG(side, 4 + i, 1 + pv(i), i), go(i, 3) }
    else all { pc[i] == 3, pc[pv(i)] >= 3, mulG(side, 1 + pv(i), 4 + pv(i), i), go(i, 4) }
  action joux(i: int, kind: int, n: int): bool = {
    val j = if (n % 2 == 0) nx(i) else pv(i)
    val k = 3 - i - j
    if (pc[i] == 0) all { key(i, i, kind, n), go(i, 1) }
    else if (pc[i] == 1) all { mulG(1, 1 + i, 0, i), go(i, 2) }
    else if (pc[i] == 2) all { mulG(2, 1 + i, 0, i), go(i, 3) }
    else if (pc[i] == 3) all {
      pc[nx(i)] >= 3, pc[pv(i)] >= 3,
      any { all { pairT(3 + i, 1 + j, 1 + k), go(i, 4) },
            all { mulG(1, 4 + i, 1 + j, i), go(i, if (n % 2 == 0) 6 else 7) },
            all { mulG(2, 4 + i, 1 + k, i), go(i, if (n % 2 == 0) 8 else 9) } },
    }
    else if (pc[i] == 4) all { powT(i, 3 + i, i), go(i, 5) }
    else if (pc[i] == 6) all { pairT(i, 4 + i, 1 + pv(i)), go(i, 5) }
    else if (pc[i] == 7) all { pairT(i, 4 + i, 1 + nx(i)), go(i, 5) }
    else if (pc[i] == 8) all { pairT(i, 1 + nx(i), 4 + i), go(i, 5) }
    else all { pc[i] == 9, pairT(i, 1 + pv(i), 4 + i), go(i, 5) }
  }
  /// signer i publishes a key, hashes a message, signs it or forges, and is verified
  action sign(i: int, kind: int, n: int): bool =
    if (pc[i] == 0) all { key(i, i, kind, n), go(i, 1) }
    else if (pc[i] == 1) all { key(i, 3 + i, kind, n), go(i, 2) }
    else if (pc[i] == 2) all { mulG(side, 1 + i, 0, 3 + i), go(i, 3) }
    else if (pc[i] == 3) all { mulG(3 - side, 1 + i, 0, i), go(i, 4) }
    else if (pc[i] == 4) any {
      all { mulG(side, 4 + i, 1 + i, i), go(i, 5) },
      all { mulG(side, 4 + i, 1 + i, i), go(i, 5) },
      all { mulG(side, 4 + i, 1 + i, nx(i)), go(i, 5) },       // another signer's key
      all { mulG(side, 4 + i, 1 + pv(i), i), go(i, 5) },       // another message
      all { negG(side, 4 + i, 1 + i), go(i, 5) },
      all { addG(side, 4 + i, 1 + i, 0), go(i, 5) },
    }
    else if (pc[i] == 5) any {
      all { verify(4 + i, 0, 1 + i, 1 + i), go(i, 6) },
      all { pairS(i, 4 + i, 0), go(i, 7) },
    }
    else all { pc[i] == 7, pairS(3 + i, 1 + i, 1 + i), go(i, 6) }
  /// aggregate verification, once every signer has been verified alone
  action aggregate = all {
    proto == 3, pc == [6, 6, 6],
    if (agg == 0) all { addG(side, 7, 4, 5), control(pc, 1) }
    else if (agg == 1) all { addG(side, 7, 7, 6), control(pc, 2) }
    else if (agg == 2) all { pairS(0, 7, 0), control(pc, 3) }
    else if (agg == 3) all { pairS(3, 1, 1), control(pc, 4) }
    else if (agg == 4) all { pairS(4, 2, 2), control(pc, 5) }
    else if (agg == 5) all { pairS(5, 3, 3), control(pc, 6) }
    else if (agg == 6) all { mulT(3, 3, 5), control(pc, 7) }
    else if (agg == 7) all { mulT(3, 4, 3), control(pc, 8) }     // equal to register 0: accepted
    else if (agg == 8) all { addG(side, 7, 4, 5), control(pc, 9) }
    else if (agg == 9) all { addG(3 - side, 7, 1, 2), control(pc, 10) }
    else all { agg == 10, verify(7, 0, 1, 7), control(pc, 11) }  // one message, aggregated keys
  }
  // ---------------------------------------------------------------- identity-based encryption
  // 0 the authority (master key, public key, extraction), 1 the sender, 2 the receiver
  action ibe(i: int, kind: int, n: int): bool =
    if (i == 0) (
      if (pc[0] == 0) all { key(0, 0, kind, n), go(0, 1) }
      else if (pc[0] == 1) all { mulG(3 - side, 1, 0, 0), go(0, 2) }
      else all { pc[0] == 2, pc[1] >= 2, any {
        all { mulG(side, 4, 1, 0), go(0, 3) },
        all { mulG(side, 4, 1, 0), go(0, 3) },
        all { mulG(side, 4, 0, 0), go(0, 3) },          // the key of another identity
        all { mulG(side, 4, 1, 3), go(0, 3) },          // of another authority
      } })
    else if (i == 1) (
      if (pc[1] == 0) all { key(1, 3, kind, n), go(1, 1) }
      else if (pc[1] == 1) all { mulG(side, 1, 0, 3), go(1, 2) }
      else if (pc[1] == 2) all { key(1, 1, kind, n), go(1, 3) }
      else if (pc[1] == 3) all { mulG(3 - side, 2, 0, 1), go(1, 4) }
      else if (pc[1] == 4) all { pc[0] >= 2, pairS(1, 1, 1), go(1, 5) }
      else if (pc[1] == 5) all { powT(1, 1, 1), go(1, 6) }
      else if (pc[1] == 6) all { key(1, 5, kind, n), go(1, 7) }
      else if (pc[1] == 7) all { pairS(2, 0, 0), go(1, 8) }
      else if (pc[1] == 8) all { powT(2, 2, 5), go(1, 9) }
      else all { pc[1] == 9, mulT(3, 2, 1), go(1, 10) })
    else if (pc[2] == 0) all { pc[0] == 3, pc[1] == 10, pairS(4, 4, 2), go(2, 1) }
    else if (pc[2] == 1) all { invT(4, 4), go(2, 2) }
    else all { pc[2] == 2, mulT(5, 3, 4), go(2, 3) }
  // ---------------------------------------------------------------- two of three holders sign
  // the key f(0) is shared by f(x) = fr[0] + fr[1] x; holder i has f(i + 1) in fr[3 + i]
  pure def first(p: int): int = if (p == 2) 1 else 0
  pure def second(p: int): int = if (p == 0) 1 else 2
  action setFr(d: int, v: int): bool = doFr(d, { ...EV0, op: "mulf", x: [v % R] }, v % R)
  action threshold(i: int, kind: int, n: int): bool =
    if (agg < 10) all {
      if (agg == 0) all { key(0, 0, kind, n), control(pc, 1) }
      else if (agg == 1) all { key(0, 1, kind, n), control(pc, 2) }
      else if (agg == 2) all { key(0, 2, kind, n), control(pc, 3) }
      else if (agg == 3) all { addF(3, 0, 1), control(pc, 4) }
      else if (agg == 4) all { addF(4, 3, 1), control(pc, 5) }
      else if (agg == 5) all { addF(5, 4, 1), control(pc, 6) }
      else if (agg == 6) all { mulG(3 - side, 1, 0, 0), control(pc, 7) }
      else if (agg == 7) all { mulG(side, 1, 0, 2), control(pc, 10) }
      else all { false, control(pc, agg), fr' = fr, g1' = g1, g2' = g2, gt' = gt, ev' = ev },
    }
    else if (pc[i] == 0) any {
      all { mulG(side, 4 + i, 1, 3 + i), go(i, 1) },
      all { mulG(side, 4 + i, 1, 3 + i), go(i, 1) },
      all { mulG(side, 4 + i, 1, 3 + nx(i)), go(i, 1) },     // with a share that is not the holder's
    }
    else all {
      pc == [1, 1, 1],
      val p = (agg - 10) / 12
      val t = (agg - 10) % 12
      all {
        p < 3,
        if (t == 0) setFr(6, second(p) + 1)
        else if (t == 1) setFr(7, first(p) + 1)
        else if (t == 2) subF(7, 6, 7)
        else if (t == 3) invF(7, 7)
        else if (t == 4) mulF(6, 6, 7)                       // the coefficient of the first share
        else if (t == 5) setFr(7, 1)
        else if (t == 6) subF(7, 7, 6)                       // coefficients add up to one
        else if (t == 7) mulG(side, 2, 4 + first(p), 6)
        else if (t == 8) mulG(side, 3, 4 + second(p), 7)
        else if (t == 9) addG(side, 2, 2, 3)
        else if (t == 10) verify(2, 0, 1, 1)
        else pairS(p, 2, 0),
        control(pc, agg + 1),
      },
    }
  val finished: bool =
    if (proto == 0) pc[0] == 3 and pc[1] == 3
    else if (proto == 1) pc == [4, 4, 4]
    else if (proto == 2) pc == [5, 5, 5]
    else if (proto == 3) agg == 11
    else if (proto == 4) pc[2] == 3
    else if (proto == 5) agg == 10 + 36
    else agg == 3
  action session(p: int, s: int): bool = all {
    finished, doFr(7, { ...EV0, op: "one" }, 1 % R), proto' = p, side' = s, pc' = [0, 0, 0], agg' = 0,
  }
  action setup = all {
    proto == -1,
    if (agg == 0) all { doG(1, 0, { ...EV0, op: "one" }, 1), control(pc, 1) }
    else if (agg == 1) all { doG(2, 0, { ...EV0, op: "one" }, 1), control(pc, 2) }
    else all { agg == 2, doGt(7, { ...EV0, op: "one" }, 0), control(pc, 3) },
  }
  action role(i: int, kind: int, n: int): bool =
    if (proto == 0) dh2(i, kind, n) else if (proto == 1) dh3(i, kind, n)
    else if (proto == 2) joux(i, kind, n)
    else if (proto == 4) ibe(i, kind, n) else if (proto == 5) threshold(i, kind, n) else all { proto == 3, sign(i, kind, n) }

  action step = {
    nondet i = 0.to(2).oneOf() nondet kind = 0.to(4).oneOf() nondet n = 0.to(R - 1).oneOf()
    nondet p = 0.to(5).oneOf() nondet s = 1.to(2).oneOf() nondet m = 1.to(6).oneOf() nondet f = FORMATS.oneOf()
    any { role(i, kind, n), role(i, kind, n), role(i, kind, n), aggregate, setup, session(p, s), all { proto >= 0, touch(s, m, f) } }
  }
  /// exhaustive checking: one session, messages not re-encoded; key agreement under every
  /// interleaving, signatures with the signers in order (they only meet in the aggregate)
  action initOne = {
    // two shares determine a key only when 1, 2, 3 are distinct modulo R
    nondet p = 0.to(if (R > 2) 5 else 4).oneOf() nondet s = 1.to(2).oneOf()
    all { fr' = Z8, g1' = Z8.replaceAt(0, 1), g2' = Z8.replaceAt(0, 1), gt' = Z8, ev' = EV0, proto' = p,
          side' = if (p == 2) 1 else s, pc' = [0, 0, 0], agg' = 0 }
  }
  action idle = all { finished, control(pc, agg), fr' = fr, g1' = g1, g2' = g2, gt' = gt, ev' = ev }
  action agreeStep(i: int): bool = all {
    proto < 3,
    if (pc[i] == 0) { nondet n = 0.to(R - 1).oneOf() role(i, 4, n) }
    else if (pc[i] == 3 and proto == 2) { nondet n = 0.to(1).oneOf() role(i, 4, n) }
    else role(i, 4, 0),
  }
  action signStep(i: int): bool = all {
    proto == 3, i == 0 or pc[pv(i)] == 6, i == 2 or pc[nx(i)] == 0,
    if (pc[i] < 2) { nondet n = 0.to(R - 1).oneOf() role(i, 4, n) } else role(i, 4, 0),
  }
  action ibeStep(i: int): bool = all {
    proto == 4,
    if ((i == 0 and pc[0] == 0) or (i == 1 and (pc[1] == 0 or pc[1] == 2 or pc[1] == 6))) { nondet n = 0.to(R - 1).oneOf() role(i, 4, n) }
    else role(i, 4, 0),
  }
  action thrStep(i: int): bool = all {
    proto == 5,
    if (agg < 3) { nondet n = 0.to(R - 1).oneOf() role(i, 4, n) } else role(i, 4, 0),
  }
  action stepCore = any {
    ibeStep(0), ibeStep(1), ibeStep(2), thrStep(0), thrStep(1), thrStep(2),
     agreeStep(0), agreeStep(1), agreeStep(2), signStep(0), signStep(1), signStep(2), all { proto == 3, aggregate }, idle,
  }

  // ---------------------------------------------------------------- properties
  def sk(i: int): int = fr[i]
  /// all parties that have finished derive the secret fixed by the keys
  val agree: bool = and {
    proto == 0 implies 0.to(1).forall(i => pc[i] == 3 implies reg(side)[4 + i] == sk(0) * sk(1) % R),
    proto == 1 implies 0.to(2).forall(i => pc[i] == 4 implies reg(side)[1 + pv(i)] == sk(0) * sk(1) * sk(2) % R),
    proto == 2 implies 0.to(2).forall(i => pc[i] == 5 implies gt[i] == sk(0) * sk(1) * sk(2) % R),
  }
  /// a signature verifies exactly when it is the hashed message multiplied by the signer's key
  val soundVerdict: bool = and {
    (proto == 3 and ev.s == "law" and agg == 0) implies {
      val i = (if (side == 1) ev.a[0] else ev.a[1]) - 4
      (ev.v == [1]) == (reg(side)[4 + i] == sk(i) * fr[3 + i] % R)
    },
    (proto == 3) implies 0.to(2).forall(i => (pc[i] == 6 and ev.op == "pair" and ev.a[0] == 3 + i and agg == 0) implies
      (ev.eq[i] == 1) == (reg(side)[4 + i] == sk(i) * fr[3 + i] % R)),
    (proto == 3 and agg == 8 and ev.op == "mul" and ev.s == "gt") implies
      (ev.eq[0] == 1) == ((reg(side)[4] + reg(side)[5] + reg(side)[6] - sk(0) * fr[3] - sk(1) * fr[4] - sk(2) * fr[5]) % R == 0),
  }
  /// a message is recovered exactly with the key of the identity it was encrypted for (or a trivial exponent)
  val decrypts: bool = (proto == 4 and pc[2] == 3) implies
    (gt[5] == gt[2]) == ((reg(side)[4] - fr[0] * fr[3]) * fr[1] % R == 0)
  /// two partial signatures make a signature exactly when their combination is the one of the shared key
  val thresholdVerdict: bool = (proto == 5 and ev.s == "law") implies {
    val p = (agg - 11) / 12
    val i = first(p)
    val j = second(p)
    and {
      (ev.v == [1]) == (reg(side)[2] == fr[0] * fr[2] % R),
      (reg(side)[4 + i] == fr[2] * fr[3 + i] % R and reg(side)[4 + j] == fr[2] * fr[3 + j] % R) implies ev.v == [1],
    }
  }
  val inv: bool = agree and soundVerdict and decrypts and thresholdVerdict
}

module protocolReal {
  import protocol(R = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
                  FORMATS = Set("bin", "json", "jsonv", "cbor", "writer")).*
}
module protocolToy {
  import protocol(R = 3, FORMATS = Set("bin")).*
}
module protocolToy2 {
  import protocol(R = 2, FORMATS = Set("bin")).*
}
