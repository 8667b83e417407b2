// codec.qnt -- the serialized stream: fixed-width records, containers and a transport that fragments (Quint, TLC).
//
// api.qnt obliges the code to read back what was written through every format and transport.  This
// machine shows why the layout makes that possible: words of a fixed number of bytes, least significant
// word first, a fixed number of words per sort, a count in front of a container, one mark in front of an
// optional value.  The transport delivers any number of bytes at a time, may end early, or may deliver a
// damaged word.  Toy sizes: bytes of two values, words of two bytes, residues below M < 4, sorts of 1, 2, 3 words.
module codec {
  const M: int          // residues are 0 .. M - 1, words 0 .. 3
  const MAXV: int       // values written at most
  const SORTS: int      // sorts in use: 1 .. SORTS words
  type Val = { sort: int, box: int, ws: List[int] }     // box 0: bare, 1: optional, 2: container of copies
  type S = { wrote: List[Val], wire: List[int], pos: int, buf: List[int], read: List[Val], used: int,
             damaged: bool, closed: bool, refused: bool }
  var s: S

  pure def enc1(w: int): List[int] = [w % 2, w / 2]
  pure def encW(ws: List[int]): List[int] = ws.foldl([], (l, w) => l.concat(enc1(w)))
  pure def enc(v: Val): List[int] =
    if (v.box == 0) encW(v.ws) else if (v.box == 1) [1].concat(encW(v.ws))
    else enc1(length(v.ws) / v.sort).concat(encW(v.ws))
  /// bytes needed to read a value of this sort and box, given what has arrived; -1 if that is not known yet
  pure def need(sort: int, box: int, b: List[int]): int =
    if (box == 0) 2 * sort else if (box == 1) (if (b == []) -1 else if (b[0] == 0) 1 else 1 + 2 * sort)
    else if (length(b) < 2) -1 else 2 + 2 * sort * (b[0] + 2 * b[1])
  pure def decW(b: List[int]): List[int] =
    range(0, length(b) / 2).foldl([], (l, i) => l.append(b[2 * i] + 2 * b[2 * i + 1]))
  pure def body(box: int, b: List[int]): List[int] = if (box == 0) b else if (box == 1) b.slice(1, length(b)) else b.slice(2, length(b))

  pure def inRange(ws: List[int]): bool = ws.foldl(true, (acc, x) => acc and x < M)
  pure def total(vs: List[Val]): int = vs.foldl(0, (acc, v) => acc + length(enc(v)))

  // ---------------------------------------------------------------- transitions
  action init = s' = { wrote: [], wire: [], pos: 0, buf: [], read: [], used: 0, damaged: false, closed: false, refused: false }
  action write = {
    nondet sort = 1.to(SORTS).oneOf() nondet box = 0.to(2).oneOf() nondet n = 0.to(2).oneOf()
    nondet a = 0.to(M - 1).oneOf() nondet b = 0.to(M - 1).oneOf() nondet c = 0.to(M - 1).oneOf()
    val one = [a, b, c].slice(0, sort)
    val ws = if (box < 2) one else range(0, n).foldl([], (l, i) => l.concat(one))
    val v = { sort: sort, box: box, ws: ws }
    all {
      length(s.wrote) < MAXV, not(s.closed), not(s.damaged), s.pos == 0 or length(s.wrote) > 0,
      // unused choices are fixed, to keep one name for one value
      (sort >= 2 or b == 0), (sort == 3 or c == 0), (box == 2 or n == 1),
      s' = { ...s, wrote: s.wrote.append(v), wire: s.wire.concat(enc(v)) },
    }
  }
  /// one byte, two, or all the rest
  action deliver = {
    nondet n = Set(1, 2, length(s.wire) - s.pos).oneOf()
    all {
      n >= 1, s.pos + n <= length(s.wire),
      s' = { ...s, buf: s.buf.concat(s.wire.slice(s.pos, s.pos + n)), pos: s.pos + n },
    }
  }
  /// a word still under way becomes 3, which no residue is (M = 3)
  action damage = {
    nondet i = 0.to(length(s.wire)).oneOf()
    all {
      not(s.damaged), M <= 3, i >= s.pos, i + 1 < length(s.wire),
      s' = { ...s, wire: s.wire.replaceAt(i, 1).replaceAt(i + 1, 1), damaged: true },
    }
  }
  /// the rest is lost
  action close = all { not(s.closed), s.pos < length(s.wire), s' = { ...s, wire: s.wire.slice(0, s.pos), closed: true } }
  /// the reader asks for the value that comes next
  action take = all {
    not(s.refused), length(s.read) < length(s.wrote),
    val w = s.wrote[length(s.read)]
    val n = need(w.sort, w.box, s.buf)
    val whole = n >= 0 and n <= length(s.buf)
    val mine = if (whole) s.buf.slice(0, n) else [0, 0]
    val ws = decW(body(w.box, mine))
    val good = whole and inRange(ws) and (w.box != 1 or mine[0] == 1)
    s' = if (good) { ...s, read: s.read.append({ ...w, ws: ws }), buf: s.buf.slice(n, length(s.buf)), used: s.used + n }
         else if (whole or s.closed) { ...s, refused: true } else s,
  }
  action step = any { write, deliver, damage, close, take }

  // ---------------------------------------------------------------- invariants
  /// what has been read is what was written, up to the damage
  val faithful: bool = not(s.damaged) implies s.read == s.wrote.slice(0, length(s.read))
  /// every reader consumes exactly what its writer wrote
  val exact: bool = not(s.damaged) implies and {
    s.used == total(s.read),
    s.used + length(s.buf) == s.pos,
    (not(s.closed) and length(s.read) == length(s.wrote)) implies s.used == length(s.wire),
  }
  /// nothing is refused without cause, nothing incomplete or out of range is accepted
  val honest: bool = and {
    s.refused implies (s.damaged or s.closed),
    s.read.foldl(true, (acc, v) => acc and inRange(v.ws)),
    s.closed and not(s.damaged) implies total(s.read) <= length(s.wire),
  }
  val inv: bool = faithful and exact and honest
}
module codecToy { import codec(M = 3, MAXV = 2, SORTS = 2).* }
module codecToy3 { import codec(M = 2, MAXV = 2, SORTS = 3).* }
module codecSmall { import codec(M = 2, MAXV = 2, SORTS = 2).* }
