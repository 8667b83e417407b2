// decode.qnt -- decimal strings to residues, one character at a time (Quint, checked by TLC).
//
// The code's Horner loop against the value of the digits read so far; the first character that
// is not an ASCII digit rejects for good.
module decode {
  const R: int
  const LEN: int
  var n: int          // characters read
  var val10: int      // their value as an integer
  var acc: int        // the code's accumulator
  var rejected: bool
  var odd: bool       // ghost: something else than a digit was read
  action init = all { n' = 0, val10' = 0, acc' = 0, rejected' = false, odd' = false }
  /// 0..9 digits; 10 '+', 11 ' ', 12 'a', 13 a non-ASCII digit
  action step = {
    nondet c = 0.to(13).oneOf()
    if (n == LEN) all { n' = n, val10' = val10, acc' = acc, rejected' = rejected, odd' = odd }
    else all {
      n' = n + 1, odd' = if (c > 9) true else odd, rejected' = if (c > 9) true else rejected,
      val10' = if (c > 9 or odd) 0 else val10 * 10 + c,
      acc' = if (c > 9 or rejected) 0 else ((acc * (10 % R)) % R + c % R) % R,
    }
  }
  val inv: bool = rejected == odd and (not(rejected) implies acc == val10 % R)
}
module decodeToy { import decode(R = 7, LEN = 4).* }
module decodeToy2 { import decode(R = 97, LEN = 5).* }
