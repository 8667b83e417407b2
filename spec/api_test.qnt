// api_test.qnt -- the constants api.qnt relies on, recomputed from their definitions (quint test).
module api_test {
  import api.* from "./api"
  import bn(
    P = 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    R = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    U = 4965661367192848881, BCOEF = 3, XI = (9, 1), NBITS = 254,
    GEN1 = ((1, 0), (2, 0)),
    GEN2 = ((10857046999023057135944570762232829481370756359578518086990519993285655852781,
             11559732032986387107991004021392285783925812861821192530917403151452391805634),
            (8495653923123431417604973247489272438418190587263600148770280649306958101930,
             4082367875863433681332203403145435568316851327593401208105741076214120093531))
  ) as b from "./bn"
  /// the curve is the BN curve of parameter U
  run bnCurveTest = all {
    assert(b::P == 36 * b::U^4 + 36 * b::U^3 + 24 * b::U^2 + 6 * b::U + 1),
    assert(b::R == 36 * b::U^4 + 36 * b::U^3 + 18 * b::U^2 + 6 * b::U + 1),
    assert(b::P % 4 == 3), assert(b::P % 6 == 1),
    // Fermat to some bases: both moduli are primes (probable)
    assert(Set(2, 3, 5, 7, 11).forall(a => b::powMod(a, b::P - 1, b::P) == 1 and b::powMod(a, b::R - 1, b::R) == 1)),
    // XI is neither a square nor a cube, -1 is not a square
    assert(b::f2pow(b::XI, b::bitsOf((b::P^2 - 1) / 2, 508)) != b::f2one),
    assert(b::f2pow(b::XI, b::bitsOf((b::P^2 - 1) / 3, 508)) != b::f2one),
    assert(b::powMod(b::P - 1, (b::P - 1) / 2, b::P) == b::P - 1),
  }
  run generatorsTest = all {
    assert(b::onCurve(b::P1, b::B1)), assert(b::onCurve(b::P2, b::B2)),
    assert(b::pmul(b::P1, b::bitsOf(b::R, 254)).inf), assert(b::pmul(b::P2, b::bitsOf(b::R, 254)).inf),
  }
  /// e(P1, P2) is the literal E, of order R, and pairingRef is bilinear on samples
  run eIsPairingTest = all {
    assert(b::pairingRef(b::P1, b::P2) == E), assert(E != b::f12one), assert(inGt(E)),
    assert(b::pairingRef(b::k1(3), b::k2(b::R - 5)) == ek(b::R - 15)),
  }
  /// the endomorphism used to make points with shared coordinates
  run eigenvaluesTest = all {
    assert(phi(b::P1) == b::k1(LAM1)), assert(phi(b::P2) == b::k2(LAM2)), assert(b::powMod(BETA, 3, b::P) == 1),
  }
  /// values that decoding must refuse really are outside
  run outsidersTest = all {
    assert(OFF2.foldl(true, (a, p) => a and b::onCurve(p, b::B2) and not(p.inf) and not(b::pmul(p, b::bitsOf(b::R, 254)).inf))),
    assert(not(inGt(GEN12))), assert(not(inGt(UNIT12))), assert(not(inGt(CYC12))),
    assert(b::f12mul(UNIT12, b::f12conj(UNIT12)) == b::f12one), assert(b::f12mul(CYC12, b::f12conj(CYC12)) == b::f12one),
    assert(COF2.foldl(1, (a, q) => a * q) == 2 * b::P - b::R),
    assert(range(0, 5).foldl(true, (a, i) => a and b::onCurve(TORSQ[i], b::B2) and not(TORSQ[i].inf))),
    assert(range(0, 4).foldl(true, (a, i) => a and b::pmul(TORSQ[i], b::bitsOf(COF2[i], 254)).inf)),
    assert(SMALLQ.foldl(true, (a, q) => a and (b::P - 1) % q == 0)), assert((b::P + 1) % 44 == 0),
    assert(TORS == b::pmul(TORS, b::bitsOf(10070, 254))),
  }
}
