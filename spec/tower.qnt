// tower.qnt -- the products and squares of the tower at the real parameters, decided on a basis (Quint).
//
// Every formula here is a sum of products of linear forms in the coordinates of its arguments, so two of
// them that agree on all pairs of basis elements agree on all arguments (squares: on basis elements and
// sums of two; linear maps: on basis elements).  The checks below are therefore complete for the real
// field although they evaluate a few hundred cases.  The inversions are compared through what they
// satisfy on the same elements, the sparse product through the dense one.
module tower {
  import ate(
    FIELD = 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    ORDER = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    PARAM = 4965661367192848881, BB = 3, NONRES = (9, 1), WIDTH = 254,
    G1C = ((1, 0), (2, 0)),
    G2C = ((10857046999023057135944570762232829481370756359578518086990519993285655852781,
            11559732032986387107991004021392285783925812861821192530917403151452391805634),
           (8495653923123431417604973247489272438418190587263600148770280649306958101930,
            4082367875863433681332203403145435568316851327593401208105741076214120093531)),
    KS1 = 0.to(21888242871839275222246405745257275088548364400416034343698204186575808495616),
    KS2 = 0.to(21888242871839275222246405745257275088548364400416034343698204186575808495616),
    BASE = [
    (17264119758069723980713015158403419364912226240334615592005620718956030922389,
     1300711225518851207585954685848229181392358478699795190245709208408267917898),
    (4233474252585134102088637248223601499779641130562251948384759786370563844606,
     9420544134055737381096389798327244442442230840902787283326002357297404128074),
    (8894217292938489450175280157304813535227569267786222825147475294561798790624,
     1829859855596098509359522796979920150769875799037311140071969971193843357227),
    (13457906610892676317612909831857663099224588803620954529514857102808143524905,
     5122435115068592725432309312491733755581898052459744089947319066829791570839),
    (4968700049505451466697923764727215585075098085662966862137174841375779106779,
     12814315002058128940449527172080950701976819591738376253772993495204862218736),
    (8891987925005301465158626530377582234132838601606565363865129986128301774627,
     440796048150724096437130979851431985500142692666486515369083499585648077975)]
  ).* from "./ate"

  import bn(
    P = 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    R = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    U = 4965661367192848881, BCOEF = 3, XI = (9, 1), NBITS = 254,
    GEN1 = ((1, 0), (2, 0)),
    GEN2 = ((10857046999023057135944570762232829481370756359578518086990519993285655852781,
             11559732032986387107991004021392285783925812861821192530917403151452391805634),
            (8495653923123431417604973247489272438418190587263600148770280649306958101930,
             4082367875863433681332203403145435568316851327593401208105741076214120093531))
  ).* from "./bn"

  /// unit number i of Fp12 over Fp: i / 2 is the power of w, i % 2 the half of Fp2
  pure def unit12(i: int): F12 =
    range(0, 6).foldl([], (l, j) => l.append(if (j != i / 2) f2zero else if (i % 2 == 0) (1, 0) else (0, 1)))
  pure def unit2(i: int): F2 = if (i == 0) (1, 0) else (0, 1)
  pure def sum12(a: F12, b: F12): F12 = range(0, 6).foldl([], (l, j) => l.append(f2add(a[j], b[j])))
  pure def toF12(a: F6): F12 = join(a, (f2zero, f2zero, f2zero))
  pure def forAll(n: int, f: (int) => bool): bool = range(0, n).foldl(true, (acc, i) => acc and f(i))
  pure def pairs(n: int, f: (int, int) => bool): bool = forAll(n, i => forAll(n, j => f(i, j)))

  run fp2Test = assert(and {
    pairs(2, (i, j) => kmul2(unit2(i), unit2(j)) == f2mul(unit2(i), unit2(j))),
    pairs(2, (i, j) => { val s = f2add(unit2(i), unit2(j)) ksq2(s) == f2mul(s, s) }),
    forAll(2, i => ksq2(unit2(i)) == f2mul(unit2(i), unit2(i))),
    forAll(2, i => nr(unit2(i)) == f2mul(unit2(i), XI)),
  })
  /// Fp6 inside Fp12: even powers of w
  run fp6Test = assert(and {
    pairs(6, (i, j) => {
      val a = unit12(i / 2 * 4 + i % 2)
      val b = unit12(j / 2 * 4 + j % 2)
      toF12(mul6(lo(a), lo(b))) == f12mul(a, b)
    }),
    pairs(6, (i, j) => { val s = sum12(unit12(i / 2 * 4 + i % 2), unit12(j / 2 * 4 + j % 2)) toF12(sq6(lo(s))) == f12mul(s, s) }),
    forAll(6, i => { val a = unit12(i / 2 * 4 + i % 2) toF12(sq6(lo(a))) == f12mul(a, a) }),
    forAll(6, i => { val a = unit12(i / 2 * 4 + i % 2) toF12(nr6(lo(a))) == f12mul(f12mul(a, unit12(2)), unit12(2)) }),
    pairs(6, (i, j) => { val s = sum12(unit12(i / 2 * 4 + i % 2), unit12(j / 2 * 4 + j % 2))
                         f12mul(s, toF12(inv6(lo(s)))) == f12one }),
  })
  run fp12Test = assert(and {
    pairs(12, (i, j) => tmul(unit12(i), unit12(j)) == f12mul(unit12(i), unit12(j))),
    pairs(12, (i, j) => { val s = sum12(unit12(i), unit12(j)) tsq(s) == f12mul(s, s) }),
    forAll(12, i => tsq(unit12(i)) == f12mul(unit12(i), unit12(i))),
    forAll(12, i => f12mul(unit12(i), tinv(unit12(i))) == f12one),
  })
  /// product with ell_0 + ell_vw w^3 + ell_vv w^4
  run sparseTest = assert(forAll(12, i => forAll(6, j => {
    val l0 = if (j / 2 == 0) unit2(j % 2) else f2zero
    val vw = if (j / 2 == 1) unit2(j % 2) else f2zero
    val vv = if (j / 2 == 2) unit2(j % 2) else f2zero
    sparse(unit12(i), l0, vw, vv) == f12mul(unit12(i), [l0, f2zero, f2zero, vw, vv, f2zero])
  })))
  /// the Frobenius map with its coefficients is the P-th power; its second and third iterates
  run frobTest = assert(forAll(12, i => {
    val e = unit12(i)
    val f = frob(e, 1)
    f == f12pow(e, bitsOf(P, 254)) and frob(e, 2) == frob(f, 1) and frob(e, 3) == frob(frob(f, 1), 1)
  }))
  run conjTest = assert(forAll(12, i => conj(unit12(i)) == frob(frob(unit12(i), 3), 3)))
}
