#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Scalar arithmetic is exact integer arithmetic modulo the group order",
  "For all scalars, addition, subtraction, multiplication, negation and exponentiation return exactly the result of the same integer operation modulo the published group order r, and zero/one are the residues 0 and 1. Inversion returns nothing for zero and otherwise the unique scalar whose product with the input is one. Boundary residues (0, 1, r-1) and values whose internal words are extreme are no exception.",
  ["inputs", "histories"], "every pair of scalars (and every exponent scalar), however they were produced",
  "The unit tests draw a few hundred uniform elements and check algebraic identities that many wrong fields also satisfy; uniform draws never hit extreme machine words, and no test compares a scalar result with an integer oracle except -1.",
  ["src/lib.rs", "src/fields/fp.rs", "src/fields/mod.rs", "src/arith.rs"],
  [("Montgomery arithmetic with one conditional subtraction", "src/arith.rs U256::{add,sub,mul,neg,invert}"), ("field wrapper and constants", "src/fields/fp.rs field_impl!"), ("square-and-multiply", "src/fields/mod.rs FieldElement::pow")],
  ["Fr operators", "Fr::pow", "Fr::inverse", "Fr::is_zero"])
p("C02", "Scalar decoding reduces exactly and rejects exactly malformed input",
  "A decimal string decodes to its value modulo r if it consists only of ASCII decimal digits (any length, leading zeros allowed, the empty string being zero) and is rejected otherwise. A byte slice decodes to its big-endian value modulo r if it is 32 bytes long and is rejected otherwise. A 64-byte buffer, and any 256-bit integer, decodes to its value modulo r, including values at and above r.",
  ["inputs"], "every string, every byte slice of every length, every 64-byte buffer, every 256-bit integer",
  "The only decoding test is two valid decimal strings; no test decodes bytes, a value at or above the modulus, or malformed input.",
  ["src/lib.rs", "src/fields/fp.rs", "src/arith.rs"],
  [("digit loop", "src/fields/fp.rs from_str"), ("length check", "src/arith.rs U256::from_slice"), ("512-bit reduction", "src/arith.rs U512::{interpret,divrem}"), ("reducing conversion", "src/fields/fp.rs new_mul_factor")],
  ["Fr::from_str", "Fr::from_slice", "Fr::interpret", "Fr::new_mul_factor"])
p("C03", "Scalars are canonical: equality and encodings depend only on the residue",
  "Two scalars compare equal, test as zero, print and encode identically exactly when they are the same residue modulo r, no matter by which chain of operations, decodings or random draws each was obtained. A value congruent to zero is always recognised as zero.",
  ["histories", "inputs"], "every pair of scalars reached by any two histories of public operations",
  "Canonical form must survive every operation at every boundary; the tests compare only a few results that were computed the same way, and never compare encodings.",
  ["src/lib.rs", "src/fields/fp.rs", "src/arith.rs"],
  [("every operation ends below the modulus", "src/arith.rs conditional subtraction in add/mul/sub/neg"), ("derived equality on words", "src/fields/fp.rs, src/arith.rs")],
  ["==", "is_zero", "into_bytes", "Display"])
p("C04", "G1 is the order-r group of y^2=x^3+3: addition, negation, subtraction",
  "Every value of the first group denotes a point of y^2 = x^3 + 3 over the published base field or the identity, the generator is (1, 2), and addition, subtraction and negation return exactly the chord-and-tangent sum, difference and inverse. This holds for all operands including equal points, opposite points, the identity and any internal representation of them.",
  ["inputs", "histories"], "all operand pairs, in all projective representations reachable by any history of group operations and decodings",
  "Random operands never exercise equal/opposite/identity operands in unequal representations, and the tests' algebraic identities have no independent value oracle for coordinates.",
  ["src/groups/mod.rs", "src/lib.rs", "src/fields/fp.rs"],
  [("exceptional-case dispatch", "src/groups/mod.rs Add for G"), ("doubling and addition formulas", "src/groups/mod.rs double/add"), ("negation of the identity", "src/groups/mod.rs Neg for G")],
  ["G1 + - neg", "G1::one/zero"], state=[("(x, y, z)", "Jacobian representation of a point; z = 0 is the identity", "src/groups/mod.rs G")])
p("C05", "G2 is the order-r subgroup of the sextic twist: addition and negation",
  "Every value of the second group denotes a point of the order-r subgroup of the published twist over the quadratic extension, the generator is the published one, and addition, subtraction and negation return exactly the chord-and-tangent result. This holds for all operands including equal points, opposite points, the identity and any internal representation of them.",
  ["inputs", "histories"], "all operand pairs, in all projective representations reachable by any history of group operations and decodings",
  "As for C04; additionally the quadratic-extension arithmetic underneath is only checked by self-consistency on uniform elements.",
  ["src/groups/mod.rs", "src/lib.rs", "src/fields/fq2.rs", "src/fields/fp.rs"],
  [("exceptional-case dispatch and formulas", "src/groups/mod.rs Add/double/Neg for G"), ("Karatsuba multiplication, complex squaring", "src/fields/fq2.rs")],
  ["G2 + - neg", "G2::one/zero"], state=[("(x, y, z)", "Jacobian representation over Fq2", "src/groups/mod.rs G")])
p("C06", "Scalar multiplication is exact repeated addition for every scalar",
  "In both groups, multiplying a point by a scalar k gives exactly the k-fold sum of the point, for every scalar from 0 to r-1 and every point including the identity and non-normalized ones. In particular multiplying by 0 gives the identity, by 1 the point, by r-1 its negative, and multiplication distributes over scalar and point addition and composes with scalar multiplication.",
  ["inputs", "histories"], "every scalar and every point, in every representation",
  "Tests multiply by uniform scalars only and compare products with products; particular bit patterns (long zero runs, all-ones, single bits, word boundaries) and small scalars are not covered.",
  ["src/groups/mod.rs", "src/lib.rs", "src/arith.rs"],
  [("double-and-add over the scalar's bits", "src/groups/mod.rs Mul<Fr> for G"), ("bit iterator", "src/arith.rs BitIterator"), ("leaving Montgomery form", "src/fields/fp.rs From<Fr> for U256")],
  ["G1 * Fr", "G2 * Fr"])
p("C07", "Point equality and the zero test decide exactly mathematical equality",
  "Two points of the same group compare equal exactly when they are the same point, whatever the histories that produced them and however they are represented internally; a point tests as zero exactly when it is the identity. In particular a point never equals its negative, a multiple, or the identity unless they coincide mathematically.",
  ["histories", "inputs"], "every pair of points reached by any two histories",
  "The tests assert equality of equal things only; no test asserts that different points are unequal, nor covers identities produced by cancellation.",
  ["src/groups/mod.rs", "src/lib.rs"],
  [("cross-multiplied comparison", "src/groups/mod.rs PartialEq for G"), ("z = 0 test", "src/groups/mod.rs is_zero")],
  ["==", "!=", "is_zero"])
p("C08", "Normalization keeps the point and makes its encodings canonical",
  "Normalizing a point never changes which point it is, is idempotent, and afterwards equal points of either group (the identity included) have identical byte encodings and serializations.",
  ["histories", "inputs"], "every point of either group, in every representation reachable by any history",
  "No test calls normalize at all, and the identity has unboundedly many internal representations that only particular histories (cancellation, multiplying the identity) produce.",
  ["src/lib.rs", "src/groups/mod.rs"],
  [("conversion to affine and back", "src/lib.rs Group::normalize; src/groups/mod.rs to_affine/to_jacobian")],
  ["Group::normalize", "into_bytes", "serde/borsh output"])
p("C09", "The pairing is bilinear in both arguments",
  "For all points and scalars, e(P+P', Q) = e(P, Q)·e(P', Q), e(P, Q+Q') = e(P, Q)·e(P, Q') and e(aP, bQ) = e(P, Q)^(ab), with any scalars including 0 and r-1 and any internal representations of the points. Negating either argument inverts the result.",
  ["inputs", "histories"], "every tuple of points and scalars, in every representation",
  "The single bilinearity test uses 50 uniform points and one scalar moved across; it never uses the identity, negatives, sums, boundary scalars or normalized inputs.",
  ["src/groups/mod.rs", "src/fields/fq12.rs", "src/fields/fq6.rs", "src/fields/fq2.rs", "src/lib.rs"],
  [("optimal ate Miller loop on precomputed lines", "src/groups/mod.rs precompute/miller_loop"), ("final exponentiation", "src/fields/fq12.rs")],
  ["pairing", "Gt *", "Gt::pow"])
p("C10", "The pairing has the reference value, is non-degenerate, ignores representation",
  "The pairing of any two points equals the reduced optimal ate pairing value fixed by the curve's published definition (so values computed by different builds agree bit for bit), and is the unit exactly when one of the points is the identity. It depends only on the two points, not on how they are represented or were computed.",
  ["inputs", "histories"], "every pair of points in every representation",
  "Two fixed vectors and 50 random non-degeneracy checks; never an identity argument, a normalized point, or the same point in two representations.",
  ["src/groups/mod.rs", "src/fields/fq12.rs", "src/lib.rs"],
  [("identity short-cut", "src/groups/mod.rs pairing"), ("conversion to affine", "src/groups/mod.rs to_affine"), ("line coefficients, Frobenius constants", "src/groups/mod.rs, src/fields/fq6.rs, src/fields/fq12.rs")],
  ["pairing", "Gt encodings"])
p("C11", "The target group is a cyclic group of order r with exact mul, pow, inverse",
  "Values of the target group multiply, invert and exponentiate exactly as powers of the pairing of the two generators with exponents modulo r: products add exponents, inverses negate them, pow multiplies them. Exponent 0 gives one, exponent 1 the value itself, and equality holds exactly for equal exponents.",
  ["inputs", "histories"], "every target-group element reached by any history, every exponent scalar",
  "Degree-12 arithmetic is tested by self-consistency on uniform elements of the full field; inverse and pow of actual group values with boundary exponents are not tested.",
  ["src/lib.rs", "src/fields/fq12.rs", "src/fields/fq6.rs", "src/fields/mod.rs"],
  [("tower multiplication and inversion", "src/fields/fq12.rs, fq6.rs"), ("square-and-multiply", "src/fields/mod.rs pow")],
  ["Gt::one", "Gt *", "Gt::pow", "Gt::inverse", "=="])
p("C12", "Serde serialization is lossless for every reachable value",
  "With the default feature, serializing and deserializing any scalar or element of any of the three groups, in any representation and through text or binary formats, succeeds and gives back an equal value with the same encoding, which behaves identically in every later operation.",
  ["inputs", "histories"], "every reachable value of the four types; self-describing and binary formats",
  "No test serializes anything.",
  ["src/lib.rs", "src/arith.rs", "src/fields/fp.rs", "src/fields/fq2.rs", "src/fields/fq6.rs", "src/fields/fq12.rs", "src/groups/mod.rs"],
  [("serde Serialize/Deserialize of each layer", "src/lib.rs, src/groups/mod.rs, src/fields/*.rs, src/arith.rs")],
  ["serde round trip of Fr, G1, G2, Gt"])
p("C13", "Borsh serialization is lossless for every reachable value",
  "With the borsh feature, serializing and deserializing any scalar or element of any of the three groups, in any representation, succeeds, consumes exactly the bytes written, and gives back an equal value with the same encoding, which behaves identically in every later operation.",
  ["inputs", "histories", "configurations"], "every reachable value of the four types, in the borsh configuration",
  "The test run never builds the borsh configuration, and no test serializes anything.",
  ["src/lib.rs", "src/arith.rs", "src/fields/fp.rs", "src/fields/fq12.rs", "src/groups/mod.rs"],
  [("borsh derives/impls of each layer", "src/lib.rs, src/groups/mod.rs, src/fields/*.rs, src/arith.rs")],
  ["borsh round trip of Fr, G1, G2, Gt"])
p("C14", "Deserialization admits only genuine elements of the groups and fields",
  "Deserializing arbitrary data yields either an error or a genuine element: a scalar reduced modulo r, a point on the curve and in the order-r subgroup (or the identity), a target-group value of order dividing r. Every genuine element in any valid representation is accepted, every other input (out-of-range words, points off the curve or outside the subgroup, values outside the target group, truncated data) is rejected without a panic or a hang.",
  ["inputs", "configurations"], "every byte string or document, under both serialization features",
  "No test deserializes anything, valid or hostile.",
  ["src/lib.rs", "src/groups/mod.rs", "src/fields/fp.rs", "src/fields/fq12.rs"],
  [("membership and range checks on decoding", "src/groups/mod.rs (coeff_b, check_order), src/fields/fp.rs (modulus), src/lib.rs (CurveError::NotMember)")],
  ["Deserialize / BorshDeserialize of Fr, G1, G2, Gt"])
p("C15", "Encodings are stable: fixed layout, fixed width, injective",
  "Byte encodings are a fixed function of the represented value: 32-byte blocks (Montgomery form with radix 2^256, four 64-bit words least significant first, each big-endian), one block for a scalar, 3 for a G1 point, 6 for a G2 point, 12 for a target-group value in tower order, and converting to a byte vector gives the same bytes. Serialized forms carry the same words in the same order under both features, so data written by one build is read by another. Different values have different encodings.",
  ["inputs", "configurations"], "every value of the four types and of the 256-bit integer type, both features",
  "No test looks at an encoding; changing word order, endianness or component order leaves all tests green while breaking stored data.",
  ["src/arith.rs", "src/fields/fp.rs", "src/fields/fq2.rs", "src/fields/fq6.rs", "src/fields/fq12.rs", "src/groups/mod.rs", "src/lib.rs"],
  [("word-wise writer and concatenation", "src/arith.rs U256::into_bytes; into_bytes of every layer")],
  ["into_bytes", "Vec::from", "serde/borsh bytes"])
p("C16", "256-bit modular integer primitives are exact",
  "For every odd modulus below 2^254 and operands below it, the public 256-bit integers' modular add, subtract, negate, Montgomery multiply and invert return exactly the corresponding residue below the modulus. Comparison, zero and parity tests, single-bit reads and writes, bit iteration, big-endian decoding, printing and serialization agree with the integer the words denote, for all 256-bit values and all indices.",
  ["inputs"], "all odd moduli below 2^254 and all operands below the modulus; all 256-bit values and bit indices",
  "Carry and borrow chains across words depend on extreme word values that uniform random tests never draw; only set_bit and divrem have direct tests.",
  ["src/arith.rs"],
  [("half-word carries", "src/arith.rs adc/sbb/mac_with_carry"), ("Montgomery reduction", "src/arith.rs mul_reduce"), ("binary inversion", "src/arith.rs invert"), ("word-wise comparison from the top", "src/arith.rs Ord")],
  ["arith::U256 methods"])
p("C17", "512-bit division and composition are exact",
  "For every 512-bit integer and every modulus below 2^254, division returns the exact remainder, and the exact quotient precisely when the quotient is smaller than the modulus. Composing c1·m + c0 yields exactly that integer, 64 bytes decode as a big-endian integer, collected words decode as their little-endian bytes in order (cut or zero-padded to 64), and equality, printing, serialization and single-bit reads agree with the integer for all indices.",
  ["inputs"], "all 512-bit integers, all non-zero moduli below 2^254, all 256-bit c0, c1",
  "One random loop with the base-field modulus and seven fixed vectors; no other modulus, no small quotient, no boundary of the second operand.",
  ["src/arith.rs"],
  [("shift-and-subtract division", "src/arith.rs U512::divrem"), ("multiply-accumulate", "src/arith.rs U512::from, mac_digit"), ("byte decoding", "src/arith.rs U512::interpret")],
  ["arith::U512 methods", "Fr::interpret"])
p("C18", "Random sampling is uniform, valid and a pure function of the generator",
  "Random scalars are uniformly distributed residues below r (no detectable bias, the whole range reachable), random group elements are genuine elements of their group, spread over it, and not degenerate. Sampling is a deterministic function of the random generator's output and draws fresh randomness for every sample.",
  ["inputs", "histories"], "every random generator state and every sequence of draws",
  "Tests consume random values but never check their distribution, range or dependence on the generator.",
  ["src/lib.rs", "src/groups/mod.rs", "src/fields/fp.rs", "src/arith.rs"],
  [("64 random bytes reduced modulo r", "src/lib.rs Distribution<Fr>"), ("random scalar times generator", "src/groups/mod.rs GroupElement::random"), ("wide reduction", "src/arith.rs U256::random")],
  ["rng.gen::<Fr/G1/G2/Gt>()", "Group::random", "U256::random"])
p("C19", "Pairing protocols agree in every schedule: key agreement, signatures, encryption",
  "In two-party and three-party Diffie-Hellman over either group and one-round three-party key agreement with the pairing, all parties derive the same secret, whatever the order of messages and whether messages are serialized, normalized or re-encoded on the way. Pairing-based signatures verify exactly when the signature is the message point multiplied by the signer's key, also when aggregated. Identity-based decryption recovers the message exactly with the key of the identity it was encrypted for, and any two of three holders of a shared key produce the signature of that key, and nothing else does.",
  ["schedules", "inputs", "histories"], "all interleavings of protocol steps, all keys, all message encodings along the way",
  "The examples run one schedule with random keys and are compiled, not run, by the tests; no negative case and no message encoding is exercised.",
  ["src/lib.rs", "src/groups/mod.rs", "examples/dh.rs", "examples/joux.rs"],
  [("commuting scalar multiplications", "src/groups/mod.rs Mul<Fr>"), ("bilinearity", "src/groups/mod.rs pairing")],
  ["G1/G2 * Fr", "pairing", "Gt::pow", "Gt::inverse", "Fr arithmetic", "=="])
p("C20", "Operations are total: no panic and no hang on genuine values",
  "Every public operation on scalars and group elements that were obtained through the public interface terminates and returns a value or the documented error/none result, with and without overflow and debug assertions. In particular inversion of zero, exponent zero, identity arguments and boundary words never panic or loop.",
  ["inputs", "histories", "configurations"], "every operation on every genuinely obtained value, in checked and unchecked builds",
  "Debug assertions inside carries and the inversion loop are only reached by extreme operands; tests run in one profile and would only see the operands they draw.",
  ["src/arith.rs", "src/fields/fp.rs", "src/fields/fq12.rs", "src/groups/mod.rs", "src/lib.rs"],
  [("debug assertions on carries", "src/arith.rs add_nocarry/sub_noborrow/mac_digit"), ("unwrap/expect on inverses", "src/lib.rs Gt::inverse, src/groups/mod.rs to_affine/pairing"), ("loop exits", "src/arith.rs invert")],
  ["all public operations"])
p("C21", "Results are pure: independent of call history, threads, build configuration",
  "The result of every operation depends only on its operands: repeating it later, in another order, or concurrently from several threads gives the same value with the same encoding and never changes its operands. Builds with and without debug assertions and with either serialization feature compute identical results.",
  ["schedules", "histories", "configurations"], "all interleavings of operations on shared values by several threads, all call orders, both features, both profiles",
  "Every test runs each computation once, in one configuration, on values private to the test.",
  ["src/lib.rs", "src/groups/mod.rs", "src/fields/mod.rs", "src/arith.rs"],
  [("values are Copy and operators take them by value; no global state", "src/lib.rs, src/groups/mod.rs"), ("feature-gated impls", "src/lib.rs")],
  ["all public operations from several threads and builds"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
