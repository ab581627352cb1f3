#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))
HOOK = "cfg(redox_ecc_verif): redox_ecc::verif builds and reads projective coordinates"
FP, F2 = "src/primefield/mod.rs", "src/quadraticfield/mod.rs"
W, M, E = "src/weierstrass/", "src/montgomery/", "src/edwards/"
RM = "src/instances/rational_maps.rs"

prop("C01", "Prime field ring arithmetic",
 "For every prime field and all elements a and b, a+b, a-b, a*b, -a and a^2 are the integers' sum, difference, product, negation and square reduced modulo p, whatever mix of owned and borrowed operands is used. Every element ever produced is the canonical residue in [0,p), so two elements are equal exactly when they are congruent, and zero and one are recognised exactly.",
 ["inputs", "configurations"], "all pairs of residues, all forms of every operator, each supported prime",
 "Tests multiply a few fixed elements; the residues that exercise reduction, negation of zero and non-canonical results are vanishingly rare.",
 [FP], [("reduction after each operation", FP + ": FpElt::red, impl_op_ex!")], ["FpElt equality", "to_bytes_be"])
prop("C02", "Prime field inversion, division and exponentiation",
 "For every nonzero a, 1/a and a^-1 are the inverse of a, b/a is b times that inverse, and the inverse of 0 is 0. For every non-negative exponent, a^e is the e-fold product with a^0 = 1 (0^e = 0 for e>0); for a negative exponent and a nonzero it is the power of the inverse; an exponent outside what an operator documents is refused.",
 ["inputs"], "all residues; all integer exponents, of any sign and size",
 "Division is only exercised through curve normalisation of a handful of points; zero and multiples of p-1 never occur.",
 [FP], [("Fermat inversion", FP + ": inv_mod"), ("exponent reduction", FP + ": BitXor<&BigInt>")], ["/", "^", "1u32 /"])
prop("C03", "Prime field square roots, residuosity and sign",
 "For p = 3 mod 4 and p = 5 mod 8, an element is reported to be a square exactly when it is one (zero included) and the square root of a square is one of its roots, no matter which operations ran earlier on the field or on its clones. The sign of an element is -1 exactly when its canonical residue is odd, so for a nonzero element the signs of a and -a are opposite, and the conditional move returns its second operand exactly when the condition is true.",
 ["inputs", "histories"], "all residues; both supported congruence classes of p; any earlier use of the field's cached constants",
 "Half of all residues need the second root branch, and zero is a single point; the cached constants are computed once, so order effects do not show in a single test.",
 [FP, "src/field.rs"], [("exponentiation by a cached exponent", FP + ": get_sqrt_precmp/calc_sqrt_precmp, Sqrt for FpElt"), ("parity", FP + ": Sgn0"), ("conditional move", "src/field.rs: CMov")],
 ["is_square", "sqrt", "sgn0", "cmov"], None, [("sqrt_precmp", "constants computed once per field and shared by its clones", FP)])
prop("C04", "Quadratic extension field arithmetic",
 "In GF(p^2) = GF(p)[i]/(i^2+1), sums, differences, products, negation, squares, inverses, quotients and integer powers (of either sign) are those of that field for all elements, whatever mix of owned and borrowed operands is used. Equality, zero and one are recognised exactly, and an exponent an operator does not document is refused.",
 ["inputs"], "all pairs of elements of GF(p^2), p = 3 mod 4; integer exponents",
 "No test computes in the extension field at all.", [F2], [("component formulas", F2 + ": impl_op_ex!, inv_mod, BitXor")], ["operators of Fp2Elt"])
prop("C05", "Quadratic extension square roots, residuosity and sign",
 "For p = 3 mod 4, an element of GF(p^2) is reported to be a square exactly when it is one (zero included), and the square root of a square is one of its roots. The sign is the sign of the first nonzero component, real part first, so a nonzero element and its negative have opposite signs.",
 ["inputs", "histories"], "all elements of GF(p^2)", "No test takes a square root in the extension field.",
 [F2], [("root by exponentiation", F2 + ": Sqrt, Sgn0"),], ["is_square", "sqrt", "sgn0"], None, [("sqrt_precmp", "constants computed once per field", F2)])
prop("C06", "Fixed-length serialization of field elements and scalars",
 "Every element of GF(p), of GF(p^2) and every scalar serializes to exactly the field's (order's) byte length, zero-padded, big- or little-endian, in GF(p^2) real part first; the two byte orders are the component-wise reverse of each other. Reading the bytes back gives the same element, bytes denoting an integer of at least p are reduced modulo p, and GF(p^2) refuses any other length.",
 ["inputs"], "all elements, all byte strings up to the stated lengths", "Only values with a full-length encoding occur in tests; leading zero bytes have probability 2^-8 each.",
 [FP, F2, W + "scalar.rs", M + "scalar.rs", E + "scalar.rs"], [("padding", FP + ": Serialize"), ("reading", FP + ": Deserialize")], ["to_bytes_be", "to_bytes_le", "from_bytes_be", "from_bytes_le"])
prop("C07", "Lifting integers and literals into fields",
 "Lifting a machine integer of any width and sign, a big integer, or a literal (decimal, 0x, 0o or 0b, optionally negative, empty meaning zero) gives the element congruent to the number written. In GF(p^2) integers lift to the real component and a literal is two such numbers separated by a comma, real part first.",
 ["inputs"], "every value of each integer type; every integer written in each radix", "Tests only lift the curve constants.",
 [FP, F2, "src/ops.rs"], [("reduction at construction", FP + ": Field::elt, FromFactory")], ["Fp::from", "Fp2::from", "elt", "lift"])
prop("C08", "Scalars are the integers modulo the group order",
 "A scalar made from any integer is its residue modulo the order, and sums, differences, products, negation, quotients and inverses (of nonzero scalars, the order being prime) are those of the integers modulo the order, in every operand form of all three curve models. Two scalars are equal exactly when they are congruent modulo the same order, and combining scalars of different orders is refused.",
 ["inputs", "configurations"], "all pairs of integers, every supported order, every operator form", "Tests build a few fixed scalars and never use scalar arithmetic.",
 [W + "scalar.rs", M + "scalar.rs", E + "scalar.rs"], [("reduction", "scalar.rs: Scalar::new, red, inv_mod")], ["Scalar operators", "to_bytes_be"])
prop("C09", "Scalar bit iteration",
 "Iterating a scalar left to right or right to left yields exactly the bits of its value, from the most significant set bit down or from the least significant bit up to it, and then ends and stays ended. The zero scalar yields no bits.",
 ["inputs"], "every scalar value within the bit bound", "Only the scalars of the multiplication tests are iterated; zero and word-boundary lengths are not.",
 [W + "scalar.rs", M + "scalar.rs", E + "scalar.rs"], [("index arithmetic over 32-bit digits", "scalar.rs: Iterino")], ["iter_lr", "iter_rl"])
prop("C10", "Weierstrass group law",
 "On every built-in Weierstrass curve the sum, difference and negation of any two points, in any projective representation and any operand form, denote the results of the chord-and-tangent law. This includes equal points, opposite points and the identity.",
 ["inputs"], "any two points of each curve, any projective representation", "Exceptional pairs (equal, opposite, identity) are negligible among random ones, and other representations never arise in tests.",
 [W + "point.rs", W + "curve.rs"], [("complete addition formulas", W + "point.rs: core_add, core_neg")], ["+", "-", "unary -"], HOOK)
prop("C11", "Montgomery group law",
 "On every built-in Montgomery curve, and for other values of its coefficient b, the sum, difference and negation of any two points in any projective representation and operand form denote the results of the chord-and-tangent law on b*y^2 = x^3+a*x^2+x. This includes equal points, opposite points, the identity and the point of order two.",
 ["inputs", "configurations"], "any two points of each curve, any projective representation", "As for C10; built-in curves all have b = 1.",
 [M + "point.rs", M + "curve.rs"], [("complete addition formulas", M + "point.rs: core_add, core_neg")], ["+", "-", "unary -"], HOOK)
prop("C12", "Twisted Edwards group law",
 "On every built-in twisted Edwards curve the sum, difference and negation of any two points, in any extended representation and operand form, denote the results of the Edwards addition law, and the extended coordinate always equals the product of the affine coordinates. This includes equal points, opposite points, the identity and the points of small order.",
 ["inputs"], "any two points of each curve, any extended representation", "As for C10; points of small order never arise in tests.",
 [E + "point.rs", E + "curve.rs"], [("unified addition formulas", E + "point.rs: core_add, core_neg")], ["+", "-", "unary -"], HOOK)
prop("C13", "Scalar multiplication",
 "In all three models k*P is the k-fold sum of P for every scalar k and every point P, in every operand form and order, with 0*P the identity. Each built-in curve's generator, order and cofactor are the standard ones, and order*G is the identity.",
 ["inputs"], "every point, every scalar (bounds in DESIGN.md)", "Tests multiply the generator by a few scalars.",
 [W + "point.rs", M + "point.rs", E + "point.rs", "src/instances/"], [("double and add", "point.rs: core_mul, core_doubling"), ("bit iteration", "scalar.rs: iter_lr")], ["point * scalar", "scalar * point", "get_generator", "get_order", "get_cofactor"], HOOK)
prop("C14", "Point equality, identity test and normalization",
 "Two representations of points of one curve compare equal exactly when they denote the same point, and the identity test holds exactly for the identity. Normalizing keeps the point and yields its affine coordinates with third coordinate one (and the identity stays the identity).",
 ["inputs"], "any two points of each curve in any projective or extended representation", "Tests compare points that come out of the same computation.",
 [W + "point.rs", M + "point.rs", E + "point.rs"], [("cross-multiplied comparison", "point.rs: PartialEq"), ("division by z", "point.rs: normalize")], ["==", "is_zero", "normalize"], HOOK)
prop("C15", "Only valid operands are accepted",
 "Constructing a point from two coordinates succeeds exactly when they satisfy the curve equation, and the on-curve test is that equation for every representation. Combining elements, points or scalars that belong to different fields, curves or orders is always refused, never computed, and points of different curves never compare equal.",
 ["inputs", "configurations"], "all coordinate pairs of each curve; all pairs of different curves, fields and orders", "No test offers an invalid point or mixes curves.",
 [W + "curve.rs", M + "curve.rs", E + "curve.rs", "src/macros/mod.rs", FP], [("curve equation", "curve.rs: is_on_curve, new_point"), ("parameter comparison", "do_if_eq!")], ["new_point", "is_on_curve", "operators"], HOOK)
prop("C16", "Encoding then decoding returns the point",
 "Every point of every built-in Weierstrass, Montgomery and Edwards curve, in any representation, encodes to the documented form (identity as one zero byte; 02/03 by parity of y with big-endian x; 04 with x and y; for Edwards little-endian y with the parity of x in the top bit) of fixed length. Decoding those bytes returns the same point, compressed or not.",
 ["inputs"], "every point and representation, both forms", "Tests round-trip the generators only; short coordinates, the other parity and special points are not reached.",
 [W + "point.rs", W + "curve.rs", M + "point.rs", M + "curve.rs", E + "point.rs", E + "curve.rs"], [("tag and padding", "point.rs: encode"), ("root recovery", "curve.rs: decode")], ["encode", "decode"], HOOK)
prop("C17", "Decoding untrusted bytes, Weierstrass and Montgomery",
 "For every byte string, decoding returns a point or an error and never panics. It succeeds exactly on the canonical encodings: the single byte 00, tag 04 with two coordinates below p on the curve, or tag 02/03 with x below p belonging to a point of that parity; so each point has one encoding per form and the decoded point is the one encoded.",
 ["inputs"], "all byte strings (lengths up to twice the field size plus 40)", "No test decodes anything but the output of encode.",
 [W + "curve.rs", M + "curve.rs"], [("length, tag, range and curve checks", "curve.rs: Decode")], ["decode"])
prop("C18", "Decoding untrusted bytes, Edwards",
 "For every byte string, decoding on an Edwards curve returns a point or an error and never panics. It succeeds exactly when the length is right, y is below p, and y belongs to a point whose x has the encoded parity (x = 0 only with a clear sign bit); the decoded point is that point.",
 ["inputs"], "all byte strings (lengths up to size+40)", "No test decodes anything but the output of encode.",
 [E + "curve.rs"], [("length, range, root and sign checks", E + "curve.rs: Decode")], ["decode"])
prop("C19", "SSWU and SVDW maps to Weierstrass curves",
 "For every field element, the SSWU map (also composed with its isogeny for curves with a zero coefficient) and the Shallue-van de Woestijne map return the curve point defined by the published formulas, exceptional inputs included, with the sign of y equal to the sign of the input for SSWU and SVDW. Their constructors accept exactly the parameters meeting the documented conditions.",
 ["inputs", "configurations"], "every field element, each suite of the built-in curves; every candidate Z for the constructors", "Tests map a few inputs; exceptional ones are roots of fixed polynomials.",
 [W + "sswu.rs", W + "sswuab0.rs", W + "svdw.rs"], [("straight-line formulas", "sswu.rs, svdw.rs: map"), ("parameter checks", "verify")], ["SSWU::new/map", "SSWUAB0::new/map", "SVDW::new/map"], HOOK)
prop("C20", "Elligator 2 maps",
 "For every field element, Elligator 2 on Montgomery curves (any nonzero b) and on Edwards curves through the rational map returns the point defined by the published formulas, the exceptional input included. The constructors accept exactly a non-square Z (and nonzero coefficients), and a rational map of another domain is refused.",
 ["inputs", "configurations"], "every field element on each built-in Montgomery and Edwards curve; every candidate Z", "Tests map a few inputs and only b = 1.",
 [M + "elligator2.rs", E + "elligator2.rs"], [("straight-line formula", M + "elligator2.rs: map")], ["Ell2::new", "Ell2::map"], HOOK)
prop("C21", "Rational maps between Edwards and Montgomery curves",
 "For every point in any representation, pushing and pulling along the Edwards/Montgomery maps give the points defined by the maps' formulas, always on the target curve, with the identity and exceptional points handled as the extended maps prescribe. For 25519 each map inverts the other on every point.",
 ["inputs"], "every point of both curves in any representation", "Exceptional points (identity, order two and four) never arise in tests.",
 [RM], [("projective formulas and special cases", RM + ": push, pull")], ["push", "pull"], HOOK)
prop("C22", "Isogenies of secp256k1 and BLS12-381",
 "For every point of the isogenous curve in any representation, the 3-isogeny to secp256k1 and the 11-isogeny to BLS12-381 G1 return a point of the target curve that is the image defined by the isogeny's rational functions, kernel points and the identity going to the identity. The image of a negated point is the negated image.",
 ["inputs"], "every point of the isogenous curves in any representation", "Tests push a few points produced by maps; kernel points and other representations never arise.",
 [RM], [("Horner evaluation of the coefficient tables", RM + ": push")], ["push"], HOOK)
prop("C23", "Field values are usable from several threads",
 "Square roots and other operations on one field shared by several threads give the same results as sequential use, under every interleaving, and never panic or deadlock.",
 ["schedules"], "all interleavings of first uses of a field's cached constants", "No test uses threads.",
 [FP, F2], [("once-initialised constants", FP + ": get_sqrt_precmp")], ["sqrt"], None, [("sqrt_precmp", "OnceLock with the root constants", FP)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
