CLAIMS = {
 "C01": dict(note="All residues of each supported prime, all operator forms; no bound on values."),
 "C02": dict(kani=True, note="All residues of each supported prime and of eight small ones, every operator form; exponents arbitrary up to 2^600 with the power itself uninterpreted, and closed forms for j+k(p-1)."),
 "C03": dict(note="All residues of each prime (both congruence classes), five histories of the cached constants."),
 "C04": dict(kani=True, note="All pairs of elements over the supported primes p = 3 mod 4; long exponents on tiny fields only."),
 "C05": dict(note="All elements for residuosity and sign; square roots on tiny fields (p <= 31), where exponentiation is exact."),
 "C06": dict(note="All residues of every byte length, all byte strings of the stated lengths."),
 "C07": dict(kani=True, note="All integers below 2^600 in four radices and both signs; every machine integer of eight types, bit-precise."),
 "C09": dict(tech="Kani/CBMC bounded model checking of the real iterator code over a fixed-width integer shim, every scalar of the stated lengths at once", note="Every scalar of 0 to 34 bits and of 63 to 65 bits in the quick tier (0 to 70 and 94 to 98 in the thorough one), three models, bit-precise."),
 "C08": dict(kani=True, note="All pairs of integers below 2^600 for eleven orders and three models."),
 "C10": dict(note="Any two points, any representation, on each of the seven built-in curves."),
 "C11": dict(note="Any two points, any representation, on both built-in curves and four others with b other than 1."),
 "C12": dict(note="Any two points, any extended representation, on both built-in curves."),
 "C13": dict(kani=True, note="Every scalar below 2^10 (2^34 thorough) by bit-precise symbolic execution of the real multiplication over an abstract group (additions replaced by their proved meaning); any point with scalars 0..3 in full; order facts by concrete computation."),
 "C14": dict(note="Any two points in any representation, on all built-in curves."),
 "C15": dict(note="Any pair of residues on each curve; any two points, elements or scalars of the listed pairs of different curves and fields, every operator form."),
 "C16": dict(note="Any point in any representation; coordinates of full length, with one or two leading zero bytes, or of one byte."),
 "C17": dict(note="Any byte string of the listed lengths."),
 "C18": dict(note="Any byte string of every length up to twice the proper one and more; in the quick tier the byte holding the sign bit takes 22 values on edwards25519."),
 "C19": dict(note="Any field element, the standard Z of every built-in suite (any valid Z in the thorough tier); constructors for any A, B, Z over fourteen primes; the isogeny step is shown for an arbitrary point of its domain."),
 "C20": dict(note="Any field element, standard and arbitrary Z, both built-in Montgomery curves, both Edwards curves; any A, B, Z over primes p = 3 mod 4 and GF(5)."),
 "C21": dict(note="Any point in any representation, both maps and both directions."),
 "C22": dict(note="Any point in any representation, both isogenies."),
}
NA = {
 "C23": "Interleavings happen inside std::sync::OnceLock (atomics and futex calls) and std::thread: Kani has no threads and treats atomics sequentially, the symbolic engine executes one thread, and CBMC's concurrency support does not reach Rust; encoding a hand-written model of OnceLock instead would not be the real code. Single-threaded histories of the cached constants, including clones, are decided under C03.",
}
