#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "No input makes a KEM or RNG call panic, overflow or run out of bounds",
  "For every public key, secret key, ciphertext and every byte string the random source can produce, key generation, encapsulation and decapsulation run to completion without a panic, an arithmetic overflow (in a build with overflow checks) or an out-of-bounds access. The same holds for the bundled deterministic generator from every internal state (any key, any counter block including all-ones, any request counter), every seed and every request length.",
  ["inputs", "histories", "configurations"],
  "all key/ciphertext/seed byte strings of the API lengths, all generator states, all four parameter sets, overflow checks on",
  "The tests run a handful of fixed vectors; a coefficient value or generator state that overflows one addition has probability 1e-4 or far less per call and never occurs in them.",
  ["src/kem.rs", "src/owcpa.rs", "src/poly.rs", "src/poly_mod.rs", "src/poly_lift.rs", "src/pack3.rs", "src/packq.rs", "src/sample.rs", "src/sample_iid.rs", "src/poly_r2_inv.rs", "src/poly_s3_inv.rs", "src/poly_rq_mul.rs", "src/crypto_sort_int32.rs", "src/cmov.rs", "src/rng.rs"],
  [("fixed-size arithmetic and indexing reachable from the three API calls", "src/kem.rs crypto_kem_*"), ("generator counter and request counter", "src/rng.rs AesState")])

p("C02", "Secrets never decide a branch, a memory address or a division",
  "During key generation, encapsulation and decapsulation no conditional jump, no memory address, no loop bound and no operand of a division or remainder depends on secret data. Secret are all bytes obtained from the random source, the secret key, and everything computed from them including the accept/reject verdict; public are the public key, the ciphertext handed to decapsulation, and success or failure of the random source.",
  ["inputs", "configurations"],
  "all secret values, all paths of the three API calls, all four parameter sets",
  "Functional tests compare outputs only; a leaking branch gives identical outputs. Timing tests sample a few secrets on one machine.",
  ["src/kem.rs", "src/owcpa.rs", "src/poly.rs", "src/poly_mod.rs", "src/poly_lift.rs", "src/pack3.rs", "src/packq.rs", "src/sample.rs", "src/sample_iid.rs", "src/poly_r2_inv.rs", "src/poly_s3_inv.rs", "src/poly_rq_mul.rs", "src/crypto_sort_int32.rs", "src/cmov.rs"],
  [("branch-free mask selection", "src/cmov.rs, src/poly_s3_inv.rs, src/poly_r2_inv.rs"), ("branch-free reductions and checks", "src/poly_mod.rs, src/owcpa.rs"), ("data-oblivious sort", "src/crypto_sort_int32.rs")])

p("C03", "Decapsulation always answers, with implicit rejection on a bad ciphertext",
  "Decapsulation returns success for every ciphertext and secret key. All 32 bytes of the shared secret equal SHA3-256 of the recovered packed pair (r, m) when the ciphertext is accepted, and SHA3-256 of the secret key's final 32 bytes followed by the whole ciphertext when it is rejected; one verdict selects all bytes and nothing else influences them.",
  ["inputs", "configurations"],
  "all secret keys, all ciphertexts, both verdicts, all four parameter sets",
  "The tests decapsulate honest ciphertexts only, so the rejection branch and a partial or mixed selection are never observed.",
  ["src/kem.rs", "src/cmov.rs", "src/owcpa.rs"],
  [("verdict-driven conditional move of the rejection secret", "src/kem.rs crypto_kem_dec, src/cmov.rs"), ("rejection secret from the secret key's PRF key and the ciphertext", "src/kem.rs crypto_kem_dec")])

p("C04", "Decapsulation rejects exactly the ciphertexts that are not well formed",
  "The decapsulation verdict is 'reject' if and only if at least one of these holds: an unused bit of the ciphertext's last byte is set; the recovered message does not have exactly the required number of +1 and of -1 coefficients (HPS sets only); some coefficient of the recovered blinding polynomial is not 0, 1 or -1 modulo q. No byte, bit or coefficient is exempt from the test.",
  ["inputs", "configurations"],
  "all secret keys and ciphertexts, every coefficient position and every unused bit, all four parameter sets",
  "Honest ciphertexts pass every check, so tests cannot see a check that is missing, skips a position or accepts an extra value; malformed inputs that pass all other checks are cryptographically hard to build.",
  ["src/owcpa.rs", "src/kem.rs"],
  [("three validity checks and their disjunction", "src/owcpa.rs owcpa_check_ciphertext/owcpa_check_r/owcpa_check_m/owcpa_dec")])

p("C05", "Encapsulation computes the specified ciphertext and secret for every input",
  "For every public key h and all random bytes, with r and m the polynomials sampled from those bytes, the ciphertext is the packing of r*h + Lift(m) modulo q and x^n-1, and the shared secret is SHA3-256 of the ternary packing of r followed by that of m. This holds for every coefficient position and every coefficient value, not only for keys that key generation produced.",
  ["inputs", "configurations"],
  "all public keys, all random bytes, all four parameter sets",
  "Known-answer vectors fix one execution per parameter set; wrong handling of a rare coefficient value or position goes unseen, and a change that decapsulation undoes symmetrically passes round-trip tests.",
  ["src/kem.rs", "src/owcpa.rs", "src/poly_rq_mul.rs", "src/poly_lift.rs", "src/packq.rs", "src/pack3.rs", "src/poly.rs"],
  [("ring multiplication, lift, packing and hashing", "src/kem.rs crypto_kem_enc, src/owcpa.rs owcpa_enc")])

p("C06", "Decapsulation recovers (r, m) by the specified formula for every input",
  "For every secret key and ciphertext c the recovered message is ((c*f mod q, centred) mod 3) * f^-1 in the ternary ring, and the recovered blinding polynomial is (c - Lift(m)) * h^-1 modulo q, where f, f^-1 and h^-1 are read from the secret key; these two, ternary-packed, are what the accepted shared secret is hashed from. This holds for every coefficient position and value, including secret-key bytes no key generation would produce.",
  ["inputs", "configurations"],
  "all secret keys and ciphertexts, all four parameter sets",
  "The vectors exercise one key and ciphertext per parameter set; an error in a reduction that hits one coefficient value in thousands, or one position, is not reached.",
  ["src/owcpa.rs", "src/poly.rs", "src/poly_mod.rs", "src/poly_lift.rs", "src/poly_rq_mul.rs", "src/packq.rs", "src/pack3.rs"],
  [("decryption pipeline", "src/owcpa.rs owcpa_dec"), ("modular reductions", "src/poly_mod.rs")])

p("C07", "Key generation assembles the keys by the specified formula",
  "For all random bytes, with f and g the sampled polynomials and given correct ring inversions, the secret key is the ternary packing of f, the ternary packing of f's inverse modulo 3, the q-packing of the inverse of the public polynomial, and 32 bytes taken verbatim from the random source; the public key is the packing of the public polynomial 3*g/f (HPS: g replaced by 3g; HRSS: g multiplied by 3(x-1)). Each part occupies its own range and the ranges cover both keys completely.",
  ["inputs", "configurations"],
  "all random bytes, all four parameter sets, modulo the two ring-inversion primitives",
  "Vectors fix one key per parameter set and comparison is of whole keys from one seed; value-dependent errors in the assembly stay invisible.",
  ["src/kem.rs", "src/owcpa.rs", "src/poly.rs", "src/packq.rs", "src/pack3.rs"],
  [("key assembly", "src/owcpa.rs owcpa_keypair, src/kem.rs crypto_kem_keypair")])

p("C08", "Packed polynomials decode to exactly what was encoded, in the fixed layout",
  "Encoding any polynomial's first n-1 coefficients modulo q and decoding the bytes returns the same values, the stored bytes are the little-endian concatenation of the coefficients' low bits with zero padding, and decoding restores the final coefficient as zero or as the negated sum of the others, as the key part requires. Ternary packing stores five base-3 digits per byte and decoding returns the same digits; every one of the 256 byte values decodes to digits 0, 1 or 2.",
  ["inputs", "configurations"],
  "all coefficient vectors and all byte strings, all four parameter sets",
  "Unit tests encode one or two fixed polynomials; a wrong mask or shift on one of the many positions shows only for particular bit patterns.",
  ["src/packq.rs", "src/pack3.rs"],
  [("bit packing modulo q", "src/packq.rs"), ("base-3 packing", "src/pack3.rs")])

p("C09", "Sampled polynomials are ternary with the exact required weight",
  "For every random byte string the sampled f, g, r and m have coefficients in {0, 1, 2} and a final coefficient of zero; for the HPS sets g and m have exactly the prescribed number of 1s and of 2s. Each fixed-weight sample is a rearrangement decided only by sorting its random bytes, and the sorting step returns its input in ascending order for every input.",
  ["inputs", "configurations"],
  "all random byte strings, all four parameter sets",
  "Tests sample from a few seeds; a sort that misorders one pattern or a weight that is off when two keys tie needs a specific input.",
  ["src/sample.rs", "src/sample_iid.rs", "src/crypto_sort_int32.rs"],
  [("fixed-weight sampling by sorting tagged words", "src/sample.rs sample_fixed_type"), ("data-oblivious sorting network", "src/crypto_sort_int32.rs")])

p("C10", "Outputs depend only on declared inputs and are fully written",
  "After a successful call every byte of every output buffer has been written and does not depend on what the buffer held before; input buffers are not modified. Public key bytes and ciphertext bytes never depend on the secret key's final 32 bytes, and the sampled message never depends on the public key.",
  ["inputs", "configurations"],
  "all inputs and all previous buffer contents, all four parameter sets",
  "Tests start from zeroed buffers and compare with one expected output, so a byte left unwritten or mixed in with its old value goes unseen.",
  ["src/kem.rs", "src/owcpa.rs", "src/pack3.rs", "src/packq.rs", "src/cmov.rs"],
  [("output writes of the three API calls", "src/kem.rs")])

p("C11", "A failing random source always surfaces as an error and yields no key",
  "If any request to the random source fails, key generation and encapsulation return that same error, request nothing further, and write nothing to the caller's buffers that is derived from a buffer the random source did not fill; encapsulation leaves ciphertext and secret untouched. If no request fails they return success.",
  ["fault_sequences", "inputs"],
  "failure at each of the requests made by each call, all four parameter sets",
  "The only random source in the tests never fails.",
  ["src/kem.rs", "src/rng.rs"],
  [("error propagation from the random source", "src/kem.rs crypto_kem_keypair/crypto_kem_enc")])

p("C12", "Every secret comes from its own fresh random bytes, each used as specified",
  "Key generation makes exactly two requests (the sampling seed, then the 32-byte rejection key) and encapsulation exactly one, each for exactly the specified number of bytes. The two polynomials sampled in a call come from disjoint parts of the seed, every seed byte is used, and no byte of any secret is constant, reused or taken from caller-supplied memory.",
  ["inputs", "configurations"],
  "all random bytes, all four parameter sets",
  "With a fixed seed all outputs look random; shared or ignored seed bytes still give working keys and passing round trips.",
  ["src/kem.rs", "src/sample.rs", "src/owcpa.rs"],
  [("seed requests and seed slicing", "src/kem.rs, src/sample.rs sample_fg/sample_rm")])

p("C13", "The bundled generator follows AES-256-CTR-DRBG for every state and length",
  "For every state and request length the generator outputs the AES-256 encryptions of the successive 128-bit big-endian counter values after the current one (wrapping at 2^128), truncated to the requested length, and then replaces key and counter by the next three encrypted blocks under the old key and adds one to the request counter. Initialisation depends only on the given seed, never on earlier state, XORs all 48 seed bytes into the update, and sets the request counter to 1.",
  ["inputs", "histories"],
  "all generator states, seeds and request lengths",
  "Known-answer tests use one seed and a few lengths; counter carries across bytes and wrap-around do not occur in them.",
  ["src/rng.rs"],
  [("counter mode update and output", "src/rng.rs AesState")])

p("C14", "The library keeps no hidden state and has no side effects",
  "Library code contains no mutable global state, no unsafe code, no interior mutability, no thread, file, network, environment, time or console access, and no call to code outside the crate other than the language's core and allocation library, the AES cipher and SHA-3. Hence a call's results are a function of its arguments and of what the random source returns.",
  ["histories", "schedules", "programs"],
  "all functions of the library, all four parameter sets",
  "State kept across calls shows up only for particular call histories or concurrent use, which the tests do not run.",
  ["src/lib.rs", "src/kem.rs", "src/rng.rs", "src/owcpa.rs"],
  [("absence of statics, unsafe blocks and effectful calls", "src/")])

p("C15", "Published sizes, names and parameters agree with each parameter set",
  "For each of the four parameter sets the published key, ciphertext and secret sizes and algorithm name equal the sizes and name of the NTRU round-3 set selected by the build configuration, the internal parameters derived from them are consistent, and the API functions accept exactly buffers of the published sizes.",
  ["configurations"],
  "each of the four build configurations",
  "A test run is one configuration with one vector; sizes are used consistently on both sides, so a wrong but consistent value passes.",
  ["src/params.rs", "src/api.rs", "src/lib.rs", "build.rs", "Cargo.toml"],
  [("parameter constants", "src/params.rs"), ("published constants", "src/api.rs")])

p("C16", "Inverting modulo q lifts an inverse modulo 2 exactly",
  "Whenever the starting value is an inverse of the polynomial modulo 2 in the quotient ring, the lifting step returns its inverse modulo q in that ring, for every polynomial with 16-bit coefficients.",
  ["inputs", "configurations"],
  "all polynomials and all starting inverses, all four parameter sets",
  "Unit tests lift one fixed inverse; wrong intermediate arithmetic that is only right modulo a smaller power of two or for small coefficients can pass.",
  ["src/poly.rs"],
  [("Newton iteration", "src/poly.rs poly_r2_inv_to_rq_inv")])

p("C17", "Decapsulating an honest encapsulation returns the same secret",
  "For every key pair that key generation produces from nonzero private polynomials and every encapsulation to its public key, decapsulating the ciphertext with the secret key returns the encapsulated shared secret; there is no decryption failure.",
  ["inputs", "configurations"],
  "all random bytes, all four parameter sets",
  "Round-trip tests sample a few key pairs and messages; a failure confined to rare polynomials, coefficients or key pairs is not hit by them.",
  ["src/kem.rs", "src/owcpa.rs", "src/sample.rs", "src/sample_iid.rs", "src/poly.rs", "src/poly_lift.rs", "src/poly_mod.rs", "src/poly_rq_mul.rs", "src/poly_s3_inv.rs", "src/poly_r2_inv.rs", "src/pack3.rs", "src/packq.rs"],
  [("key generation", "src/owcpa.rs owcpa_keypair"), ("encryption", "src/owcpa.rs owcpa_enc"), ("decryption", "src/owcpa.rs owcpa_dec"), ("sampling", "src/sample.rs")])

p("C18", "Ring inversion modulo 2 and modulo 3 returns the inverse",
  "For every polynomial that is invertible in the ternary (respectively binary) quotient ring, the inversion routine returns its inverse.",
  ["inputs", "configurations"],
  "all invertible polynomials, all four parameter sets",
  "Unit tests invert one fixed polynomial per parameter set.",
  ["src/poly_s3_inv.rs", "src/poly_r2_inv.rs"],
  [("constant-time division steps", "src/poly_s3_inv.rs, src/poly_r2_inv.rs")])

p("C19", "Generator states are plain values: created empty, copied and compared exactly",
  "A newly created or default generator state has an all-zero key, counter and request counter. Copying a state gives a state equal in every key byte, counter byte and the request counter, and two states compare equal exactly if all of these agree; neither operation modifies the states involved. A state can be moved to and shared with other threads, and is duplicated only when a copy is asked for, never implicitly.",
  ["inputs", "programs", "schedules"],
  "all generator states and pairs of states; all programs that use them",
  "Tests never copy a state or compare two states that differ in a single byte; a state that is restored or compared inexactly only shows in a later output.",
  ["src/rng.rs"],
  [("state construction, copy and equality", "src/rng.rs AesState")])

p("C20", "The caller's random source is only asked for bytes and needs nothing else",
  "Key generation and encapsulation accept every implementation of the random-source interface by mutable reference, without requiring any further capability of it. They use it only by requesting bytes: all requests go to the source the caller passed, and they never seed, reset, replace, copy or otherwise change it, whether or not a request fails.",
  ["programs", "histories", "fault_sequences"],
  "all random sources, success and failure of each request, all four parameter sets",
  "Tests pass one bundled generator and stop using it after the call, so reseeding it or asking for additional capabilities goes unseen.",
  ["src/kem.rs", "src/rng.rs"],
  [("uses of the random source", "src/kem.rs crypto_kem_keypair/crypto_kem_enc"), ("random-source interface", "src/rng.rs RNGState")])

p("C21", "Results are the same on every machine and in every build profile",
  "For the same arguments and the same bytes from the random source, all calls and the bundled generator give the same results on machines of either byte order, with 32-bit or 64-bit words and any operating system. They also give the same results in builds with and without debug assertions, overflow checks or optimisation.",
  ["configurations", "inputs"],
  "all inputs; byte order, word size and build profile; all four parameter sets",
  "Tests run on one machine in one build profile; code that takes another path elsewhere, or arithmetic that only fits a 64-bit word, is not exercised.",
  ["src/kem.rs", "src/owcpa.rs", "src/sample.rs", "src/sample_iid.rs", "src/crypto_sort_int32.rs", "src/rng.rs", "src/packq.rs", "src/pack3.rs", "src/poly.rs"],
  [("word assembly from bytes", "src/sample.rs, src/rng.rs, src/packq.rs"), ("index arithmetic", "src/")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
