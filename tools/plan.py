"""What is analysed for each property."""
TRUSTED = [
    "rustc nightly front end and its MIR (the analysed program is the MIR of the library crate, overflow checks on)",
    "the abstract interpreter in /verif/analyzer (transfer functions, joins, memory model)",
    "models of the external primitives: tiny-keccak SHA3-256 and AES-256 as functions of their input bytes, the allocator, the random source as arbitrary bytes",
]
KEM = ["kem:dec", "kem:enc", "kem:keypair"]
PLAN = {}


def P(prop, jobs, level, rule, explanation, assumptions=(), extra=(), need=None):
    PLAN[prop] = {"jobs": jobs, "level": level, "rule": rule, "explanation": explanation, "assumptions": list(assumptions), "trusted": TRUSTED, "extra": list(extra), "need": need or {}}


P("C01", KEM + ["rngpanic"], "proof",
  "every compiler-inserted assertion (bounds, overflow, division, shift) and every call of a diverging function reachable from the public API is unreachable or proved true for all abstract inputs",
  "Abstract interpretation of the monomorphic MIR of key generation, encapsulation, decapsulation and the bundled generator, with all argument bytes and random bytes unknown: intervals, known bits, finite value tables and masked-select recognition; loops with decided bounds are followed, undecided branches are joined at the post-dominator. An assertion that is not proved is a finding at its source location.",
  ["overflow checks are those of the dev profile", "user-supplied random sources terminate and do not panic", "request lengths of the generator: quick 0..80, thorough 0..400, lengths around 256 and 65536 bytes and blocks and around every integer constant in the generator's code, up to 1 MiB; the state is unconstrained"],
  need={"kem": {"asserts": 100000, "output_bytes": 1}, "rngpanic": {"request_lengths": 80}})
P("C02", KEM, "proof",
  "no switch condition, address computation, copy length, allocation size or non-power-of-two division operand carries a secret label",
  "Information-flow labels on every abstract value (random bytes and secret key labelled secret, also through control dependence) propagated through the MIR of the three API calls; every branch, index, pointer offset, length and division is an obligation.",
  ["machine code preserves the branch-freedom of the MIR", "AES and SHA-3 are constant time", "division by a constant power of two counts as a shift or mask"],
  need={"kem": {"branches": 1000, "output_bytes": 1}})
P("C10", KEM, "proof",
  "after the call no output byte carries the label of the buffers' previous contents, no pk or ct/sk-body byte carries the rejection-key label, the shared secret carries no public-key label, and no input buffer is written",
  "Dependence labels on every byte of memory, propagated through the MIR of the three API calls (explicit and control dependence).",
  ["dependence is over-approximated: a label that is present may be spurious, an absent one is a proof of independence"],
  need={"kem": {"output_bytes": 1}})
P("C11", ["fail:enc", "fail:keypair"], "proof",
  "in the abstract execution where the k-th random request fails, the result is the Err value the source returned, no further request follows, and no output byte carries the label of the unfilled buffer (enc: outputs unchanged)",
  "For every request index k found in the code, the MIR of the call is interpreted with request k returning an error object and an arbitrarily filled buffer labelled 'unfilled'; ring inversions are replaced by unknown outputs.",
  ["a random source reports failure only through its result", "what a failing source itself leaves in a part of the caller's key buffer it was asked to fill directly is not counted as written by the call"],
  need={"fail": {"failure_scenarios": 1}})
P("C14", ["effects"], "proof",
  "no unsafe block, function or impl, foreign block, inline assembly, mutable or interior-mutable static, thread-local, shared-mutability type, and every callee outside the crate is on the allowlist (core, alloc, error trait, AES, SHA-3)",
  "Lint over HIR (all items, bodies and blocks of the library) and over every MIR body (all call terminators, resolved callees, types of all locals, fields of all types).",
  ["external crates on the allowlist have no observable effects"],
  extra=[("default", "effects")], need={"effects": {"function_bodies_hir": 30, "call_sites": 200, "mir_bodies": 30}})
P("C15", ["consts"], "proof",
  "published constants, algorithm name, API buffer types and internal parameters evaluate to the values the NTRU round-3 parameter set prescribes",
  "Compile-time evaluation of the constants in each build configuration, resolved through the crate's public interface, compared with values computed from (n, q) of the parameter set.",
  [], extra=[("default", "consts")], need={"consts": {"published_constants": 5, "api_buffers": 8}})

SYM = "Value numbering of the monomorphic MIR with every input byte a free variable: words are named by algebraic fingerprints (evaluations modulo 2^64, modulo 3 and modulo a 61-bit prime), non-linear steps on small words are finite tables over the word they depend on, zero tests are canonical sets of facts, selections by a test are guarded values joined at the post-dominator. The published formula is built in the same domain and compared word by word. "
VN = ["two different expressions receive the same value number with probability below 2^-60 (fingerprint seeded by VERIF_SEED)"]
CONTRACT_MUL = "calls of the ring multiplication are replaced by the cyclic convolution; job sym:mul analyses the multiplication routine itself against that contract"
P("C03", ["sym:dec"], "proof",
  "every byte of the shared secret is a selection, by one and the same test, between byte i of SHA3-256(packed r, packed m) and byte i of SHA3-256(last 32 secret-key bytes, ciphertext); the result is Ok on every path",
  SYM + "The selected alternatives are matched with the recorded hash calls and their input bytes.",
  VN, need={"sym": {"output_bytes": 32, "verdict_conditions": 400}})
P("C04", ["sym:dec", "sym:mul"], "proof",
  "the set of facts under which the selecting test is zero equals the specified set: unused bits of the last ciphertext byte zero, each of the first n-1 coefficients of r in {0, 1, q-1}, and (HPS) the two counting equations for m",
  SYM + "The verdict is compared as a canonical set of per-word value sets and linear equations, so the position, order and coding of the individual tests do not matter.",
  VN + [CONTRACT_MUL], need={"sym:dec": {"verdict_conditions": 400}, "sym:mul": {"compared_coefficients": 500}})
P("C05", ["sym:enc", "sym:mul"], "proof",
  "every ciphertext byte has the value number of pack(r*h + Lift(m)) and the shared secret is SHA3-256 of exactly the bytes pack3(r), pack3(m), with r and m sampled from the random bytes as specified",
  SYM, VN + [CONTRACT_MUL, "the sorting routine is replaced by 'sorted copy of its input'; C09 analyses it"],
  need={"sym:enc": {"output_bytes": 700}, "sym:mul": {"compared_coefficients": 500}})
P("C06", ["sym:dec", "sym:mul"], "proof",
  "the bytes hashed for the accepted secret have the value numbers of pack3(r), pack3(m) with m = ((c*f mod q, centred) mod 3)*f^-1 in the ternary ring and r = (c - Lift(m))*h^-1 (r compared under the acceptance condition that its coefficients are 0, 1 or -1)",
  SYM, VN + [CONTRACT_MUL], need={"sym:dec": {"compared_bytes": 200}, "sym:mul": {"compared_coefficients": 500}})
P("C07", ["sym:keypair", "sym:mul", "frame"], "proof",
  "every byte of both keys has the value number of the specified part: pack3(f), pack3(f^-1 mod 3), pack_q(f^2/(G f) mod Phi_n), the 32 bytes of the second request, and pack_q(G^2/(G f)) with G = 3g or 3(x-1)g",
  SYM + "The two ring inversions are uninterpreted functions of their argument (modulo 3, modulo q).",
  VN + [CONTRACT_MUL, "the sorting routine is replaced by 'sorted copy of its input'; C09 analyses it", "inversions are functions of their argument that leave it unchanged (job frame checks the latter); their correctness is C16 and C18"],
  need={"sym:keypair": {"output_bytes": 1600}, "sym:mul": {"compared_coefficients": 500}, "frame": {"compared_words": 500}})
P("C08", ["sym:pack"], "proof",
  "each packed byte has the value number of the specified bit field concatenation (zero padding) or base-3 sum, each decoded coefficient that of the specified bit field or digit; decoded digits lie in 0..2 for all byte values",
  SYM + "The six packing routines are analysed on free coefficients and free bytes; the specified layouts are inverse to each other.",
  VN, need={"sym:pack": {"compared_words": 2500}})
P("C09", ["sym:sample", "sym:sort"], "proof",
  "every sampled coefficient has range 0..2, the last is the constant 0; the words handed to the sort carry constant tags, W/2 ones and W/2 twos, and every coefficient is the tag of its own sorted word; the sort applies, to every position, the minimum/maximum expressions of Batcher's merge-exchange network",
  SYM + "Each conditional exchange is recognised semantically: the inputs are partitioned by the signs of the two words and of their difference, in each part the selecting test is evaluated on ranges and known bits and must be constant. The resulting min/max expressions are compared with Knuth's Algorithm 5.2.2M for the lengths in use.",
  VN + ["merge exchange sorts (Batcher; Knuth 5.2.2M)"],
  need={"sym:sample": {"ternary_coefficients": 2000}, "sym:sort": {"compared_words": 1, "comparators": 1}})
P("C12", ["draws:enc", "draws:keypair", "sym:sample", "sym:enc", "sym:keypair"], "proof",
  "the sequence of request lengths is the same on all paths and as specified; each sampled polynomial has the value number of the specified function of its own part of the seed; the rejection key is the second request byte for byte",
  SYM + "The request sequence is checked separately on ranges (paths with different requests are reported where they join).",
  VN, need={"draws": {"random_requests": 1}, "sym:sample": {"compared_words": 2000}, "sym:enc": {"output_bytes": 700}, "sym:keypair": {"output_bytes": 1600}})
P("C13", ["sym:rng"], "proof",
  "for each analysed request length and a free state, every output byte, key byte, counter byte and the request counter have the value number the CTR-DRBG definition gives, with AES-256 uninterpreted and the 128-bit increment as a carry chain over free bytes",
  SYM, VN + ["request lengths: quick 0..66, thorough 0..200, the seed length, and lengths around 256 blocks, around every integer constant in the generator's code (in bytes and in blocks) and around 65536 where it uses 16-bit words, up to 128 KiB (thorough 1 MiB)"],
  need={"sym:rng": {"request_lengths": 60, "compared_bytes": 5000}})
P("C16", ["sym:lift", "sym:mul"], "proof",
  "with e = 1 - a*ai the residual of the modulo-2 inverse, 1 - a*r equals e^k modulo q and Phi_n for some k >= log2 q, for free a and ai",
  SYM + "Since e is even whenever ai is an inverse modulo 2, e^k vanishes modulo 2^k.",
  VN + [CONTRACT_MUL], need={"sym:lift": {"compared_coefficients": 500}, "sym:mul": {"compared_coefficients": 500}})
P("C18", ["inv:s3", "inv:r2"], "proof",
  "with every state cell of a division step an independent finite-valued atom, each cell the program computes is the same finite function of the previous step's cells as in the Bernstein-Yang division-step recurrence (2(n-1)-1 steps), the initial state is that of the reversed input reduced modulo Phi_n, and the result is read off as specified",
  "Abstract interpretation of the MIR of the two inversion routines in a finite-function domain: every word is an exact table over at most seven state cells. When memory holds all cells of the next step they become the atoms of that step, so the comparison is by induction over the steps; unknown high bits of the input are tracked separately. The recurrence itself is checked against the definition of the inverse on sample polynomials (a check of the oracle, not of the repository).",
  ["division steps compute the inverse of every invertible polynomial in 2(n-1)-1 steps (Bernstein and Yang, 'Fast constant-time gcd computation and modular inversion', theorem on polynomial division steps)", "the ternary routine is called on coefficients 0, 1, 2"],
  need={"inv": {"compared_coefficients": 500, "state_cells_matched": 1000000, "division_steps": 1000}})
P("C17", ["sym:enc", "sym:dec", "sym:keypair", "sym:mul", "sym:sample", "sym:lift", "inv:s3", "inv:r2", "frame", "params"], "proof",
  "every link of the correctness argument holds: keys, ciphertext, encapsulated secret, recovered message, recovered blinding polynomial and accepted secret have the specified value numbers, the verdict contains no condition beyond the specified ones, inversions follow the specified recurrence and lifting, sampled polynomials are ternary with the prescribed weight or self-correlation",
  "The analyses of the links (those of C03 to C07, C09, C16, C18) are run together; a deviation in any part the argument uses is reported. The argument: h*f = 3g modulo (q, x^n-1), so c*f = 3rg + mf with every coefficient below q/2 in absolute value by the weight (HPS) or self-correlation (HRSS) bound, hence exact over the integers; reduction modulo 3 and multiplication by f's inverse give m, then r, and an honest pair meets all acceptance conditions.",
  VN + ["the argument itself (NTRU submission, correctness of the scheme; perfect correctness of both parameter families)", "sorting permutes its input (C09 decides it)", "SHA3-256 is a function of its input"],
  need={"sym:enc": {"output_bytes": 700}, "sym:dec": {"output_bytes": 32, "compared_bytes": 100}, "sym:keypair": {"output_bytes": 1600}, "sym:mul": {"compared_coefficients": 500}, "sym:lift": {"compared_coefficients": 500}, "sym:sample": {"ternary_coefficients": 2000}, "inv": {"compared_coefficients": 500, "state_cells_matched": 1000000}, "params": {"parameter_conditions": 4}})
P("C19", ["sym:state", "types"], "proof",
  "a new or default state has all 49 state cells zero; a copy (either way of copying) has the value numbers of the original cells; equality is true exactly under the facts that all 49 cells agree, inequality is its negation, and the compared or copied states are not modified; the state type can be sent to and shared with threads and is not copied implicitly",
  SYM + "The operations are resolved through the compiler (derived or hand-written implementations alike) and analysed on two states whose cells are all free. Marker traits of the state type are queried from the compiler's trait solver.",
  VN + ["the cells are the 32 key bytes, the 16 counter bytes and the request counter"], need={"sym:state": {"state_operations": 4, "compared_cells": 196}, "types": {"type_guarantees": 4}})
P("C20", ["source", "fail:enc", "fail:keypair"], "proof",
  "the interface requires no operation or supertrait beyond requesting bytes and seeding, the API calls put no other bound on the source's type and take it by mutable reference, no function applies any operation other than a byte request to a source of unknown type, every request in every abstract execution goes to the caller's object, and that object's memory is otherwise unchanged when the call returns",
  "Query over the type-checked program (bounds, trait items, signatures), lint over all MIR call sites whose receiver is a type parameter or trait object, and abstract interpretation of the two calls with every request succeeding and with each request failing, with the bytes of the source's object tracked by value number.",
  ["requests themselves may change the source in any way"],
  need={"source": {"interface_items": 2, "bounds": 4, "entry_points": 2, "call_sites": 200, "source_operations": 1}, "fail": {"source_bytes": 50, "requests_followed": 1}})
P("C21", KEM + ["rngpanic", "portable", "portable@nodebug"], "proof",
  "every pointer-sized word that is compared, divided, shifted right, widened, switched on or checked for overflow in the library's code has a value below 2^32 (2^31 signed) for all inputs; no callee or constant depends on byte order or word size; no configuration predicate names the target; the compiled bodies with and without debug assertions are identical, or else the variant without them meets the specification as well",
  "Range analysis as in C01 with an obligation at each use of a pointer-sized word that its low 32 bits do not determine; lint over all MIR call sites, all resolved paths and the tokens of all source files; comparison of the MIR of every function in the two build profiles. Where bodies differ, the value-numbering, inversion and failure analyses of the other properties are run on the variant without debug assertions and any deviation is reported.",
  ["pointers have 32 or 64 bits", "without overflow checks results differ only where a check would fail, which C01 excludes", "the compiler and the external primitives (AES, SHA-3) are portable", "request lengths as in C01"],
  need={"kem": {"word_uses": 1000}, "rngpanic": {"word_uses": 100}, "portable": {"mir_bodies": 30, "call_sites": 200, "source_files": 15, "rule_self_tests": 5}})


FOLLOW = ["sym:enc", "sym:dec", "sym:keypair", "sym:rng", "sym:mul", "sym:sample", "sym:sort", "sym:lift", "sym:state", "inv:s3", "inv:r2", "frame", "draws:enc", "draws:keypair", "fail:enc", "fail:keypair"]


def changed(results):
    """Functions whose body depends on debug assertions, per configuration."""
    m = {}
    for r in results:
        if r["job"].startswith("portable"):
            m.setdefault(r["config"], {})[r["job"]] = {k: v for k, v in r["notes"].items() if k.startswith("mir:")}
    out = {}
    for c, d in m.items():
        a, b = d.get("portable", {}), d.get("portable@nodebug", {})
        out[c] = sorted(k[4:] for k in set(a) | set(b) if a.get(k) != b.get(k))
    return out


def followup(prop, results):
    if prop != "C21":
        return []
    return [(c, j + "@nodebug") for c, fs in sorted(changed(results).items()) if fs for j in FOLLOW]


def link(prop, r, f):
    """Findings of other properties that count for this one."""
    config = r["config"]
    if prop == "C21":
        # an overflow stops one build profile and wraps in the other
        return r["job"].endswith("@nodebug") or f["prop"] == "C01" and f["kind"] == "arithmetic overflow"
    if prop != "C17":
        return False
    k = f["kind"]
    p = f["prop"]
    if p in ("C05", "C06", "C16", "C18"):
        return True
    if p == "C03":
        return not k.startswith("rejected secret")
    if p == "C04":
        return not k.startswith("verdict differs")
    if p == "C07":
        return "rejection key" not in k
    if p == "C09":
        return "sort" not in k
    if p == "C12":
        return "hrss" in config and k.startswith(("f is not sampled", "g is not sampled"))
    return False


def jobs(prop, tier, variants):
    pl = PLAN[prop]
    return [(v, j) for v in variants for j in pl["jobs"]] + pl["extra"]


def cost(j):
    c, job = j[0], j[1].split("@")[0]
    n = {"ntruhps2048509": 1, "default": 1, "ntruhps2048677": 2, "ntruhrss701": 2, "ntruhps4096821": 3}[c]
    k = {"kem:keypair": 14, "kem:dec": 2, "kem:enc": 1, "sym:mul": 3, "sym:dec": 6, "sym:sort": 3, "frame": 8, "inv:s3": 26, "inv:r2": 15, "sym:keypair": 15 if "hrss" in c else 1}.get(job, 1)
    return n * k


def floors(prop, results):
    out = []
    for r in results:
        job = r["job"].split("@")[0]
        need = PLAN[prop]["need"].get(job) or PLAN[prop]["need"].get(job.split(":")[0], {})
        for k, n in need.items():
            if r["counts"].get(k, 0) < n and not any(f["prop"] == prop for f in r["findings"]):
                out.append("%s/%s: only %d %s analysed, expected at least %d" % (r["config"], r["job"], r["counts"].get(k, 0), k, n))
    return out


def obligations(prop, results):
    s = lambda *ks: sum(r["counts"].get(k, 0) for r in results for k in ks)
    if prop == "C01":
        return s("asserts"), s("asserts_discharged")
    if prop == "C02":
        n = s("branches", "memory_accesses")
        return n, n
    if prop == "C10":
        n = s("output_bytes")
        return n, n
    if prop == "C11":
        n = s("failure_scenarios", "output_bytes")
        return n, n
    if prop == "C14":
        n = s("call_sites", "typed_locals", "blocks", "type_fields")
        return n, n
    if prop == "C15":
        n = s("constants_evaluated", "api_buffers", "published_types")
        return n, n
    if prop == "C19":
        n = s("compared_cells", "type_guarantees")
        return n, n
    if prop == "C21":
        n = s("word_uses", "call_sites", "paths", "source_files", "mir_bodies")
        return n, n
    if prop == "C20":
        n = s("interface_items", "bounds", "entry_points", "call_sites", "source_bytes", "requests_followed")
        return n, n
    if prop in ("C17", "C18"):
        n = s("state_cells", "output_bytes", "compared_bytes", "compared_words", "compared_coefficients", "verdict_conditions", "parameter_conditions")
        return n, n
    # value-numbering properties: words compared with the specification
    n = s("output_bytes", "compared_bytes", "compared_words", "compared_coefficients", "verdict_conditions", "tagged_words", "random_requests")
    return n, n


TECH = {
    "C03": "value numbering (algebraic fingerprints) over MIR, compared with the specified formula",
    "C04": "value numbering (algebraic fingerprints) over MIR, compared with the specified formula",
    "C05": "value numbering (algebraic fingerprints) over MIR, compared with the specified formula",
    "C06": "value numbering (algebraic fingerprints) over MIR, compared with the specified formula",
    "C07": "value numbering (algebraic fingerprints) over MIR, compared with the specified formula",
    "C08": "value numbering (algebraic fingerprints) over MIR, compared with the specified formula",
    "C13": "value numbering (algebraic fingerprints) over MIR, compared with the specified formula",
    "C16": "value numbering (algebraic fingerprints) over MIR, compared with the specified formula",
    "C17": "value numbering and finite-function abstract interpretation over MIR, composed along the correctness argument",
    "C18": "abstract interpretation of MIR in a finite-function domain, inductive comparison with a reference recurrence",
    "C09": "value numbering and trace-partitioned range analysis over MIR, comparator network comparison",
    "C12": "request-sequence dataflow and value numbering over MIR",
    "C01": "abstract interpretation of MIR (intervals, known bits, value tables)",
    "C02": "information-flow (taint) dataflow analysis over MIR",
    "C10": "dependence-label dataflow analysis over MIR",
    "C11": "abstract interpretation of MIR with an error-flow (typestate) model of the random source",
    "C14": "effect lint over HIR and MIR with a callee allowlist",
    "C19": "value numbering (algebraic fingerprints) over MIR, compared with the specified facts; marker-trait query",
    "C20": "bounds and call-site queries over the type-checked program, abstract interpretation of MIR",
    "C21": "range analysis of MIR, lints over MIR, HIR and tokens, comparison of MIR between build profiles",
    "C15": "compile-time constant and signature query over the type-checked program",
}
