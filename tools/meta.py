#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILT = sys.argv[1:]  # ids not built yet

P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=list(observe), state=list(state)))

TEST = ("The existing tests run one or two fixed parameter sets (N=2^14/2^15), one message per step at the maximum "
        "level with the party sets they list, and compare decoded values under a loose threshold; ")

prop("C01", "CKKS encryption followed by decryption returns the message",
 "For every parameter set, key pair, level and message that fits the modulus, a CKKS ciphertext made through any of the encryption entry points decrypts under the owner's secret key to the message, within the error explained by the fresh encryption noise and the encoding precision. "
 "The decryptor and the encryptor can be reused for any sequence of ciphertexts, of any levels, scales and domains (NTT or coefficient), without one affecting another. "
 "The ciphertext carries the owner's identity only, the requested level and the plaintext's scale.",
 ["inputs", "configurations", "histories"],
 "all ring degrees, slot counts, modulus chains (different prime sizes, 1-3 or more P primes per gamma), key kinds (ternary, sparse, Gaussian, other distributions), levels, scales, message shapes and sequences of encryptions/decryptions with one encryptor/decryptor",
 TEST + "nothing in them encrypts below the top level, in the coefficient domain, with sparse packing or reuses a decryptor over levels.",
 ["mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkckks/encryptor.go", "mkckks/decryptor.go", "mkckks/elements.go", "mkrlwe/keygen.go"],
 [("encryption with the public key", "mkrlwe/encryptor.go Encrypt"), ("decryption", "mkrlwe/decryptor.go PartialDecrypt, Decrypt"), ("encode/decode", "mkckks/encryptor.go EncryptMsg, EncodeMsgNew; mkckks/decryptor.go Decrypt")],
 "runtime monitor with exact big-integer phase oracle over generated encryptions",
 "Held on the executions run: every ciphertext's phase is recomputed with big integers from the raw key and ciphertext limbs, and must equal the encoded plaintext up to a derived noise bound.")

prop("C02", "CKKS addition and subtraction are exact on the underlying plaintexts",
 "Adding or subtracting two CKKS ciphertexts of any owners, any levels and any compatible scales gives a ciphertext of the union of their owners, at the lower of the two levels, whose decryption is the slot-wise sum or difference of the operands' values. "
 "No noise beyond the rounding of a scale adjustment is introduced, whatever the overlap between the owners (disjoint, equal, nested, partial, the same ciphertext twice).",
 ["inputs", "configurations"],
 "all pairs of ciphertexts: owner sets and their overlap, levels, scales (equal or one an integer multiple of the other in either order), fresh or computed",
 TEST + "only operands of equal level and scale are ever added or subtracted.",
 ["mkckks/evaluator.go", "mkrlwe/elements.go", "mkrlwe/idset.go"],
 [("pairwise evaluation with scale matching", "mkckks/evaluator.go evaluateInPlace, add, sub, newCiphertextBinary"), ("padding to the union of owners", "mkrlwe/elements.go PadCiphertext")],
 "runtime monitor with exact big-integer phase oracle over generated operand pairs",
 "Held on the executions run: the phase of the result equals, coefficient by coefficient, the exact combination of the operands' phases.")

prop("C03", "CKKS multi-key multiplication with relinearization is correct",
 "Multiplying two CKKS ciphertexts of any owners and levels with the owners' relinearization keys gives a ciphertext of the union of the owners whose decryption is the slot-wise product, within the error explained by key-switching noise and the final rescaling; its level and scale are those of the operands' product after that rescaling. "
 "This holds for squaring, for any overlap of the owner sets, for operands of different levels, for every modulus chain and number of special primes, and when keys of other parties are present in the key set.",
 ["inputs", "configurations"],
 "all operand pairs (owners, overlap, levels, scales), all modulus chains with 2 to 6 special primes, all ring degrees, rings of up to several multiplicative levels",
 TEST + "only fresh ciphertexts at the maximum level and PCount=gamma=2 layouts are multiplied.",
 ["mkrlwe/keyswitch.go", "mkckks/evaluator.go", "mkrlwe/basis_extension.go", "mkrlwe/params.go", "mkrlwe/keygen.go"],
 [("external product", "mkrlwe/keyswitch.go Decompose, ExternalProduct"), ("multiplication and relinearization", "mkrlwe/keyswitch.go MulAndRelin"), ("level/scale of the product", "mkckks/evaluator.go MulRelinNew, mulRelin, Rescale")],
 "runtime monitor with exact big-integer phase oracle and derived noise bound",
 "Held on the executions run: the phase of the product equals the exact rounded product of the operands' phases up to a derived key-switching noise bound.")

prop("C04", "Hoisted operations give the same results as the direct ones",
 "Rotations and multiplications performed from precomputed (hoisted) forms of ciphertexts, CKKS or BFV, decrypt to the same values as the direct operations, and have the same owners, level and scale. "
 "A hoisted form may be computed once and used for any number of operations, for either operand, for squaring, and for a ciphertext dropped to a lower level.",
 ["inputs", "configurations", "histories"],
 "all ciphertexts, owner sets, levels, rotation amounts; hoisted forms given for none, one or both operands; reuse of hoisted forms",
 TEST + "hoisting is compared only through decoded values of single operations at the top level.",
 ["mkrlwe/keyswitch_hoisted.go", "mkckks/evaluator.go", "mkbfv/keyswitch_hoisted.go", "mkbfv/evaluator.go"],
 [("hoisted products", "mkrlwe/keyswitch_hoisted.go MulAndRelinHoisted, ExternalProductHoisted"), ("hoisted rotation", "mkrlwe/keyswitch_hoisted.go RotateHoisted"), ("BFV hoisted multiplication", "mkbfv/evaluator.go mulRelinHoisted; mkbfv/keyswitch_hoisted.go")],
 "runtime monitor: differential (hoisted vs direct vs exact oracle) over generated operations",
 "Held on the executions run: both forms are compared with the exact result and with each other.")

prop("C05", "CKKS rotation by any index rotates the message",
 "Rotating a CKKS ciphertext of any owners and level by any integer index (positive, negative, zero, beyond the slot count, with a single rotation key or through the default power-of-two keys) gives a ciphertext of the same owners, level and scale whose decryption is the message rotated by that index, within key-switching noise. "
 "An index for which a needed key is missing is refused instead of giving a wrong result.",
 ["inputs", "configurations"],
 "all integer indices, owner sets, levels, slot counts, modulus chains, with and without a dedicated key for the index",
 TEST + "a few positive indices at the top level are rotated.",
 ["mkrlwe/keyswitch.go", "mkrlwe/keygen.go", "mkrlwe/params.go", "mkrlwe/keys.go", "mkckks/evaluator.go"],
 [("rotation", "mkrlwe/keyswitch.go Rotate"), ("index decomposition", "mkckks/evaluator.go rotate"), ("rotation keys and index normalisation", "mkrlwe/keygen.go GenRotationKey, GenDefaultRotationKeys; mkrlwe/params.go normalizeRotIdx, AddCRS")],
 "runtime monitor with exact automorphism oracle and derived noise bound",
 "Held on the executions run: the phase of the result equals the automorphism of the input's phase up to a derived bound per key switch.")

prop("C06", "CKKS conjugation conjugates the message",
 "Conjugating a CKKS ciphertext of any owners and level with the owners' conjugation keys gives a ciphertext of the same owners, level and scale whose decryption is the complex conjugate of the message, within key-switching noise. "
 "Conjugating twice gives the original message; a missing key is refused.",
 ["inputs", "configurations"],
 "all ciphertexts, owner sets, levels, parameter sets",
 TEST + "conjugation is tested at the top level only.",
 ["mkrlwe/keyswitch.go", "mkrlwe/keygen.go", "mkckks/evaluator.go"],
 [("conjugation", "mkrlwe/keyswitch.go Conjugate"), ("conjugation key", "mkrlwe/keygen.go GenConjugationKey")],
 "runtime monitor with exact automorphism oracle and derived noise bound",
 "Held on the executions run: the phase of the result equals the automorphism of the input's phase up to a derived bound.")

prop("C07", "Multiplying by constants and plaintexts is correct and keeps the scale honest",
 "Multiplying a CKKS ciphertext by any supported constant (integers of each type, real, complex, of either sign, with zero real or imaginary part) or by an encoded plaintext gives a ciphertext whose decryption is the slot-wise product, with the same owners and with level and scale metadata under which the decoded value is right. "
 "It holds for NTT and coefficient-domain ciphertexts, for results written over the input or elsewhere, and at every level.",
 ["inputs", "configurations"],
 "all constants below 2^52 of the supported Go types, all encoded plaintexts, ciphertexts of any owners, level, scale and domain, in place or not",
 TEST + "no constant or only single values are tried.",
 ["mkckks/evaluator.go", "mkckks/utils.go"],
 [("constant scaling", "mkckks/evaluator.go getConstAndScale, MultByConst; mkckks/utils.go scaleUpExact"), ("plaintext product", "mkckks/evaluator.go MulPtxtNew")],
 "runtime monitor with exact big-integer phase oracle",
 "Held on the executions run: the phase of the result equals the exact product polynomial.")

prop("C08", "Rescaling and dropping levels divide exactly and keep level and scale consistent",
 "Rescaling a CKKS ciphertext divides it by the last primes as long as the scale stays at or above the requested minimum (half of it is tolerated) and a prime remains, rounding each component to the nearest integer, and records exactly the resulting level and scale; dropping levels keeps message and scale. "
 "Both leave inputs of the non-in-place forms untouched, work in place or into another ciphertext, and refuse impossible requests (dropping too many levels, rescaling below level zero) instead of corrupting the ciphertext.",
 ["inputs", "configurations", "histories"],
 "all ciphertexts (owners, levels, scales), thresholds, receivers (itself, other, larger) and numbers of dropped levels",
 TEST + "rescaling is exercised only through one multiplication at the top level.",
 ["mkckks/evaluator.go"],
 [("rescale", "mkckks/evaluator.go Rescale, RescaleNew"), ("level drop", "mkckks/evaluator.go DropLevel, DropLevelNew")],
 "runtime monitor with exact big-integer rounding oracle on every component",
 "Held on the executions run: every component is compared with the exact rounded quotient.")

prop("C09", "BFV encryption followed by decryption returns the message exactly",
 "For every parameter set, plaintext modulus, key pair and integer message in range, a BFV ciphertext made through any of the encryption entry points decrypts under the owner's secret key to exactly the message (modulo the plaintext modulus). "
 "Its noise is bounded by the fresh encryption noise, and encryptor and decryptor can be reused for any sequence of ciphertexts in either domain.",
 ["inputs", "configurations", "histories"],
 "all ring degrees, NTT-friendly plaintext moduli, modulus chains, key kinds, messages and sequences of encryptions",
 TEST + "one plaintext modulus (65537) is used.",
 ["mkbfv/encryptor.go", "mkbfv/decryptor.go", "mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkbfv/elements.go", "mkbfv/params.go"],
 [("encryption", "mkbfv/encryptor.go EncryptMsg, EncryptPtxt"), ("decryption", "mkbfv/decryptor.go Decrypt")],
 "runtime monitor with exact big-integer phase oracle",
 "Held on the executions run: exact equality of the decoded message and a derived bound on the noise.")

prop("C10", "BFV addition and subtraction are exact",
 "Adding or subtracting two BFV ciphertexts of any owners gives a ciphertext of the union of the owners that decrypts exactly to the slot-wise sum or difference modulo the plaintext modulus. "
 "No noise is added beyond the sum of the operands' noises, whatever the overlap of the owner sets.",
 ["inputs", "configurations"],
 "all pairs of BFV ciphertexts, owner overlaps (disjoint, nested, partial, equal, same object), chains of additions",
 TEST + "a few fixed pairs are added.",
 ["mkbfv/evaluator.go", "mkrlwe/elements.go"],
 [("pairwise evaluation", "mkbfv/evaluator.go evaluateInPlace, AddNew, SubNew")],
 "runtime monitor with exact big-integer phase oracle",
 "Held on the executions run: the phase of the result is exactly the combination of the operands' phases modulo Q.")

prop("C11", "BFV multi-key multiplication is exact within the noise budget",
 "Multiplying two BFV ciphertexts of any owners with the owners' relinearization keys gives a ciphertext of the union of the owners that decrypts exactly to the slot-wise product modulo the plaintext modulus, as long as the predicted noise fits the modulus. "
 "The noise after a product stays below the bound predicted from the operands' noises, so any circuit of supported depth decrypts exactly.",
 ["inputs", "configurations", "histories"],
 "all operand pairs, owner overlaps, plaintext moduli, modulus chains with 2 to 6 special primes, squarings and circuits up to the supported depth",
 TEST + "one product of two fresh ciphertexts per party layout is tested.",
 ["mkbfv/evaluator.go", "mkbfv/keyswitch.go", "mkbfv/keyswitch_hoisted.go", "mkbfv/basis_extension.go", "mkbfv/keygen.go", "mkbfv/keys.go"],
 [("lift to QxQMul, tensor and rescale", "mkbfv/evaluator.go mulRelin; mkbfv/basis_extension.go"), ("relinearization", "mkbfv/keyswitch.go MulAndRelinBFV, DecomposeBFV, ExternalProductBFV"), ("keys", "mkbfv/keygen.go GenRelinearizationKey, GenBFVSwitchingKey")],
 "runtime monitor with exact plaintext model and predicted noise bound",
 "Held on the executions run. A known finding (PCount/2 not dividing the number of Q primes) is recorded.")

prop("C12", "BFV rotation and conjugation permute the slots exactly",
 "Rotating a BFV ciphertext of any owners by any integer index rotates both rows of its message by that index, and conjugating it swaps the two rows, exactly, with only key-switching noise added and the same owners. "
 "An index for which a needed key is missing is refused instead of giving a wrong result.",
 ["inputs", "configurations"],
 "all integer indices, owner sets, plaintext moduli, modulus chains, with dedicated or default keys",
 TEST + "a few positive indices are rotated.",
 ["mkbfv/evaluator.go", "mkrlwe/keyswitch.go", "mkrlwe/keygen.go"],
 [("rotation and conjugation", "mkbfv/evaluator.go rotate, conjugate; mkrlwe/keyswitch.go Rotate, Conjugate")],
 "runtime monitor with exact automorphism oracle and derived noise bound",
 "Held on the executions run: exact slot permutation and a derived bound on the phase error.")

prop("C13", "Every generated key satisfies its defining equation with small fresh noise",
 "Every public, relinearization, rotation and conjugation key generated for a secret key, CKKS or BFV, is a valid encryption of exactly the quantity its kind prescribes under that secret key and the common reference string of its index, modulo every prime, with noise that is fresh, non-zero and within the sampler's bound in every component. "
 "Keys carry the identity of their owner and their rotation index, and two parties' keys for the same index share exactly the common reference string.",
 ["inputs", "configurations"],
 "all parameter sets (ring degree, number and size of Q and P primes), kinds of secret keys, rotation indices and generation entry points",
 TEST + "keys are tested only indirectly through decrypted results, which mask missing or wrong noise.",
 ["mkrlwe/keygen.go", "mkbfv/keygen.go", "mkrlwe/params.go", "mkrlwe/keys.go", "mkbfv/keys.go"],
 [("key generation", "mkrlwe/keygen.go GenPublicKey, GenRelinearizationKey, GenRotationKey, GenConjugationKey, GenSwitchingKey"), ("BFV relinearization key", "mkbfv/keygen.go"), ("common reference string", "mkrlwe/params.go NewParameters, AddCRS")],
 "runtime monitor: key equations solved for the noise, modulo every prime",
 "Held on the keys generated. A known finding (PCount/2 not dividing the number of Q primes, BFV) is recorded.")

prop("C14", "Secrets, masks and noise are fresh and distributed as specified",
 "Secret keys follow the requested distribution (ternary, given probability, given Hamming weight, Gaussian) and differ between generations; no two samples published under the same secret (keys of any kind or index, CKKS or BFV) use masks that are equal or multiples of each other. "
 "Every encryption uses new ephemeral randomness and non-zero Gaussian noise within the sampler's bound in both components, so that equal messages give unrelated ciphertexts, and evaluation at any level or domain does not weaken this.",
 ["inputs", "configurations", "histories"],
 "all key generation entry points, rotation indices, parameter sets, encryption entry points, levels and domains, sequences of generations with one generator",
 TEST + "no test looks at randomness; a constant mask or missing noise still decrypts correctly.",
 ["mkrlwe/keygen.go", "mkrlwe/encryptor.go", "mkrlwe/params.go", "mkbfv/keygen.go"],
 [("secret sampling", "mkrlwe/keygen.go GenSecretKey*"), ("common reference strings", "mkrlwe/params.go"), ("encryption randomness", "mkrlwe/encryptor.go Encrypt")],
 "runtime monitor: recovery of the ephemeral values and masks, statistical and algebraic oracles",
 "Held on the samples drawn; statistical tests use thresholds at 9 standard deviations.")

prop("C15", "Decryption needs the keys of exactly the involved parties, in any order",
 "A ciphertext decrypts correctly with a key set that holds the secret keys of all its owners, whatever else the set holds and in whatever order partial decryptions are applied; each partial decryption removes exactly its party's share. "
 "With the key of one owner missing decryption is refused, and with a wrong key in its place the message is not recovered.",
 ["inputs", "configurations", "histories"],
 "all owner sets and key sets (exact, superset, missing, wrong), all orders of partial decryption, CKKS and BFV, all levels and domains",
 TEST + "decryption is always run once with the full key set.",
 ["mkrlwe/decryptor.go", "mkckks/decryptor.go", "mkbfv/decryptor.go", "mkrlwe/keys.go"],
 [("partial decryption", "mkrlwe/decryptor.go PartialDecrypt"), ("decryption", "mkrlwe/decryptor.go Decrypt; mkckks/decryptor.go; mkbfv/decryptor.go"), ("key sets", "mkrlwe/keys.go SecretKeySet")],
 "runtime monitor with exact big-integer phase oracle over key sets and orders",
 "Held on the executions run; refused means a panic, which is how this library refuses.")

prop("C16", "Operations leave their inputs alone and do not depend on history",
 "No operation changes its operands, the keys or the common reference string (except results documented to be written in place), and results share no storage with operands, so later changes to one do not affect the other. "
 "An evaluator, whatever it computed before, returns for the same operands and keys bit for bit the result a new evaluator returns.",
 ["histories", "inputs", "configurations"],
 "all sequences of evaluator operations (CKKS and BFV) on one evaluator, all operands, levels, domains and owner overlaps",
 TEST + "tests never reuse operands after an operation to look for corruption, nor compare repeated results.",
 ["mkckks/evaluator.go", "mkbfv/evaluator.go", "mkrlwe/keyswitch.go", "mkrlwe/keyswitch_hoisted.go", "mkbfv/keyswitch.go", "mkbfv/keyswitch_hoisted.go", "mkrlwe/elements.go"],
 [("scratch pools of the evaluators", "mkrlwe/keyswitch.go KeySwitcher; mkbfv/keyswitch.go KeySwitcher"), ("copying", "mkrlwe/elements.go CopyNew, Copy, PadCiphertext")],
 "runtime monitor: fingerprints of every operand, key and CRS around each operation, differential with a new evaluator, aliasing detection",
 "Held on the histories run.")

prop("C17", "Separate evaluators sharing parameters and keys can run concurrently",
 "Parties running at the same time, each with its own encryptor, decryptor, key generator, evaluator and relinearization key set created from shared parameters, and sharing public, rotation, conjugation and secret keys and read-only ciphertexts, do not race. "
 "Each gets bit for bit the results it gets when running alone.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of 2 to 8 goroutines running random sequences of key generation, encryption, evaluation and decryption, CKKS and BFV",
 "The existing tests are sequential and never run under the race detector; they see one schedule.",
 ["mkrlwe/keyswitch.go", "mkrlwe/params.go", "mkrlwe/keygen.go", "mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkckks/evaluator.go", "mkbfv/evaluator.go", "mkbfv/keyswitch.go", "mkrlwe/basis_extension.go"],
 [("state owned per object, nothing global", "mkrlwe/keyswitch.go NewKeySwitcher; mkckks/evaluator.go NewEvaluator; mkbfv/evaluator.go NewEvaluator; mkrlwe/encryptor.go NewEncryptor"), ("parameters shared by value with shared rings and CRS", "mkrlwe/params.go")],
 "Go race detector plus differential with a serial run",
 "Held on the schedules observed under the race detector.")

prop("C18", "The vectorised kernels stay inside their buffers",
 "For every supported ring degree, level and number of special primes, no operation reads or writes outside the coefficient arrays it is given: memory next to every array, and the limbs above the level an operation works at, keep their contents. "
 "In particular the unrolled kernels that access memory through raw pointers only touch the coefficients of their polynomials.",
 ["inputs", "configurations"],
 "all ring degrees from the smallest the library accepts, levels, prime counts, operations of key generation, encryption, evaluation, decryption and basis extension",
 "The tests use two large ring degrees at full level, without a memory sanitizer; Go does not bound-check raw pointer accesses.",
 ["mkrlwe/basis_extension.go", "mkrlwe/keyswitch.go", "mkrlwe/keygen.go", "mkbfv/basis_extension.go", "mkckks/evaluator.go"],
 [("unrolled loops over [8]uint64 windows", "mkrlwe/basis_extension.go ModDownQPtoQ, modUpExact, DecomposeAndSplit, reconstructRNS, multSum; mkckks/evaluator.go MultByConst")],
 "AddressSanitizer and checkptr builds plus canary slabs around every polynomial",
 "Held on the executions run; the sanitizers see only accesses that leave an allocation, the canaries those that cross into the neighbouring limbs.")

prop("C19", "Basis extension, modulus reduction and gadget decomposition are exact",
 "Extending a residue representation to other primes, dividing by the special primes, decomposing into gadget digits and the BFV lifting and scaling steps give for every input the integer result their definition prescribes: the same integer modulo the other primes, the quotient rounded to nearest (at most one unit off), digits that recombine to the input. "
 "It holds at every level, for every number of primes, and for extreme residues (zero, one, q-1, values near half of or all of the modulus).",
 ["inputs", "configurations"],
 "all residue vectors, levels of Q and P, prime sizes and counts, ring degrees",
 TEST + "the basis conversions are only exercised with random looking residues and their small errors disappear in the noise threshold.",
 ["mkrlwe/basis_extension.go", "mkbfv/basis_extension.go", "mkrlwe/keyswitch.go"],
 [("basis extension", "mkrlwe/basis_extension.go ModUpQtoP, ModUpPtoQ, modUpExact"), ("division by P", "mkrlwe/basis_extension.go ModDownQPtoQ, ModDownQPtoQNTT, ModDownQPtoP"), ("gadget decomposition", "mkrlwe/basis_extension.go DecomposeAndSplit; mkrlwe/keyswitch.go Decompose"), ("BFV lift and scaling", "mkbfv/basis_extension.go ModUpQtoR, Quantize, Rescale")],
 "runtime monitor with exact big-integer oracle on generated residues",
 "Held on the executions run; exact except for the documented one-unit and near-boundary tolerances of the floating point estimate.")

prop("C20", "Identity sets, key sets and ciphertext containers behave like sets and maps",
 "Identity sets behave as mathematical sets under add, remove, union, intersection and copy; key sets return exactly the key last added for an owner (and rotation index) and refuse missing ones; adding, deleting or copying never affects other entries or other containers. "
 "Padding a ciphertext to more owners adds only zero shares and keeps the existing ones; copies have equal contents and metadata and share no storage; the reserved identity of the constant term is refused as an owner.",
 ["inputs", "histories"],
 "all sequences of container operations over arbitrary identities (empty, long, similar, reserved) and indices",
 "The tests build two or three fixed party sets and never delete, replace or copy.",
 ["mkrlwe/idset.go", "mkrlwe/keys.go", "mkrlwe/elements.go", "mkbfv/keys.go", "mkckks/elements.go", "mkbfv/elements.go"],
 [("identity sets", "mkrlwe/idset.go"), ("key sets", "mkrlwe/keys.go, mkbfv/keys.go"), ("ciphertext containers", "mkrlwe/elements.go")],
 "runtime monitor: model-based online checker over random operation histories",
 "Held on the histories run, against a small reference model.")

prop("C21", "Any circuit over many parties decrypts to the plaintext computation",
 "For any sequence of encryptions by different parties and of additions, subtractions, products, rotations, conjugations, constant and plaintext products, rescalings and level drops within the noise and modulus budget, every intermediate ciphertext decrypts under the keys of exactly its owners to the value of the same computation on the messages (exactly for BFV, within the accumulated error for CKKS). "
 "Owners are the union of the inputs' owners; parties and keys may join at any time.",
 ["histories", "inputs", "configurations"],
 "all operation histories over a store of ciphertexts from 1 to 5 parties, with party arrivals, key sets growing, hoisted and direct variants mixed, CKKS and BFV",
 TEST + "each test applies one operation to fresh ciphertexts; no history of different operations is run.",
 ["mkckks/evaluator.go", "mkbfv/evaluator.go", "mkrlwe/keyswitch.go", "mkrlwe/keyswitch_hoisted.go", "mkrlwe/elements.go", "mkrlwe/decryptor.go", "mkrlwe/encryptor.go"],
 [("evaluators", "mkckks/evaluator.go, mkbfv/evaluator.go"), ("owner tracking", "mkrlwe/elements.go, mkrlwe/idset.go")],
 "runtime monitor: random histories checked online against a plaintext model with error tracking",
 "Held on the histories run.")

prop("C22", "The encrypted CNN layers compute the plaintext network",
 "The convolution and fully connected layers of the CNN package, run on encrypted images and (encrypted) kernels and weights of different parties with the documented packing, decrypt to the result of the same layers on the plaintext data, within the accumulated CKKS error. "
 "They leave their inputs unchanged and produce ciphertexts owned by the union of the owners involved.",
 ["inputs", "configurations"],
 "all images, kernels, weights and biases of the network's shape and magnitude, single or several owners",
 "The cnn package's own test does not compile at this commit, so nothing exercises it.",
 ["cnn/cnn.go", "mkckks/evaluator.go"],
 [("layers", "cnn/cnn.go Convolution, FC1Layer, FC2Layer")],
 "runtime monitor: differential with a plaintext model of the layers",
 "Held on the executions run, at ring degree 2^13 or above as the packing requires.")

prop("C23", "Generic multi-key RLWE operations are correct for every gadget and level",
 "Used directly, with any modulus chain, number of special primes and gadget grouping (gamma), the scheme-independent layer turns multi-party RLWE ciphertexts of any owners into ciphertexts that encrypt exactly the rotated, conjugated or multiplied plaintext polynomials, up to key-switching noise, directly or from hoisted forms, in a receiver of any level up to the operands' whatever it contained before. "
 "Operands stay as they are, a receiver above the operand's level is refused, and encryption and decryption of arbitrary polynomials are inverse at every level and in every domain.",
 ["inputs", "configurations"],
 "all ciphertexts (arbitrary and extreme residues), operand and receiver levels, prime counts and sizes, gamma, owner sets, rotation indices with a CRS",
 "The package's own test only sets up parameters; the scheme tests reach the layer with two parameter sets, gamma 2, receivers of the operand's level and fresh contents.",
 ["mkrlwe/keyswitch.go", "mkrlwe/keyswitch_hoisted.go", "mkrlwe/basis_extension.go", "mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkrlwe/keygen.go", "mkrlwe/params.go"],
 [("operations", "mkrlwe/keyswitch.go Rotate, Conjugate, MulAndRelin; mkrlwe/keyswitch_hoisted.go"), ("gadget", "mkrlwe/keyswitch.go Decompose, ExternalProduct; mkrlwe/params.go Alpha, Beta, Gamma"), ("encryption", "mkrlwe/encryptor.go Encrypt, mkrlwe/decryptor.go Decrypt")],
 "runtime monitor with exact phase oracle (secret-key side computation on big integers)",
 "Held on the executions run, within noise bounds derived from the parameters.")

prop("C24", "Long use leaves no memory or goroutines behind",
 "Evaluators, encryptors, decryptors, key generators and key sets can be used for any number of operations, including refused ones, and parties can join and leave any number of times: when the results are dropped, the memory that stays reachable does not grow with the number of operations done, and no goroutine stays behind. "
 "Creating and dropping such objects leaves nothing behind either.",
 ["histories"],
 "all long histories of operations over new ciphertext and message objects, of objects created and dropped, and of parties that come and go",
 "Unit tests are short and never look at the memory a process keeps.",
 ["mkckks/evaluator.go", "mkbfv/evaluator.go", "mkrlwe/keys.go", "mkbfv/keys.go", "mkrlwe/keyswitch.go", "mkrlwe/encryptor.go", "mkrlwe/decryptor.go"],
 [("buffers of the key sets", "mkrlwe/keys.go, mkbfv/keys.go Add/Del methods"), ("buffers of the evaluators", "mkckks/evaluator.go, mkbfv/evaluator.go, mkrlwe/keyswitch.go")],
 "runtime monitor: live heap and goroutine accounting over repeated rounds of work",
 "Held on the histories run; growth below 24 bytes per repetition is not seen.")

prop("C25", "Parameters and the common reference string are as requested, and permanent",
 "For every valid request the parameters of each layer have exactly the requested ring degree, moduli in their order, special primes, lifting primes, plaintext modulus, noise, slots and scale; every ring multiplies polynomials modulo its own moduli, and the gadget has the digits that cover each level. "
 "The common reference string has for every index it serves one vector of independent polynomials, uniform modulo every prime, and unrelated to any other index or parameter set. Neither using the parameters nor adding the string of another index (any integer, taken modulo the slot count) changes an existing string; an added string is seen by every copy of the parameters and by the objects made from them before. Contradictory requests are refused.",
 ["inputs", "configurations", "histories"],
 "all parameter requests (degree, numbers and sizes of primes of each kind, plaintext modulus, gamma), all rotation indices added in any order through any copy of the parameters, and uses in between",
 "The tests build two fixed parameter sets and never look at the common reference string, at rings of other shapes or at refused requests.",
 ["mkrlwe/params.go", "mkckks/params.go", "mkbfv/params.go", "mkrlwe/keygen.go"],
 [("scheme-independent parameters and the common reference string", "mkrlwe/params.go NewParameters, AddCRS, Alpha, Beta"), ("lifting rings and plaintext ring", "mkbfv/params.go NewParametersFromLiteral, RingR, RingQMul, RingRP, RingQMulP, RingT"), ("slots and scale", "mkckks/params.go NewParameters")],
 "runtime monitor: exact ring arithmetic oracle, statistical and history monitors of the reference string",
 "Held on the executions run; uniformity and independence are judged by tests whose chance of a false alarm is below 1e-15 each.")

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks: the oracles read only exported state of the library's own objects, so /repo carries fix commits only. Every check rebuilds the monitors against /repo's working tree (harness/go.mod replaces mk-lattigo with /repo)."}
for p in P:
    if p["id"] in BUILT:
        m["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "bash run.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
