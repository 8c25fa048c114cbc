"""The properties, as listed in properties.jsonl, and the harnesses that decide them (see gen.py)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, quick, thorough=(), explain="", assume=(), note="", state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files.split(), mech=mech,
                  quick=quick.split(), thorough=list(thorough.split() if isinstance(thorough, str) else thorough), explain=explain,
                  assume=list(assume), note=note, state=state, observe=observe, hook=hook))


ED = "src/group/edwards25519/"
A_GF = "GF(2^255-19) facts used as axioms: p is prime, a^(p-1)=1 for a != 0, -1/d and d are not squares (so the addition law is complete)"
A_MODEL = "field elements are exact terms over GF(p) in the curve-level harnesses; that the limb kernels compute those operations is property A01"
A_TOY = "protocol code runs generically over an ideal prime-order group: scalars are terms over GF(L), a point is its discrete logarithm, encodings and hashes are uninterpreted injective functions"

prop("A01", "Field arithmetic modulo 2^255-19 is exact",
     "For any two field elements within the working limb bounds, addition, subtraction, negation, multiplication, squaring, doubling of a square, inversion and the square-root exponentiation return an element congruent to the mathematical result modulo 2^255-19, and stay within the bounds the next operation accepts. Serialising gives the unique 32-byte little-endian encoding below the modulus and parsing is its inverse.",
     "inputs", "every pair of field elements whose limbs are within the stated bounds, every 32-byte string",
     "Carry propagation errors show up for a vanishing fraction of inputs; the tests only multiply points with a few random scalars.",
     ED + "fe.rs", [("carry chains and limb products", ED + "fe.rs fe_mul, fe_square, fe_square2, fe_add, fe_sub, fe_neg"), ("encoding", ED + "fe.rs fe_to_bytes, fe_from_bytes"), ("exponentiation chains", ED + "fe.rs fe_invert, fe_pow22523")],
     "h_fe_mul h_fe_square h_fe_square2 h_fe_addsub h_fe_to_bytes h_fe_from_bytes h_fe_chain",
     explain="Integer mode: limbs are bounded integer variables, wrapping machine arithmetic is shown not to wrap, congruences are decided by polynomial normal form with linear carry elimination.",
     assume=[A_GF], note="All limb values within |limb| <= 1.65*2^26 (even) and half that (odd); no bound on anything else.",
     hook="re-export of the private arithmetic module under a cfg flag")

prop("A02", "Scalar arithmetic modulo the group order is exact",
     "For any operands, scalar addition, subtraction, negation, multiplication and fused multiply-add return the unique representative below the group order of the mathematical result. Inversion and division are the exact modular inverse and quotient, and assigning small integers, byte strings or zero/one to a scalar gives exactly that value modulo the order, whatever the receiver held before.",
     "inputs", "every 32-byte operand, reduced or not; every receiver state; byte strings of 0 to 65 bytes",
     "The reduction has dozens of carry steps that matter only for rare operand patterns; tests use a handful of random operands.",
     ED + "scalar.rs", [("product and reduction", ED + "scalar.rs sc_mul_add, sc_mul, sc_add, sc_sub"), ("inversion", ED + "scalar.rs inv"), ("assignment", ED + "scalar.rs set_int64, set_bytes")],
     "h_sc_mul_add h_sc_mul h_sc_add h_sc_sub h_sc_inv h_sc_zero_one h_sc_set_int64 h_sc_set_bytes",
     explain="Integer mode over all 256-bit operands.", note="No bound on the operand values.",
     hook="none")

prop("A03", "Group addition, subtraction, doubling and negation follow the curve law",
     "For any two curve points in any internal representation, the sum, difference, double and negation returned are valid representations of the exact twisted Edwards result, with the neutral element, inverses, equal and small-order operands included. The neutral element and the generator are the standard ones and copying a point keeps it.",
     "inputs", "every pair of affine curve points and every non-zero projective scaling of each; every entry of the precomputed tables",
     "Exceptional operands (equal points, inverses, low order, unusual projective scalings) are not sampled by random tests.",
     ED + "ge.rs " + ED + "point.rs " + ED + "constants.rs", [("addition formulas", ED + "ge.rs CompletedGroupElement::add/sub/mixed_add/mixed_sub"), ("doubling", ED + "ge.rs double"), ("point wrapper", ED + "point.rs add/sub/neg")],
     "h_ge_add h_ge_sub h_ge_double h_ge_mixed h_ge_neg_null h_ge_special",
     explain="Coordinates are symbolic elements of GF(p) on the curve; obligations are polynomial identities modulo the curve equations.",
     assume=[A_GF, A_MODEL], note="All points and all representations.", hook="accessor for a point's coordinates under a cfg flag")

prop("A05", "Point encodings are sound, canonical and invertible",
     "Encoding any point, in any representation, gives the 32-byte compressed form of its affine coordinates, and decoding that gives the same point back. Decoding accepts a 32-byte string exactly when it names a curve point, returns the point with that ordinate and sign, and refuses every other length.",
     "inputs", "every curve point and projective scaling; every 32-byte string; lengths 0 to 40",
     "Tests round-trip a few points; the accept/reject decision quantifies over all 2^256 strings.",
     ED + "ge.rs " + ED + "point.rs", [("decompression", ED + "ge.rs ExtendedGroupElement::set_bytes"), ("compression", ED + "ge.rs write_bytes"), ("entry points", ED + "point.rs marshal_binary/unmarshal_binary")],
     "h_pt_len h_pt_encode h_pt_special h_pt_decode_sound h_pt_roundtrip",
     explain="Symbolic bytes and coordinates; the square root is an arbitrary element with the algebraic properties of the exponentiation.",
     assume=[A_GF, A_MODEL, "the exponentiation result w satisfies a w^2 in {0, 1, -1, i, -i} (Euler's criterion)"], note="All strings, all points.",
     hook="accessor for a point's coordinates under a cfg flag")

prop("A06", "Canonical-encoding and small-order tests are exact",
     "The canonical-encoding test accepts a byte string exactly when it is 32 bytes long and its ordinate is below the field prime; for scalars exactly when the value is below the group order. The small-order test answers yes exactly for the points whose order divides the cofactor. None of these tests aborts on any input, in builds with or without arithmetic overflow detection.",
     "inputs", "every byte string of 30 to 34 bytes, every curve point",
     "Boundary values near the moduli and the eight torsion points are not reached by random tests.",
     ED + "point.rs " + ED + "scalar.rs", [("canonical test", ED + "point.rs is_canonical, scalar.rs is_canonical"), ("small order", ED + "point.rs has_small_order")],
     "h_pt_canonical h_small_order h_sc_canonical",
     explain="Bit-vector queries for the canonical tests; field reasoning for the torsion points.",
     assume=[A_GF, A_MODEL], note="All strings of the stated lengths, all points.", hook="weak key table exposed under a cfg flag")

prop("C01", "Any t shares recover the secret, fewer never do",
     "For every polynomial of degree t-1 and every selection of its shares, in any order and with gaps or repetitions, recovery of the secret, of the private polynomial, of the public commitment and of the public polynomial returns exactly the original when at least t distinct shares are present, and an error otherwise.",
     "inputs configurations", "all coefficient values in GF(L); thresholds 1 to 3 and up to 4 shares (thorough: threshold up to 5, 6 shares), every subset, four orderings/gap patterns; eight sets of 3 to 10 shares with indices up to 65536 and thresholds up to 10",
     "Tests recover from one or two fixed subsets of random polynomials.",
     "src/share/poly.rs", [("Lagrange interpolation", "src/share/poly.rs recover_secret, recover_commit, recover_pri_poly, recover_pub_poly"), ("share selection", "src/share/poly.rs xy_scalar, xy_commit")],
     "h_poly_recover h_poly_recover_pub h_poly_recover_wide h_poly_recover_pub_wide", "h_poly_recover_big h_poly_recover_pub_big",
     explain="Coefficients are free elements of GF(L); subset, order and gaps are solver-chosen.", assume=[A_TOY], note="Bounded threshold and share count; all coefficient values.")

prop("C02", "Share evaluation and commitments agree with the polynomial",
     "A share at any index is the value of the sharing polynomial at index+1, and the commitment polynomial evaluates at every index to that share times the base. A share passes the commitment check exactly when it has the polynomial's value; sums, products and equality of polynomials and of commitments act on the coefficients, and a fresh polynomial has the given secret, the requested threshold and separately drawn coefficients.",
     "inputs configurations", "all coefficients and share values in GF(L), indices up to 2^32+5, seven degrees up to 16, default and custom base",
     "Tests check a few evaluations of random polynomials with small indices.",
     "src/share/poly.rs", [("Horner evaluation", "src/share/poly.rs PriPoly::eval, PubPoly::eval"), ("commit/check", "src/share/poly.rs commit, check, add, mul, equal")],
     "h_poly_new h_poly_eval h_poly_algebra h_poly_share_hash",
     explain="Coefficients are free elements of GF(L).", assume=[A_TOY], note="Bounded degree; all coefficient values.")

A_BN = "the bignum crate's long division, modular inverse, comparison, square root and modular power are replaced by their specification (a dependency); its addition, multiplication, conversion and normalisation code runs as compiled"

prop("A04", "Scalar multiplication computes the exact multiple",
     "For any scalar below 2^255 and any point, multiplying gives that point added to itself scalar-many times, with the generator as the default point, and the constant-time and variable-time routes agree with it. Table lookups return the requested multiple for every digit, and the precomputed tables hold the multiples of the generator they stand for.",
     "inputs", "every scalar below 2^255 (variable-time route: every 10-bit window of a scalar at 6 positions, quick: narrower windows), every point as a formal group element, every table index",
     "Digit recoding errors depend on rare digit patterns; the tests multiply by a few random scalars.",
     ED + "ge.rs " + ED + "ge_mult_vartime.rs " + ED + "point.rs " + ED + "constants.rs", [("fixed base", ED + "ge.rs ge_scalar_mult_base"), ("any base", ED + "ge.rs ge_scalar_mult"), ("variable time", ED + "ge_mult_vartime.rs"), ("tables", ED + "constants.rs BASE")],
     "h_smul_base h_smul h_smul_vartime h_ge_select h_ge_base_table", "h_smul_vartime_big",
     explain="The multiplication routines run over a formal group: a point is an integer multiple, the scalar's bits are symbolic, the result is compared as a polynomial identity.",
     assume=[A_GF, A_MODEL, "the group operations used by the multiplication loops are those decided by A03"], note="All 255-bit scalars for the constant-time routes.",
     hook="the private multiplication routines and table selection re-exported under a cfg flag")

prop("B01", "Modular integers compute exactly modulo their modulus",
     "Every arithmetic operation and every assignment on modular integers yields the unique representative in [0, m) of the mathematical result and keeps the operand's modulus; modulo a prime, a square root squares back to its operand and only non-squares are refused. Encodings have the fixed length of the modulus in either byte order, decoding accepts exactly the encodings of values below the modulus, and a refused decoding leaves the value alone.",
     "inputs configurations", "every value below each of five moduli (7, 65537, 2^61-1, 2^64+13 and the 253-bit group order; products and quotients for the smaller ones), byte strings up to 65 bytes, every 64-bit small integer, hexadecimal strings of 1 to 3 digits",
     "Boundary values (0, m-1, multiples of m, short encodings) are rarely drawn by tests, which use a few constants.",
     "src/group/integer_field/integer.rs", [("arithmetic", "src/group/integer_field/integer.rs add, sub, neg, mul, div, inv, exp"), ("assignment", "src/group/integer_field/integer.rs set_int64, init_bytes, set_string"), ("encodings", "src/group/integer_field/integer.rs marshal_binary, unmarshal_binary, little_endian, big_endian")],
     "h_int_add h_int_mul h_int_inv h_int_div h_int_exp h_int_small h_int_uint64 h_int_bytes h_int_marshal h_int_pad h_int_stream h_int_unmarshal h_int_string h_int_cmp h_int_sqrt h_int_jacobi", "h_int_add_big",
     explain="Integer mode; digits of the real bignum code are bounded integer variables.", assume=[A_BN],
     note="Fixed list of moduli; exponents 0 to 2; square roots and quadratic characters modulo 7, 13 and 17.", hook="read access to a modular integer's value under a cfg flag")

prop("B02", "Random integers and scalars are the stream's bits, in range",
     "Drawing a random integer below a bound returns a positive value below it that is exactly the masked stream bytes of the accepted draw: out-of-range draws are discarded and every in-range draw is accepted. Random bit strings have the requested length, the forced top bit when asked for and stream bits everywhere else; a picked scalar is such a draw below the group order.",
     "inputs", "every stream content; bit lengths 1 to 40 and eight up to 2049; eight bounds around byte boundaries and the group order; up to one rejected draw",
     "Masking or rejection errors bias the distribution without ever failing a test that samples.",
     "src/util/random/random_stream.rs " + ED + "scalar.rs src/group/integer_field/integer.rs", [("bit strings", "src/util/random/random_stream.rs bits"), ("rejection sampling", "src/util/random/random_stream.rs random_int"), ("scalar draw", ED + "scalar.rs pick")],
     "h_random_bits h_random_int h_sc_pick h_int_pick",
     explain="The stream is symbolic bytes.", assume=[A_BN], note="At most one rejected draw before the accepted one.")

prop("M01", "Scalar encodings are canonical and round-trip",
     "Encoding any scalar gives exactly 32 bytes holding the representative below the group order of its value, and decoding that encoding gives the same bytes back. Decoding takes the value of any 32-byte string and refuses every other length without touching the scalar. Stream encodings carry exactly these bytes, however they are chunked, and a sink or source that ends early is reported.",
     "inputs", "every 32-byte scalar content, every input of 30 to 34 bytes", "Short representatives and unreduced contents are drawn with negligible probability.",
     ED + "scalar.rs src/group/integer_field/integer.rs", [("encoding", ED + "scalar.rs marshal_binary"), ("decoding", ED + "scalar.rs unmarshal_binary")],
     "h_sc_marshal h_sc_unmarshal h_sc_stream", explain="Integer mode for the reduction, bit-vectors for the length tests.", assume=[A_BN], note="All contents.")

prop("S01", "Schnorr signatures verify exactly when their equation holds",
     "A signature made with any private key on any message is accepted under the matching public key, message and group, unless the key or the nonce is zero. A signature is accepted exactly when it has the right length, both halves are canonical, neither the commitment nor the key has small order, and the response equals the nonce commitment plus the challenge, derived from commitment, key and message, times the key; in particular any change to the message, key or either half that breaks this is refused.",
     "inputs", "every key, nonce and signature content; messages of 0 to 300 bytes, seven lengths (perturbed messages of 0 to 131); signature lengths 62 to 66",
     "Tests flip one byte or use one other key; acceptance quantifies over all signatures.",
     "src/sign/schnorr/schnorr_sig.rs", [("signing", "src/sign/schnorr/schnorr_sig.rs sign"), ("verification", "src/sign/schnorr/schnorr_sig.rs verify_with_checks"), ("challenge", "src/sign/schnorr/schnorr_sig.rs hash")],
     "h_schnorr h_schnorr_verify", explain="Signatures are symbolic bytes, keys free field elements; the oracle is the equation alone.", assume=[A_TOY], note="Bounded message length.")

prop("F01", "Distributed signing yields one valid signature from any t partials",
     "Whatever the order, repetition and subset of deliveries, a participant holds a signature exactly when it has at least the threshold of distinct partials, and that signature is the one valid Schnorr signature under the group's key and nonce. A partial signature is accepted exactly when its index is a participant's, it is signed by that participant, belongs to this session, matches the committed shares and none was accepted from that participant before; sessions are identified by both keys' commitments and only listed members may join.",
     "inputs histories", "all key and nonce polynomials, private keys and partial signature contents; 3 participants, thresholds 1 to 3, histories of 3 deliveries (thorough: 4), and of up to 5 deliveries among 5, 7 and 9 participants; eight kinds of tampering, re-signed by any participant",
     "Tests run one honest order and flip a few fields; the guarantee is over all orders and forgeries.",
     "src/sign/dss/dss_sig.rs", [("partial signatures", "src/sign/dss/dss_sig.rs partial_sig"), ("acceptance", "src/sign/dss/dss_sig.rs process_partial_sig"), ("combination", "src/sign/dss/dss_sig.rs enough_partial_sig, signature")],
     "h_dss h_dss_wide h_dss_reject h_dss_session_wide h_dss_setup", "h_dss_big h_dss_setup_big",
     explain="The protocol object runs symbolically over the ideal group; deliveries and tampering are solver-chosen.", assume=[A_TOY], note="3 participants, up to 9 in three fixed orders.",
     state=[("received partials", "which participants' partial signatures are held")])

prop("S02", "EdDSA keys and signatures follow RFC 8032 and bind key, message and nonce",
     "A private seed fixes the clamped secret, the nonce prefix and the public key as RFC 8032 prescribes, and private keys round-trip through their 64-byte encoding and no other length. Signing is deterministic, derives its nonce from a secret prefix no two keys share and the message, and every signature made verifies under the matching key with both this and the Schnorr verifier. A signature is accepted exactly when its length is right, all elements are canonical and none has small order, and the group equation holds for that key and message.",
     "inputs", "every seed, key and signature content; messages of 0 to 300 bytes, seven lengths (perturbed messages of 0 to 131); encodings of 60 to 68 bytes; keys from seeds, from key pairs and from the generator",
     "Test vectors fix a few keys and messages; acceptance and nonce secrecy quantify over all of them.",
     "src/sign/eddsa/eddsa_sig.rs src/group/edwards25519/curve.rs", [("key derivation", "src/group/edwards25519/curve.rs new_key_and_seed_with_input, src/sign/eddsa/eddsa_sig.rs unmarshal_binary"), ("signing", "src/sign/eddsa/eddsa_sig.rs sign"), ("verification", "src/sign/eddsa/eddsa_sig.rs verify_with_checks")],
     "h_ed_key h_ed_sign h_ed_verify h_ed_verify_point h_ed_pair h_ed_prefix",
     explain="The curve's own scalar and point types run with their group operations replaced by an ideal prime-order group; the oracle is RFC 8032's equations over symbolic bytes.",
     assume=["the curve's points form an ideal prime-order group in which decoding, scalar multiplication and addition are exact (decided by A03, A04, A05); SHA-512 halves are collision-free"], note="Bounded message length.")

VP = "src/share/vss/pedersen/vss.rs"
prop("D01", "Pedersen VSS: deals, complaints and certification",
     "A verifier approves a deal exactly when it opens under its key, was signed by the dealer, is addressed to it, lies on the committed polynomial of the announced valid threshold and carries the session identifier of exactly these participants and commitments; anything else is refused or answered by a signed complaint. Responses count once each and only if signed by that verifier for this session, a complaint is settled exactly by the dealer revealing that verifier's valid deal and a wrong justification discredits the dealer. A deal is released exactly when certified: no bad dealer, nobody complaining, at least the threshold approving and nobody missing (after the timeout, no more absent than the threshold leaves room for); t certified deals of one session recover the secret and fewer do not.",
     "inputs histories faults", "all keys, polynomials, shares, signatures, nonces and ciphertext tampering; 3 verifiers (complete runs with up to 8, threshold up to 5), deal thresholds and commitment counts 0 to 3 (thorough: 4), histories of 3 (thorough: 4) events after up to two answers among responses, justifications and the timeout",
     "Tests run the honest flow and flip a few fields; the guarantees are against every dealer, every forger and every order of messages.",
     VP + " src/dh/dh_impl.rs", [("deal verification", VP + " verify_deal, bind_session"), ("encryption", VP + " encrypted_deal, decrypt_deal; src/dh/dh_impl.rs"), ("responses and justifications", VP + " verify_response, verify_justification"), ("certification", VP + " deal_certified"), ("recovery", VP + " recover_secret")],
     "h_vp_deal h_vp_cipher h_vp_response h_vp_certified h_vp_certified_nodeal h_vp_justify h_vp_run h_vp_setup h_vp_session h_vp_session_wide h_vp_messages", "h_vp_deal_big h_vp_certified_big",
     explain="Dealer, verifiers and network adversary run symbolically over the ideal group; the oracle recomputes validity from the polynomial and the message history.",
     assume=[A_TOY, "HMAC/HKDF runs as compiled over an injective hash; AES-GCM is an ideal authenticated cipher; no nonce or ephemeral secret is zero", "whether the dealer signed a justification is not claimed: the code, like the original it follows, never checks it"], note="3 verifiers, short histories.",
     state=[("aggregator", "responses, session, threshold, deal and bad-dealer flag of a verifier")],
     hook="constructors and read access to the messages and the aggregator under a cfg flag")

VR = "src/share/vss/rabin/vss.rs"
prop("D02", "Rabin VSS: deals, complaints and certification",
     "A verifier approves a deal exactly when it opens under its key, was signed by the dealer, is addressed to it, its pair of shares opens the commitments of the announced valid threshold and it carries the session identifier of exactly these participants and commitments; anything else is refused or answered by a signed complaint. Responses count once each and only if signed by that verifier for this session, a complaint is settled exactly by the dealer revealing that verifier's valid deal and a wrong justification discredits the dealer. A deal is released exactly when certified: everybody answered or timed out, at least the threshold approves and no justification was wrong; t certified deals of one session recover the secret, fewer do not, and the dealer reveals the secret's commitments, matching all shares, only then.",
     "inputs histories faults", "all keys, polynomials, share pairs, signatures, nonces and ciphertext tampering; 3 verifiers (complete runs with up to 8, threshold up to 5), deal thresholds and commitment counts 0 to 3 (thorough: 4), histories of 3 (thorough: 4) events after up to two answers among responses, justifications and the timeout",
     "Tests run the honest flow and flip a few fields; the guarantees are against every dealer, every forger and every order of messages.",
     VR + " src/dh/dh_impl.rs", [("deal verification", VR + " verify_deal"), ("encryption", VR + " encrypted_deal, decrypt_deal; src/dh/dh_impl.rs"), ("responses and justifications", VR + " verify_response, verify_justification"), ("certification", VR + " enough_approvals, deal_certified, clean_verifiers"), ("recovery", VR + " recover_secret")],
     "h_vr_deal h_vr_cipher h_vr_response h_vr_certified h_vr_justify h_vr_run h_vr_setup h_vr_session h_vr_session_wide h_vr_messages", "h_vr_deal_big h_vr_certified_big",
     explain="Dealer, verifiers and network adversary run symbolically over the ideal group; the oracle recomputes validity from the commitments and the message history.",
     assume=[A_TOY, "HMAC/HKDF runs as compiled over an injective hash; AES-GCM is an ideal authenticated cipher; no nonce or ephemeral secret is zero", "whether the dealer signed a justification is not claimed: the code, like the original it follows, never checks it"], note="3 verifiers, short histories.",
     state=[("aggregator", "responses, session, threshold, deal and bad-dealer flag of a verifier")],
     hook="constructors and read access to the messages and the aggregator under a cfg flag")

DKP = "src/share/dkg/pedersen/dkg.rs"
DKR = "src/share/dkg/rabin/dkg.rs"
A_DKG = ["the list of long-term public keys has no duplicates, no random draw is zero, hash-map iteration follows one fixed order", "deals reach everyone they are meant for or no one; justifications, once made, reach everyone; responses of a silent node reach no one"]
prop("E01", "Pedersen DKG yields one key that only enough participants can use",
     "For every choice of secrets and every tolerated mix of absent, cheating, justified and silent participants, honest nodes agree on the qualified dealers, and obtain a key exactly when at least the threshold of dealers is qualified; their shares then all lie on the same public polynomial, whose constant term is the sum of the qualified dealers' secrets times the generator, so any threshold of shares recovers the secret behind the public key. A deal is taken exactly when it is the one the named dealer sent to this node, once, and never approved or qualified with another threshold than the agreed one; a response exactly when its claimed sender signed it for that dealer's session; and nothing forged changes the state or blocks the genuine message. Invalid configurations are refused rather than taken, and no key is available before the protocol is over.",
     "inputs faults histories", "all secrets, polynomials, keys, signatures and tampered ciphertexts; 3 nodes (thorough: 4), thresholds 2 to n, each dealer honest, absent, cheating with or without justification, one node silent; six cases with 5 to 7 nodes and slack above the threshold; forged deals and responses with every claimed index",
     "Tests run the honest flow on fixed sizes; agreement and recovery have to hold for every fault pattern and every forger.",
     DKP + " src/share/vss/pedersen/vss.rs", [("deals", DKP + " deals, process_deal"), ("responses and justifications", DKP + " process_response, process_justification"), ("qualification", DKP + " qual, certified, threshold_certified, set_timeout"), ("key", DKP + " dist_key_share, dkg_key")],
     "h_dp_run h_dp_wide h_dp_faults h_dp_deal h_dp_response h_dp_handler", "h_dp_run4 h_dp_faults4",
     explain="All nodes, the network and the adversary run symbolically over the ideal group; the oracle recomputes qualification from the fault pattern and the key from the dealers' secrets.",
     assume=[A_TOY] + A_DKG, note="3 nodes, 4 in the thorough runs, 5 to 7 in six fixed fault patterns.",
     state=[("verifiers", "one deal verifier per dealer"), ("dealer", "own polynomial and deals")], hook="read access to the generator's verifiers under a cfg flag")

prop("E02", "Resharing and renewal keep the distributed key",
     "When a distributed key is reshared from old nodes to new ones, with any overlap, the new nodes end up with shares on one new polynomial of the new threshold with the same public key and secret, provided the old threshold of dealers is qualified, and with no key otherwise; nodes that leave get no share. No old node can make new nodes accept a polynomial of another secret, not by a justification and not with the help of all new nodes but the one it deceives. Renewing a share adds a sharing of zero of the same degree, keeping the public key and landing on the sum polynomial, and anything else is refused.",
     "inputs faults", "all secrets and polynomials; 3 old and 3 new nodes with full, partial or no overlap, old threshold 2, new thresholds 2 and 3, one old node absent, forging another secret, or cheating and justifying, one silent new node; seven cases of growing and shrinking groups of up to 5 nodes; renewals of degrees 0 to 2",
     "Tests reshare once between fixed groups with honest nodes.",
     DKP, [("resharing deals", DKP + " process_deal"), ("resharing key", DKP + " reshare_key"), ("renewal", DKP + " DistKeyShare::renew")],
     "h_dp_reshare h_dp_reshare_wide h_dp_collude h_dp_renew",
     explain="Old and new groups run symbolically over the ideal group; the old public polynomial is the oracle for the unchanged key.",
     assume=[A_TOY] + A_DKG, note="3 old and 3 new nodes; 3 to 5 and 2 to 5 in seven fixed cases.",
     state=[("verifiers", "one deal verifier per old dealer")], hook="none")

prop("E03", "Rabin DKG yields one key that only enough participants can use",
     "For every choice of secrets and every tolerated mix of absent, cheating, justified, mute and silent participants, honest nodes agree on the qualified dealers and obtain a key exactly when at least the threshold is qualified and every qualified dealer's commitments are revealed or rebuilt; shares then all lie on the same polynomial, whose constant term is the sum of the qualified secrets times the generator, and a threshold of them recovers the secret. Deals and responses count exactly when authentic, revealed commitments only from their qualified dealer, for its session and with the right degree; commitments that contradict a node's share are answered by a signed complaint, a proved complaint drops them, and a threshold of signed shares of distinct nodes rebuilds the true ones. No key is available before all that is done.",
     "inputs faults histories", "all secrets, polynomials, keys, signatures and tampered ciphertexts; 3 nodes (thorough: 4), thresholds 2 to n, each dealer honest, absent, cheating with or without justification or mute, one node silent; six cases with 5 to 7 nodes and slack above the threshold; revealed commitments of length 0 to 3; 3 reconstruction messages of which one is forged, foreign or out of range",
     "Tests run the honest flow and a handful of hand-made faults.",
     DKR + " src/share/vss/rabin/vss.rs", [("deals", DKR + " deals, process_deal"), ("responses and justifications", DKR + " process_response, process_justification"), ("commitments", DKR + " secret_commits, process_secret_commits"), ("complaints and reconstruction", DKR + " process_complaint_commits, process_reconstruct_commits"), ("key", DKR + " qual, certified, finished, dist_key_share")],
     "h_dr_run h_dr_wide h_dr_faults h_dr_setup h_dr_deal h_dr_response h_dr_messages h_dr_commits h_dr_complaint h_dr_reconstruct", "h_dr_run4 h_dr_faults4",
     explain="All nodes, the network and the adversary run symbolically over the ideal group; the oracle recomputes qualification from the fault pattern and the key from the dealers' secrets.",
     assume=[A_TOY] + A_DKG + ["shares sent for reconstruction are assumed genuine once signed: the protocol has no means to check them"], note="3 nodes, 4 in the thorough runs, 5 to 7 in six fixed fault patterns.",
     state=[("verifiers", "one deal verifier per dealer"), ("commitments", "revealed or rebuilt polynomials"), ("pending_reconstruct", "shares collected per dealer")], hook="none")

EC = "src/encrypt/ecies/ecies_impl.rs"
DH = "src/dh/dh_impl.rs"
A_AEAD = "AES-256-GCM is an ideal authenticated cipher, HKDF a collision-free function of salt, key material and context"
prop("X01", "ECIES: only the owner of the key reads, and nobody alters, a message",
     "Whatever is encrypted to a public key decrypts to the same bytes with its private key and is refused under every other private key. A ciphertext with any byte changed, cut short, lengthened or carrying another ephemeral key is refused, and no byte string of any length makes decryption panic. Every encryption draws its own ephemeral key.",
     "inputs", "all keys, message bytes, ephemeral secrets and tampered bytes; messages of 0 to 150 bytes, arbitrary ciphertexts of 0 to 50 bytes",
     "Tests decrypt one message and flip one byte.",
     EC + " " + DH, [("encryption", EC + " encrypt, derive_key"), ("decryption", EC + " decrypt"), ("channel", DH + " AEAD::seal, AEAD::open")],
     "h_ecies h_ecies_tamper h_ecies_garbage",
     explain="Both sides run symbolically over the ideal group; the tampered byte and its position, the cut and the replaced ephemeral point are free.",
     assume=[A_TOY, A_AEAD, "a ciphertext of changed length only opens by a tag coincidence, which is left out"], note="Six message lengths up to 150 bytes.", hook="none")

prop("X02", "The Diffie-Hellman channel binds key, context, nonce and additional data",
     "Both sides of an exchange obtain the same point, the product of the secrets. A text sealed under a shared point, context, nonce and additional data opens to the same bytes under exactly these, and is refused if any of them, or the text, is different in any byte or in length. Key derivation gives exactly the requested number of bytes of the standard expansion of its input and context and refuses what is too long, and cipher keys of another length than 32 bytes are refused.",
     "inputs", "all points, contexts, nonces, texts, additional data and their alterations; contexts of 0 to 130 bytes, texts of 0 to 150, additional data of 0 to 70, key material of 0 to 101, derived keys of 0 to 300 bytes",
     "Tests round-trip fixed values.",
     DH, [("exchange", DH + " dh_exchange"), ("key derivation", DH + " hkdf"), ("channel", DH + " AEAD, aes_encrypt, aes_decrypt, encrypt, decrypt")],
     "h_aead h_dh h_hkdf h_aes_key",
     explain="Symbolic execution over the ideal group; every alteration is a symbolic byte or length, different from the original.",
     assume=[A_TOY, A_AEAD, "an output buffer, where one is passed, has exactly the length of the output: the code panics otherwise"], note="Selected lengths; in strings over 50 bytes the altered byte is at one of 18 places.", hook="none")

XF = "src/xof/blake3/xof.rs"
prop("X03", "The extendable output function is one stream of all it absorbed",
     "Whatever is absorbed, in however many writes, and however reads and key streams are mixed and sized, the bytes handed out are consecutive bytes of the one output stream of everything absorbed, and a key stream is its exclusive-or with the source. Copies go on from the same state without disturbing each other; reading ends absorption, which fails from then on, and reseeding starts a fresh stream keyed by the next output. A destination too short is refused without consuming output, and no call panics or hangs.",
     "inputs histories", "all seeds, written bytes and sources; seeds of 0 to 130 bytes, two writes, three reads or key streams of up to 150 bytes, copies and reseeds at any of several positions",
     "Tests use a few fixed sizes; splits and orders of calls interact.",
     XF, [("absorption and reading", XF + " Write, Read"), ("key stream", XF + " xor_key_stream"), ("copy and reseed", XF + " clone, reseed, new")],
     "h_xof_stream h_xof_clone h_xof_reseed",
     explain="The hash is an uninterpreted function giving a stream per absorbed string; the harness compares every byte handed out with the stream of the reference history.",
     assume=["the hash library's incremental interface is a function of the absorbed bytes and the position"], note="Histories of up to eight calls.",
     state=[("xof", "absorbing or reading, with position")], hook="none")

RS = "src/util/random/random_stream.rs"
prop("X04", "Mixed randomness uses every source and never goes on without one",
     "A random stream built from several sources is seeded, on every draw, with fresh bytes of all the sources that deliver, whatever chunks they deliver them in, and a draw fails exactly when no source delivers. Without sources the system generator is used, afresh for every stream and draw. A failed stream never turns into predictable bits or numbers.",
     "inputs faults", "all source contents; 1 to 3 sources, each good, slow, short or failing midway; draws of 0 to 200 bytes",
     "Faults of single sources, short reads and their combinations are not tested.",
     RS, [("mixing", RS + " RandStream::xor_key_stream"), ("drawing", RS + " bits, random_int, bytes")],
     "h_rs_mix h_rs_fail h_rs_default",
     explain="Sources hand out symbolic bytes with every fault pattern; the oracle hashes the delivered bytes in order.",
     assume=["system randomness is an unconstrained value per draw"], note="Up to three sources, two draws.", hook="none")

KP = "src/util/key/key_pair.rs"
prop("K01", "Key pairs match",
     "The public half of every new key pair is its private half times the generator. The private half is the suite's own generator's when it has one and a fresh random scalar otherwise, and a failing generator is reported instead of replaced.",
     "inputs faults", "all generated or drawn scalars; generator absent, present or failing",
     "Tests draw one pair of the default suite.",
     KP, [("generation", KP + " new_key_pair, gen")],
     "h_keypair", explain="The suite is a harness type whose generator outcome is symbolic.", assume=[A_TOY], note="None.", hook="none")

A_OP = "a point is opaque, known by its encoding; decoding accepts an uninterpreted set of strings and re-encodes canonical ones to themselves, up to the sign of a zero abscissa (A05)"
prop("A07", "Embedded data comes back and picked points lie in the prime-order subgroup",
     "Embedding bytes gives a point of the prime-order subgroup whose data are exactly the first bytes that fit, whatever the random stream delivers; all other bits of its encoding are the stream's. A picked point, also when read from a random stream, is never neutral and is the cofactor times a random curve point. Extracting data from any point gives the bytes after its length byte, and is refused exactly when that length is out of range.",
     "inputs", "all data bytes, all random streams needing up to three tries, all points; data of 0 to 300 bytes",
     "Rejected candidates, over-long data and adversarial points are rarely met by tests.",
     ED + "point.rs", [("embedding", ED + "point.rs embed, pick"), ("extraction", ED + "point.rs data")],
     "h_embed h_pick h_data",
     explain="Points are opaque encodings; which candidate strings decode, and which points have prime order, is left to the solver.",
     assume=[A_OP, "a random stream that needs more than three tries is left out", "multiplication by the cofactor or the order is an uninterpreted function of scalar and point (A04)"], note="Three tries.",
     hook="constructor and accessor of a point's coordinates under a cfg flag")

prop("A08", "Equality, order, hash, text and serialised forms follow the point",
     "Two points are equal, hash alike and compare as equal exactly when their encodings agree, in whatever internal representation; the order is total and antisymmetric. Text forms spell the encoding in the requested case and prefix. Serialised points and scalars come back equal, and nothing but a curve point can be deserialised as a point; stream encodings are the binary encoding, however the bytes are chunked, and a sink or source that ends early is reported.",
     "inputs", "all points and pairs of points, all scalings of equal points, all serialised bytes; chunks of 1 to 64 bytes, sources of 0 to 40 bytes",
     "Tests compare freshly computed points, which share one representation.",
     ED + "point.rs " + ED + "scalar.rs src/encoding/encodings.rs src/group/internal/marshalling/marshal.rs", [("equality, order and hash", ED + "point.rs eq, cmp, hash"), ("text", ED + "point.rs, scalar.rs LowerHex, UpperHex, Display"), ("serialisation", ED + "point.rs try_from; src/encoding/encodings.rs"), ("streams", "src/group/internal/marshalling/marshal.rs")],
     "h_pt_eq h_pt_special h_pt_hash h_pt_order h_pt_text h_pt_serde h_pt_stream",
     explain="Coordinates are symbolic field elements for equality of representations; otherwise points are opaque encodings.",
     assume=[A_GF, A_MODEL, A_OP], note="Text forms with two free bytes at a time.",
     hook="constructor and accessor of a point's coordinates under a cfg flag")
