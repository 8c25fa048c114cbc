FE = "kyber_rs::group::edwards25519::fe::"
FF = [FE + n + "=stub_" + s for n, s in [
    ("fe_zero", "fe_zero"), ("fe_one", "fe_one"), ("fe_add", "fe_add"), ("fe_sub", "fe_sub"), ("fe_neg", "fe_neg"),
    ("fe_mul", "fe_mul"), ("fe_square", "fe_square"), ("fe_square2", "fe_square2"), ("fe_invert", "fe_invert"),
    ("fe_pow22523", "fe_pow22523"), ("fe_c_move", "fe_cmove"), ("fe_to_bytes", "fe_to_bytes"),
    ("fe_from_bytes", "fe_from_bytes"), ("fe_is_negative", "fe_is_negative"), ("fe_is_non_zero", "fe_is_non_zero")]]
HARNESS = {
    "h_fe_mul": dict(int=True),
    "h_fe_square": dict(int=True),
    "h_fe_square2": dict(int=True),
    "h_fe_addsub": dict(int=True), "h_fe_to_bytes": dict(int=True), "h_fe_from_bytes": dict(int=True),
    "h_sc_mul_add": dict(int=True), "h_sc_mul": dict(int=True), "h_sc_add": dict(int=True), "h_sc_sub": dict(int=True),
    "h_fe_chain": dict(redirect=[r for r in FF if "invert" not in r and "pow22523" not in r]),
}
for n in "h_pt_special h_ge_special h_ge_add h_ge_sub h_ge_double h_ge_mixed h_ge_neg_null h_ge_select h_ge_base_table h_pt_decode_sound h_pt_len h_pt_encode h_pt_roundtrip h_pt_eq h_small_order".split():
    HARNESS[n] = dict(redirect=FF)
HARNESS["h_pt_canonical"] = dict()
for n in "h_poly_recover h_poly_recover_big h_poly_recover_pub h_poly_recover_pub_big h_poly_recover_wide h_poly_recover_pub_wide h_poly_new h_poly_eval h_poly_algebra h_poly_share_hash".split():
    HARNESS[n] = dict()

GEP = "kyber_rs::group::edwards25519::ge::"
GE = [("<" + GEP + n.replace("::", ">::") if "::" in n else GEP + n) + "=stub_ge_" + s for n, s in [
    ("ExtendedGroupElement::zero", "ext_zero"), ("CompletedGroupElement::add", "add"), ("CompletedGroupElement::sub", "sub"),
    ("CompletedGroupElement::mixed_add", "mixed_add"), ("CompletedGroupElement::to_extended", "to_ext"),
    ("CompletedGroupElement::to_projective", "to_proj"), ("ProjectiveGroupElement::double", "proj_double"),
    ("ExtendedGroupElement::double", "ext_double"), ("ExtendedGroupElement::write_cached", "write_cached"),
    ("ExtendedGroupElement::write_projective", "write_proj"), ("select_cached", "select_cached"), ("select_pre_computed", "select_pre")]]
for n in "h_smul_base h_smul h_smul_vartime h_smul_vartime_big".split():
    HARNESS[n] = dict(int=True, redirect=GE)

BN = ["num_bigint_dig::algorithms::cmp::cmp_slice=stub_bn_cmp", "num_bigint_dig::biguint::to_bitwise_digits_le=stub_bn_to_digits", "num_bigint_dig::algorithms::div::div_rem=stub_bn_div_rem", "num_bigint_dig::algorithms::mod_inverse::mod_inverse=stub_bn_mod_inverse"]
HARNESS["h_sc_inv"] = dict(redirect=["kyber_rs::group::edwards25519::scalar::sc_mul=stub_sc_mul"])
for n in "h_sc_canonical h_sc_zero_one h_random_bits h_sc_unmarshal".split():
    HARNESS[n] = dict()
for n in "h_sc_set_int64 h_sc_set_bytes h_sc_marshal h_sc_stream h_sc_pick h_random_int".split():
    HARNESS[n] = dict(int=True, redirect=BN)
INT = BN + ["<num_bigint_dig::bigint::BigInt>::modpow=stub_bn_modpow", "num_bigint_dig::algorithms::jacobi::jacobi=stub_bn_jacobi"]
for n in "add add_big mul inv div exp small uint64 bytes marshal pad unmarshal stream string cmp pick sqrt jacobi".split():
    HARNESS["h_int_" + n] = dict(int=True, redirect=INT)
HARNESS["h_int_sqrt"]["redirect"] = INT + ["<&num_bigint_dig::bigint::BigInt as core::ops::arith::Mul>::mul=stub_bn_mul"]

for n in "h_schnorr h_schnorr_verify h_dss h_dss_wide h_dss_reject h_dss_session_wide h_dss_setup h_dss_big h_dss_setup_big".split():
    HARNESS[n] = dict()

for n in "h_pt_canonical h_small_order h_sc_canonical".split():
    HARNESS[n]["ovf"] = True

SCP = "kyber_rs::group::edwards25519::scalar::"
PTP = "kyber_rs::group::edwards25519::point::"
ED = [a + "=stub_ed_" + b for a, b in [
    (GEP + "ge_scalar_mult_base", "mul_base"), (GEP + "ge_scalar_mult", "mul"), ("<" + GEP + "ExtendedGroupElement>::zero", "zero"),
    ("<" + GEP + "ExtendedGroupElement>::neg", "neg"), ("<" + GEP + "CompletedGroupElement>::add", "add"), ("<" + GEP + "CompletedGroupElement>::sub", "sub"),
    ("<" + GEP + "CompletedGroupElement>::to_extended", "to_ext"), ("<" + GEP + "ExtendedGroupElement>::write_cached", "write_cached"),
    ("<" + GEP + "ExtendedGroupElement>::write_bytes", "write_bytes"), ("<" + GEP + "ExtendedGroupElement>::set_bytes", "set_bytes"),
    ("<" + PTP + "Point as core::cmp::PartialEq>::eq", "pt_eq"), (SCP + "sc_mul", "sc_mul"), (SCP + "sc_add", "sc_add"), (SCP + "sc_sub", "sc_sub"),
    ("<" + SCP + "Scalar as kyber_rs::group::Scalar>::set_bytes", "sc_set_bytes"),
    ("<" + SCP + "Scalar as kyber_rs::encoding::encodings::BinaryMarshaler>::marshal_binary", "sc_marshal")]]
for n in "h_ed_key h_ed_sign h_ed_verify h_ed_verify_point h_ed_pair h_ed_prefix".split():
    HARNESS[n] = dict(redirect=ED)

for n in "h_vp_deal h_vp_deal_big h_vp_cipher h_vp_response h_vp_certified h_vp_certified_big h_vp_certified_nodeal h_vp_justify h_vp_run h_vp_setup h_vp_session h_vp_session_wide h_vp_messages h_vr_messages h_vr_deal h_vr_deal_big h_vr_cipher h_vr_response h_vr_certified h_vr_certified_big h_vr_justify h_vr_run h_vr_setup h_vr_session h_vr_session_wide".split():
    HARNESS[n] = dict()

for n, need in {"h_vp_deal": "approved complained misaddressed", "h_vp_cipher": "opened refused", "h_vp_certified": "certified", "h_vp_justify": "justified exposed",
                "h_vp_run": "justified secret_recovered", "h_vp_messages": "response justification", "h_vr_messages": "response justification", "h_vr_deal": "approved complained misaddressed", "h_vr_cipher": "opened refused",
                "h_vr_certified": "certified", "h_vr_justify": "justified exposed", "h_vr_run": "justified secret_recovered"}.items():
    HARNESS[n]["need"] = need.split()

for n in "h_dp_run h_dp_faults h_dp_reshare h_dp_reshare_wide h_dp_collude h_dp_deal h_dp_response h_dp_handler h_dp_renew h_dp_run4 h_dp_wide h_dr_wide h_dp_faults4 h_dr_run h_dr_run4 h_dr_faults4 h_dr_faults h_dr_setup h_dr_deal h_dr_response h_dr_messages h_dr_commits h_dr_complaint h_dr_reconstruct".split():
    HARNESS[n] = dict(real_fmt=True)

for n, need in {"h_ecies": "decrypted fresh_ephemeral_key", "h_ecies_tamper": "refused", "h_ecies_garbage": "answered", "h_aead": "refused", "h_dh": "refused", "h_hkdf": "derived", "h_aes_key": "tried",
                "h_xof_stream": "streamed", "h_xof_clone": "copied", "h_xof_reseed": "reseeded", "h_rs_mix": "mixed failed", "h_rs_fail": "reported asked",
                "h_rs_default": "differs differs_per_stream", "h_keypair": "drawn failed"}.items():
    HARNESS[n] = dict(need=need.split(), real_fmt=n == "h_rs_fail")

for n, need in {"h_dp_run": "generated", "h_dp_run4": "generated", "h_dp_wide": "generated key no_key", "h_dr_wide": "key withheld no_key", "h_dp_faults": "key no_key", "h_dp_faults4": "key no_key", "h_dp_reshare": "reshared no_key", "h_dp_reshare_wide": "reshared",
                "h_dp_collude": "forged reshared", "h_dp_deal": "accepted refused", "h_dp_response": "accepted refused justified", "h_dp_handler": "taken refused",
                "h_dp_renew": "renewed refused", "h_dr_run": "key withheld", "h_dr_run4": "key withheld", "h_dr_faults": "key no_key", "h_dr_faults4": "key no_key",
                "h_dr_setup": "taken refused", "h_dr_deal": "accepted refused", "h_dr_response": "accepted refused justified",
                "h_dr_messages": "commitments complaint reconstruction", "h_dr_commits": "accepted refused complained", "h_dr_complaint": "reconstructed refused", "h_dr_reconstruct": "rebuilt"}.items():
    HARNESS[n]["need"] = need.split()

OP = [a + "=stub_op_" + b for a, b in [
    ("<" + GEP + "ExtendedGroupElement>::set_bytes", "set_bytes"), ("<" + GEP + "ExtendedGroupElement>::write_bytes", "write_bytes"), (GEP + "ge_scalar_mult", "mul"),
    ("kyber_rs::group::edwards25519::ge_mult_vartime::ge_scalar_mult_vartime", "mul")]]
for n, need in {"h_embed": "embedded third_try", "h_pick": "picked third_try", "h_data": "data no_data", "h_pt_text": "printed", "h_pt_serde": "serialised read refused", "h_pt_hash": "compared", "h_pt_order": "compared", "h_pt_stream": "read refused"}.items():
    HARNESS[n] = dict(redirect=OP + (["<" + PTP + "Point as core::cmp::PartialEq>::eq=stub_op_eq"] if n in ("h_embed", "h_pick", "h_pt_order", "h_pt_serde", "h_pt_stream") else []), need=need.split(), real_fmt=True)

HARNESS["h_dss_wide"]["need"] = ["signed"]
HARNESS["h_poly_new"]["need"] = "distinct10 distinct20 distinct21 distinct30 distinct31 distinct32".split()
HARNESS["h_poly_recover_wide"]["need"] = HARNESS["h_poly_recover_pub_wide"]["need"] = ["recovered"]

from props import P  # noqa: E402
PROPS = {p["id"]: p for p in P}
