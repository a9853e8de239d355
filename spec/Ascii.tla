------------------------------- MODULE Ascii -------------------------------
(* Words as sequences of character codes (TLC cannot index strings). *)
S_type == <<116, 121, 112, 101>>
S_name == <<110, 97, 109, 101>>
S_address == <<97, 100, 100, 114, 101, 115, 115>>
S_ns == <<110, 115>>
S_contents == <<99, 111, 110, 116, 101, 110, 116, 115>>
S_canonical_name == <<99, 97, 110, 111, 110, 105, 99, 97, 108, 95, 110, 97, 109, 101>>
S_delegation_name == <<100, 101, 108, 101, 103, 97, 116, 105, 111, 110, 95, 110, 97, 109, 101>>
S_usage == <<117, 115, 97, 103, 101>>
S_selector == <<115, 101, 108, 101, 99, 116, 111, 114>>
S_data_ty == <<100, 97, 116, 97, 95, 116, 121>>
S_data == <<100, 97, 116, 97>>
S_flags == <<102, 108, 97, 103, 115>>
S_protocol == <<112, 114, 111, 116, 111, 99, 111, 108>>
S_alg == <<97, 108, 103>>
S_pubkey == <<112, 117, 98, 107, 101, 121>>
S_key_tag == <<107, 101, 121, 95, 116, 97, 103>>
S_digest_type == <<100, 105, 103, 101, 115, 116, 95, 116, 121, 112, 101>>
S_digest == <<100, 105, 103, 101, 115, 116>>
S_signed_record_type == <<115, 105, 103, 110, 101, 100, 95, 114, 101, 99, 111, 114, 100, 95, 116, 121, 112, 101>>
S_signed_labels == <<115, 105, 103, 110, 101, 100, 95, 108, 97, 98, 101, 108, 115>>
S_orig_ttl == <<111, 114, 105, 103, 95, 116, 116, 108>>
S_expiration == <<101, 120, 112, 105, 114, 97, 116, 105, 111, 110>>
S_inception == <<105, 110, 99, 101, 112, 116, 105, 111, 110>>
S_key_name == <<107, 101, 121, 95, 110, 97, 109, 101>>
S_signature == <<115, 105, 103, 110, 97, 116, 117, 114, 101>>
S_next_name == <<110, 101, 120, 116, 95, 110, 97, 109, 101>>
S_types == <<116, 121, 112, 101, 115>>
S_hash_algo == <<104, 97, 115, 104, 95, 97, 108, 103, 111>>
S_hash_iterations == <<104, 97, 115, 104, 95, 105, 116, 101, 114, 97, 116, 105, 111, 110, 115>>
S_salt == <<115, 97, 108, 116>>
S_next_name_hash == <<110, 101, 120, 116, 95, 110, 97, 109, 101, 95, 104, 97, 115, 104>>
S_a == <<97>>
S_aaaa == <<97, 97, 97, 97>>
S_txt == <<116, 120, 116>>
S_cname == <<99, 110, 97, 109, 101>>
S_dname == <<100, 110, 97, 109, 101>>
S_tlsa == <<116, 108, 115, 97>>
S_dnskey == <<100, 110, 115, 107, 101, 121>>
S_ds == <<100, 115>>
S_rrsig == <<114, 114, 115, 105, 103>>
S_nsec == <<110, 115, 101, 99>>
S_nsec3 == <<110, 115, 101, 99, 51>>
S_A == <<65>>
S_AAAA == <<65, 65, 65, 65>>
S_NS == <<78, 83>>
S_TXT == <<84, 88, 84>>
S_CNAME == <<67, 78, 65, 77, 69>>
S_DNAME == <<68, 78, 65, 77, 69>>
S_TLSA == <<84, 76, 83, 65>>
S_DNSKEY == <<68, 78, 83, 75, 69, 89>>
S_DS == <<68, 83>>
S_RRSIG == <<82, 82, 83, 73, 71>>
S_NSEC == <<78, 83, 69, 67>>
S_NSEC3 == <<78, 83, 69, 67, 51>>
S_true == <<116, 114, 117, 101>>
S_false == <<102, 97, 108, 115, 101>>
S_null == <<110, 117, 108, 108>>
S_error == <<101, 114, 114, 111, 114>>
S_valid_from == <<118, 97, 108, 105, 100, 95, 102, 114, 111, 109>>
S_expires == <<101, 120, 112, 105, 114, 101, 115>>
S_max_cache_ttl == <<109, 97, 120, 95, 99, 97, 99, 104, 101, 95, 116, 116, 108>>
S_verified_rrs == <<118, 101, 114, 105, 102, 105, 101, 100, 95, 114, 114, 115>>
S_Invalid == <<73, 110, 118, 97, 108, 105, 100>>
S_UnsupportedAlgorithm == <<85, 110, 115, 117, 112, 112, 111, 114, 116, 101, 100, 65, 108, 103, 111, 114, 105, 116, 104, 109>>
S_GET == <<71, 69, 84>>
S_dns_message == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 100, 110, 115, 45, 109, 101, 115, 115, 97, 103, 101>>
S_dns_param == <<63, 100, 110, 115, 61>>
S_text == <<116, 101, 120, 116>>
=============================================================================
