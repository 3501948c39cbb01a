"""public functions and trait implementations that must depend on their arguments only"""
PURE = frozenset("""
<error::Error as core::convert::From<alloc::string::FromUtf8Error>>::from
<error::Error as core::convert::From<base64::decode::DecodeError>>::from
<error::Error as core::convert::From<core::io::error::Error>>::from
<error::Error as core::convert::From<ring::error::unspecified::Unspecified>>::from
<error::Error as core::convert::From<simple_asn1::ASN1EncodeErr>>::from
<error::Error as core::error::Error>::source
<error::Error as core::fmt::Debug>::fmt
<error::Error as core::fmt::Display>::fmt
<fido::parsing::AuthData as core::clone::Clone>::clone
<fido::parsing::AuthData as core::fmt::Debug>::fmt
<fido::parsing::CoseKey as core::clone::Clone>::clone
<fido::parsing::CoseKey as core::default::Default>::default
<fido::parsing::CoseKey as core::fmt::Debug>::fmt
<fido::verification::Transport as core::clone::Clone>::clone
<fido::verification::Transport as core::cmp::PartialEq>::eq
<fido::verification::Transport as core::convert::TryFrom<usize>>::try_from
<fido::verification::Transport as core::fmt::Debug>::fmt
<fido::verification::ValidAttestation as core::clone::Clone>::clone
<fido::verification::ValidAttestation as core::fmt::Debug>::fmt
<ssh::allowed_signer::AllowedSigner as core::cmp::Eq>::assert_fields_are_eq
<ssh::allowed_signer::AllowedSigner as core::cmp::PartialEq>::eq
<ssh::allowed_signer::AllowedSigner as core::fmt::Debug>::fmt
<ssh::allowed_signer::AllowedSigner as core::fmt::Display>::fmt
<ssh::allowed_signer::AllowedSignerParsingError as core::fmt::Debug>::fmt
<ssh::allowed_signer::AllowedSignerParsingError as core::fmt::Display>::fmt
<ssh::allowed_signer::AllowedSigners as core::cmp::Eq>::assert_fields_are_eq
<ssh::allowed_signer::AllowedSigners as core::cmp::PartialEq>::eq
<ssh::allowed_signer::AllowedSigners as core::fmt::Debug>::fmt
<ssh::cert::CertType as core::clone::Clone>::clone
<ssh::cert::CertType as core::cmp::PartialEq>::eq
<ssh::cert::CertType as core::convert::TryFrom<&str>>::try_from
<ssh::cert::CertType as core::fmt::Debug>::fmt
<ssh::cert::CertType as core::fmt::Display>::fmt
<ssh::cert::Certificate as core::clone::Clone>::clone
<ssh::cert::Certificate as core::cmp::Eq>::assert_fields_are_eq
<ssh::cert::Certificate as core::cmp::PartialEq>::eq
<ssh::cert::Certificate as core::fmt::Debug>::fmt
<ssh::cert::Certificate as core::fmt::Display>::fmt
<ssh::keytype::Curve as core::clone::Clone>::clone
<ssh::keytype::Curve as core::cmp::Eq>::assert_fields_are_eq
<ssh::keytype::Curve as core::cmp::PartialEq>::eq
<ssh::keytype::Curve as core::fmt::Debug>::fmt
<ssh::keytype::Curve as zeroize::Zeroize>::zeroize
<ssh::keytype::CurveKind as core::clone::Clone>::clone
<ssh::keytype::CurveKind as core::cmp::PartialEq>::eq
<ssh::keytype::CurveKind as core::fmt::Debug>::fmt
<ssh::keytype::CurveKind as zeroize::Zeroize>::zeroize
<ssh::keytype::KeyType as core::clone::Clone>::clone
<ssh::keytype::KeyType as core::cmp::Eq>::assert_fields_are_eq
<ssh::keytype::KeyType as core::cmp::PartialEq>::eq
<ssh::keytype::KeyType as core::fmt::Debug>::fmt
<ssh::keytype::KeyType as core::fmt::Display>::fmt
<ssh::keytype::KeyTypeKind as core::clone::Clone>::clone
<ssh::keytype::KeyTypeKind as core::cmp::PartialEq>::eq
<ssh::keytype::KeyTypeKind as core::fmt::Debug>::fmt
<ssh::privkey::EcdsaPrivateKey as core::clone::Clone>::clone
<ssh::privkey::EcdsaPrivateKey as core::cmp::Eq>::assert_fields_are_eq
<ssh::privkey::EcdsaPrivateKey as core::cmp::PartialEq>::eq
<ssh::privkey::EcdsaPrivateKey as core::fmt::Debug>::fmt
<ssh::privkey::EcdsaPrivateKey as zeroize::Zeroize>::zeroize
<ssh::privkey::EcdsaSkPrivateKey as core::clone::Clone>::clone
<ssh::privkey::EcdsaSkPrivateKey as core::cmp::Eq>::assert_fields_are_eq
<ssh::privkey::EcdsaSkPrivateKey as core::cmp::PartialEq>::eq
<ssh::privkey::EcdsaSkPrivateKey as core::fmt::Debug>::fmt
<ssh::privkey::EcdsaSkPrivateKey as zeroize::Zeroize>::zeroize
<ssh::privkey::Ed25519PrivateKey as core::clone::Clone>::clone
<ssh::privkey::Ed25519PrivateKey as core::cmp::Eq>::assert_fields_are_eq
<ssh::privkey::Ed25519PrivateKey as core::cmp::PartialEq>::eq
<ssh::privkey::Ed25519PrivateKey as core::fmt::Debug>::fmt
<ssh::privkey::Ed25519PrivateKey as zeroize::Zeroize>::zeroize
<ssh::privkey::Ed25519SkPrivateKey as core::clone::Clone>::clone
<ssh::privkey::Ed25519SkPrivateKey as core::cmp::Eq>::assert_fields_are_eq
<ssh::privkey::Ed25519SkPrivateKey as core::cmp::PartialEq>::eq
<ssh::privkey::Ed25519SkPrivateKey as core::fmt::Debug>::fmt
<ssh::privkey::Ed25519SkPrivateKey as zeroize::Zeroize>::zeroize
<ssh::privkey::PrivateKey as core::clone::Clone>::clone
<ssh::privkey::PrivateKey as core::cmp::Eq>::assert_fields_are_eq
<ssh::privkey::PrivateKey as core::cmp::PartialEq>::eq
<ssh::privkey::PrivateKey as core::fmt::Debug>::fmt
<ssh::privkey::PrivateKey as core::fmt::Display>::fmt
<ssh::privkey::PrivateKey as core::ops::drop::Drop>::drop
<ssh::privkey::PrivateKeyKind as core::clone::Clone>::clone
<ssh::privkey::PrivateKeyKind as core::cmp::Eq>::assert_fields_are_eq
<ssh::privkey::PrivateKeyKind as core::cmp::PartialEq>::eq
<ssh::privkey::PrivateKeyKind as core::fmt::Debug>::fmt
<ssh::privkey::PrivateKeyKind as zeroize::Zeroize>::zeroize
<ssh::privkey::RsaPrivateKey as core::clone::Clone>::clone
<ssh::privkey::RsaPrivateKey as core::cmp::Eq>::assert_fields_are_eq
<ssh::privkey::RsaPrivateKey as core::cmp::PartialEq>::eq
<ssh::privkey::RsaPrivateKey as core::fmt::Debug>::fmt
<ssh::privkey::RsaPrivateKey as simple_asn1::ToASN1>::to_asn1_class
<ssh::privkey::RsaPrivateKey as zeroize::Zeroize>::zeroize
<ssh::pubkey::EcdsaPublicKey as core::clone::Clone>::clone
<ssh::pubkey::EcdsaPublicKey as core::cmp::Eq>::assert_fields_are_eq
<ssh::pubkey::EcdsaPublicKey as core::cmp::PartialEq>::eq
<ssh::pubkey::EcdsaPublicKey as core::fmt::Debug>::fmt
<ssh::pubkey::Ed25519PublicKey as core::clone::Clone>::clone
<ssh::pubkey::Ed25519PublicKey as core::cmp::Eq>::assert_fields_are_eq
<ssh::pubkey::Ed25519PublicKey as core::cmp::PartialEq>::eq
<ssh::pubkey::Ed25519PublicKey as core::fmt::Debug>::fmt
<ssh::pubkey::Fingerprint as core::cmp::Eq>::assert_fields_are_eq
<ssh::pubkey::Fingerprint as core::cmp::PartialEq>::eq
<ssh::pubkey::Fingerprint as core::fmt::Debug>::fmt
<ssh::pubkey::Fingerprint as core::fmt::Display>::fmt
<ssh::pubkey::FingerprintKind as core::cmp::PartialEq>::eq
<ssh::pubkey::FingerprintKind as core::fmt::Debug>::fmt
<ssh::pubkey::FingerprintKind as core::fmt::Display>::fmt
<ssh::pubkey::PublicKey as core::clone::Clone>::clone
<ssh::pubkey::PublicKey as core::cmp::Eq>::assert_fields_are_eq
<ssh::pubkey::PublicKey as core::cmp::PartialEq>::eq
<ssh::pubkey::PublicKey as core::fmt::Debug>::fmt
<ssh::pubkey::PublicKey as core::fmt::Display>::fmt
<ssh::pubkey::PublicKeyKind as core::clone::Clone>::clone
<ssh::pubkey::PublicKeyKind as core::cmp::Eq>::assert_fields_are_eq
<ssh::pubkey::PublicKeyKind as core::cmp::PartialEq>::eq
<ssh::pubkey::PublicKeyKind as core::fmt::Debug>::fmt
<ssh::pubkey::RsaPublicKey as core::clone::Clone>::clone
<ssh::pubkey::RsaPublicKey as core::cmp::Eq>::assert_fields_are_eq
<ssh::pubkey::RsaPublicKey as core::cmp::PartialEq>::eq
<ssh::pubkey::RsaPublicKey as core::fmt::Debug>::fmt
<ssh::reader::Reader<'a> as core::fmt::Debug>::fmt
<ssh::signature::HashAlgorithm as core::fmt::Debug>::fmt
<ssh::signature::SshSignature as core::fmt::Debug>::fmt
<ssh::signature::SshSignature as core::fmt::Display>::fmt
<ssh::signature::VerifiedSshSignature as core::fmt::Debug>::fmt
<ssh::signature::VerifiedSshSignature as core::fmt::Display>::fmt
<ssh::writer::Writer as core::default::Default>::default
<ssh::writer::Writer as core::fmt::Debug>::fmt
<yubikey::verification::ValidPIVKey as core::fmt::Debug>::fmt
fido::parsing::AuthData::parse
fido::parsing::AuthData::ssh_public_key
fido::parsing::AuthData::user_presence
fido::parsing::AuthData::user_verification
fido::verification::verify_auth_data
ssh::allowed_signer::AllowedSigner::from_string
ssh::allowed_signer::AllowedSigners::from_string
ssh::cert::Certificate::add_signature
ssh::cert::Certificate::comment
ssh::cert::Certificate::critical_option
ssh::cert::Certificate::extension
ssh::cert::Certificate::from_bytes
ssh::cert::Certificate::from_string
ssh::cert::Certificate::key_id
ssh::cert::Certificate::principal
ssh::cert::Certificate::serial
ssh::cert::Certificate::set_critical_options
ssh::cert::Certificate::set_extensions
ssh::cert::Certificate::set_principals
ssh::cert::Certificate::standard_extensions
ssh::cert::Certificate::tbs_certificate
ssh::cert::Certificate::valid_after
ssh::cert::Certificate::valid_before
ssh::keytype::Curve::from_identifier
ssh::keytype::KeyType::as_cert_name
ssh::keytype::KeyType::as_pubkey_name
ssh::keytype::KeyType::from_name
ssh::privkey::PrivateKey::encode
ssh::privkey::PrivateKey::from_bytes
ssh::privkey::PrivateKey::from_string
ssh::privkey::PrivateKey::from_string_with_passphrase
ssh::privkey::PrivateKey::set_device_path
ssh::privkey::PrivateKey::set_pin
ssh::privkey::PrivateKey::write
ssh::pubkey::Fingerprint::compute
ssh::pubkey::PublicKey::bits
ssh::pubkey::PublicKey::encode
ssh::pubkey::PublicKey::fingerprint
ssh::pubkey::PublicKey::fingerprint_with
ssh::pubkey::PublicKey::from_bytes
ssh::pubkey::PublicKey::from_string
ssh::pubkey::PublicKey::write
ssh::reader::Reader::get_offset
ssh::reader::Reader::new
ssh::reader::Reader::read_bytes
ssh::reader::Reader::read_cstring
ssh::reader::Reader::read_positive_mpint
ssh::reader::Reader::read_raw_bytes
ssh::reader::Reader::read_string
ssh::reader::Reader::read_u32
ssh::reader::Reader::read_u64
ssh::reader::Reader::set_offset
ssh::signature::HashAlgorithm::as_str
ssh::signature::SshSignature::from_armored_string
ssh::signature::VerifiedSshSignature::from_ssh_signature
ssh::writer::Writer::as_bytes
ssh::writer::Writer::into_bytes
ssh::writer::Writer::new
ssh::writer::Writer::write_bytes
ssh::writer::Writer::write_cstring
ssh::writer::Writer::write_mpint
ssh::writer::Writer::write_pub_key
ssh::writer::Writer::write_pub_key_data
ssh::writer::Writer::write_raw_bytes
ssh::writer::Writer::write_string
ssh::writer::Writer::write_string_map
ssh::writer::Writer::write_string_vec
ssh::writer::Writer::write_u32
ssh::writer::Writer::write_u64
utils::asn_der_to_r_s
utils::format_signature_for_ssh
utils::signature_convert_asn1_ecdsa_to_ssh
x509::<impl core::convert::From<der_parser::error::BerError> for error::Error>::from
x509::<impl core::convert::From<nom::internal::Err<der_parser::error::BerError>> for error::Error>::from
x509::der_encoding_to_ssh_public_key
x509::extract_ssh_pubkey_from_x509_certificate
x509::extract_ssh_pubkey_from_x509_csr
yubikey::verification::verify_certificate_chain
""".strip().split("\n"))
