//! Named values and their assigned numbers, written down independently of the implementation's
//! own conversions so that building and projecting values does not depend on them.
use maybe_dns::rdata::verif::*;
use maybe_dns::rdata::*;
use maybe_dns::*;

macro_rules! table {
    ($of:ident, $n:ident, $t:ty, $num:ty, { $($(#[$m:meta])* $p:path = $v:literal),* $(,)? }) => {
        #[allow(dead_code)]
        pub fn $of(x: u64) -> $t {
            match x { $($(#[$m])* $v => $p,)* _ => panic!("{} in case: {}", stringify!($of), x) }
        }
        #[allow(dead_code)]
        pub fn $n(x: $t) -> $num {
            match x { $($(#[$m])* $p => $v,)* #[allow(unreachable_patterns)] _ => <$num>::MAX }
        }
    };
}

table!(rt_of, rt_n, RecordType, u16, {
    RecordType::A = 1, RecordType::NS = 2, RecordType::CNAME = 5, RecordType::SOA = 6,
    RecordType::NULL = 10, RecordType::WKS = 11, RecordType::PTR = 12, RecordType::HINFO = 13,
    RecordType::MINFO = 14, RecordType::MX = 15, RecordType::TXT = 16, RecordType::AAAA = 28,
    RecordType::LOC = 29, RecordType::SRV = 33, RecordType::NAPTR = 35, RecordType::OPT = 41,
    RecordType::APL = 42, #[cfg(feature = "dnssec")] RecordType::DS = 43, RecordType::SSHFP = 44,
    RecordType::IPSECKEY = 45, #[cfg(feature = "dnssec")] RecordType::RRSIG = 46,
    #[cfg(feature = "dnssec")] RecordType::NSEC = 47, #[cfg(feature = "dnssec")] RecordType::DNSKEY = 48,
    RecordType::DHCID = 49, RecordType::TLSA = 52, RecordType::HIP = 55,
    #[cfg(feature = "dnssec")] RecordType::CDS = 59, #[cfg(feature = "dnssec")] RecordType::CDNSKEY = 60,
    RecordType::OPENPGPKEY = 61, RecordType::CSYNC = 62, RecordType::SVCB = 64, RecordType::EUI48 = 108,
    RecordType::EUI64 = 109, RecordType::TKEY = 249, RecordType::TSIG = 250, RecordType::URI = 256,
    RecordType::CAA = 257,
});
table!(qt_of, qt_n, QType, u16, {
    QType::A = 1, QType::NS = 2, QType::CNAME = 5, QType::SOA = 6,
    QType::NULL = 10, QType::WKS = 11, QType::PTR = 12, QType::HINFO = 13,
    QType::MINFO = 14, QType::MX = 15, QType::TXT = 16, QType::AAAA = 28,
    QType::LOC = 29, QType::SRV = 33, QType::NAPTR = 35, QType::OPT = 41,
    QType::APL = 42, #[cfg(feature = "dnssec")] QType::DS = 43, QType::SSHFP = 44,
    QType::IPSECKEY = 45, #[cfg(feature = "dnssec")] QType::RRSIG = 46,
    #[cfg(feature = "dnssec")] QType::NSEC = 47, #[cfg(feature = "dnssec")] QType::DNSKEY = 48,
    QType::DHCID = 49, QType::TLSA = 52, QType::HIP = 55,
    #[cfg(feature = "dnssec")] QType::CDS = 59, #[cfg(feature = "dnssec")] QType::CDNSKEY = 60,
    QType::OPENPGPKEY = 61, QType::CSYNC = 62, QType::SVCB = 64, QType::EUI48 = 108,
    QType::EUI64 = 109, QType::TKEY = 249, QType::TSIG = 250, QType::URI = 256, QType::CAA = 257,
    QType::AXFR = 252, QType::MAILB = 253, QType::MAILA = 254, QType::ANY = 255,
});
table!(qc_of, qc_n, QClass, u16, {
    QClass::IN = 1, QClass::CS = 2, QClass::CH = 3, QClass::HS = 4, QClass::NONE = 254, QClass::ANY = 255,
});
table!(op_of, op_n, OpCode, u8, {
    OpCode::StandardQuery = 0, OpCode::InverseQuery = 1, OpCode::ServerStatusRequest = 2, OpCode::Reserved = 3,
});
table!(rc_of, rc_n, ResponseCode, u8, {
    ResponseCode::NoError = 0, ResponseCode::FormatError = 1, ResponseCode::ServerFailure = 2,
    ResponseCode::NameError = 3, ResponseCode::NotImplemented = 4, ResponseCode::Refused = 5,
    ResponseCode::YXDomain = 6, ResponseCode::YXRRSet = 7, ResponseCode::NXRRSet = 8,
    ResponseCode::NotAuth = 9, ResponseCode::NotZone = 10,
});
table!(al_of, al_n, Algorithm, u8, {
    Algorithm::Reserved = 0, Algorithm::RSA = 1, Algorithm::DSA = 2, Algorithm::ECDSA = 3,
    Algorithm::Ed25519 = 4, Algorithm::Ed448 = 5,
});
table!(fp_of, fp_n, sshfp::FingerprintType, u8, {
    sshfp::FingerprintType::Reserved = 0, sshfp::FingerprintType::SHA1 = 1,
});
table!(id_of, id_n, dhcid::IdentifierType, u16, {
    dhcid::IdentifierType::ChaddrOfDhcpRequest = 0, dhcid::IdentifierType::ClientIdentifierOption = 1,
    dhcid::IdentifierType::DUID = 2,
});
table!(nf_of, nf_n, naptr::Flag, u8, {
    naptr::Flag::S = 83, naptr::Flag::A = 65, naptr::Flag::U = 85, naptr::Flag::P = 80,
});
table!(cu_of, cu_n, tlsa::CertUsage, u8, {
    tlsa::CertUsage::Ca = 0, tlsa::CertUsage::ServiceCertificateConstraint = 1,
    tlsa::CertUsage::TrustAnchor = 2, tlsa::CertUsage::DomainIssuedCertificate = 3,
});
table!(ts_of, ts_n, tlsa::Selector, u8, { tlsa::Selector::Full = 0, tlsa::Selector::SubjectPublicKeyInfo = 1 });
table!(tm_of, tm_n, tlsa::MatchingType, u8, {
    tlsa::MatchingType::ExactMatch = 0, tlsa::MatchingType::SHA256 = 1, tlsa::MatchingType::SHA512 = 2,
});
table!(te_of, te_n, tsig::Error, u16, {
    tsig::Error::None = 0, tsig::Error::BadSig = 16, tsig::Error::BadKey = 17, tsig::Error::BadTime = 18,
    tsig::Error::BadTrunc = 22,
});
#[cfg(feature = "dnssec")]
table!(da_of, da_n, DnssecAlgorithm, u8, {
    DnssecAlgorithm::RSA_MD5 = 1, DnssecAlgorithm::DSA_SHA1 = 3, DnssecAlgorithm::RSA_SHA1 = 5,
    DnssecAlgorithm::RSA_SHA256 = 8, DnssecAlgorithm::RSA_SHA512 = 10, DnssecAlgorithm::ECDSA_P256 = 13,
    DnssecAlgorithm::ECDSA_P384 = 14, DnssecAlgorithm::ED25519 = 15, DnssecAlgorithm::ED448 = 16,
    DnssecAlgorithm::Indirect = 252, DnssecAlgorithm::PrivateDns = 253, DnssecAlgorithm::PrivateOid = 254,
});
#[cfg(feature = "dnssec")]
table!(dt_of, dt_n, DigestType, u8, {
    DigestType::SHA1 = 1, DigestType::SHA256 = 2, DigestType::SHA384 = 4, DigestType::SHA512 = 5,
});

pub fn km_of(x: u64) -> tkey::Mode {
    use tkey::Mode::*;
    match x {
        1 => ServerAssignment,
        2 => DiffieHellmanExchange,
        3 => GssApiNegotiation,
        4 => ResolverAssignment,
        5 => KeyDeletion,
        n => Available(n as u16),
    }
}
pub fn km_n(x: tkey::Mode) -> u16 {
    use tkey::Mode::*;
    match x {
        ServerAssignment => 1,
        DiffieHellmanExchange => 2,
        GssApiNegotiation => 3,
        ResolverAssignment => 4,
        KeyDeletion => 5,
        Available(n) => n,
    }
}
pub fn ke_of(x: u64) -> tkey::Error {
    use tkey::Error::*;
    match x {
        0 => None,
        16 => BadSig,
        17 => BadKey,
        18 => BadTime,
        19 => BadMode,
        20 => BadName,
        21 => BadAlg,
        n => NonExtendedRcode(n as u16),
    }
}
pub fn ke_n(x: tkey::Error) -> u16 {
    use tkey::Error::*;
    match x {
        None => 0,
        NonExtendedRcode(n) => n,
        BadSig => 16,
        BadKey => 17,
        BadTime => 18,
        BadMode => 19,
        BadName => 20,
        BadAlg => 21,
    }
}
pub fn pk_of(x: u64) -> ParamKey {
    use ParamKey::*;
    match x {
        0 => Mandatory,
        1 => Alpn,
        2 => NoDefaultAlpn,
        3 => Port,
        4 => IpV4Hint,
        5 => Ech,
        6 => IpV6Hint,
        65535 => Invalid,
        n => Private(n as u16),
    }
}
pub fn pk_n(x: ParamKey) -> u16 {
    use ParamKey::*;
    match x {
        Mandatory => 0,
        Alpn => 1,
        NoDefaultAlpn => 2,
        Port => 3,
        IpV4Hint => 4,
        Ech => 5,
        IpV6Hint => 6,
        Private(n) => n,
        Invalid => 65535,
    }
}
