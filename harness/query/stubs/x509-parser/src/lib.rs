//! DER certificates, as far as the query tool reads them. A signature is the SHA-256 of the signer's public key and the
//! signed part, so that a certificate verifies under exactly one key.
pub use der_parser;
pub mod x509 {
    use sha2::{Digest, Sha256};
    pub use der_parser::oid::Oid;
    #[derive(Clone, Debug, PartialEq)]
    pub struct X509Error(pub &'static str);
    impl std::fmt::Display for X509Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
    impl std::error::Error for X509Error {}
    type R<T> = Result<T, X509Error>;
    /// tag, whole element, contents, rest
    pub fn tlv(b: &[u8]) -> R<(u8, &[u8], &[u8], &[u8])> {
        let e = X509Error("truncated");
        if b.len() < 2 { return Err(e); }
        let (mut n, mut h) = (b[1] as usize, 2);
        if n & 0x80 != 0 {
            let k = n & 0x7f;
            if k == 0 || k > 3 || b.len() < 2 + k { return Err(e); }
            n = b[2..2 + k].iter().fold(0, |a, x| a << 8 | *x as usize);
            h += k;
        }
        if b.len() < h + n { return Err(e); }
        Ok((b[0], &b[..h + n], &b[h..h + n], &b[h + n..]))
    }
    fn want(b: &[u8], tag: u8) -> R<(&[u8], &[u8], &[u8])> {
        let (t, whole, inner, rest) = tlv(b)?;
        if t != tag { return Err(X509Error("unexpected element")); }
        Ok((whole, inner, rest))
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct X509Name<'a> { raw: &'a [u8] }
    impl<'a> X509Name<'a> { pub fn as_raw(&self) -> &'a [u8] { self.raw } }
    impl<'a> std::fmt::Display for X509Name<'a> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { for b in self.raw { write!(f, "{:02x}", b)?; } Ok(()) } }
    #[derive(Clone, Debug, PartialEq)]
    pub struct SubjectPublicKeyInfo<'a> { pub raw: &'a [u8] }
    #[derive(Clone, Debug, PartialEq)]
    pub struct ASN1Time(pub i64);
    impl ASN1Time { pub fn timestamp(&self) -> i64 { self.0 } pub fn now() -> Self { ASN1Time(std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64) } }
    impl PartialOrd for ASN1Time { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Validity { pub not_before: ASN1Time, pub not_after: ASN1Time }
    impl Validity {
        pub fn is_valid(&self) -> bool { self.is_valid_at(ASN1Time::now()) }
        pub fn is_valid_at(&self, t: ASN1Time) -> bool { t >= self.not_before && t <= self.not_after }
    }
    fn time(b: &[u8]) -> R<(ASN1Time, &[u8])> {
        let (t, _, v, rest) = tlv(b)?;
        let d: Vec<i64> = v.iter().filter(|c| c.is_ascii_digit()).map(|c| (*c - b'0') as i64).collect();
        let two = |i: usize| d.get(2 * i).and_then(|a| d.get(2 * i + 1).map(|b| a * 10 + b)).ok_or(X509Error("bad time"));
        let (y, k) = match t { 0x17 => { let y = two(0)?; (if y < 50 { 2000 + y } else { 1900 + y }, 1) } 0x18 => (two(0)? * 100 + two(1)?, 2), _ => return Err(X509Error("not a time")) };
        let (m, dd) = (two(k)?, two(k + 1)?);
        let (h, mi, s) = (two(k + 2)?, two(k + 3)?, two(k + 4)?);
        // days since 1970 of the proleptic calendar
        let (yy, mm) = if m <= 2 { (y - 1, m + 9) } else { (y, m - 3) };
        let days = 365 * yy + yy.div_euclid(4) - yy.div_euclid(100) + yy.div_euclid(400) + (153 * mm + 2) / 5 + dd - 1 - 719468;
        Ok((ASN1Time(days * 86400 + h * 3600 + mi * 60 + s), rest))
    }
    pub struct CtLogID<'a> { pub key_id: &'a [u8; 32] }
    pub struct SignedCertificateTimestamp<'a> { pub id: CtLogID<'a>, pub timestamp: u64 }
    pub enum ParsedExtension<'a> { SCT(Vec<SignedCertificateTimestamp<'a>>), ParseError, Unparsed }
    pub struct X509Extension<'a> { pub oid: Oid<'static>, pub critical: bool, pub value: &'a [u8], parsed: ParsedExtension<'a> }
    impl<'a> X509Extension<'a> { pub fn parsed_extension(&self) -> &ParsedExtension<'a> { &self.parsed } }
    fn scts(v: &[u8]) -> Option<Vec<SignedCertificateTimestamp<'_>>> {
        let (_, list, _) = want(v, 4).ok()?;
        let n = u16::from_be_bytes(list.get(..2)?.try_into().ok()?) as usize;
        let mut b = list.get(2..2 + n)?;
        let mut out = vec![];
        while !b.is_empty() {
            let n = u16::from_be_bytes(b.get(..2)?.try_into().ok()?) as usize;
            let s = b.get(2..2 + n)?;
            out.push(SignedCertificateTimestamp { id: CtLogID { key_id: s.get(1..33)?.try_into().ok()? }, timestamp: u64::from_be_bytes(s.get(33..41)?.try_into().ok()?) });
            b = &b[2 + n..];
        }
        Some(out)
    }
    pub struct TbsCertificate<'a> {
        pub serial: &'a [u8], pub issuer: X509Name<'a>, pub validity: Validity, pub subject: X509Name<'a>, pub subject_pki: SubjectPublicKeyInfo<'a>,
        extensions: Vec<X509Extension<'a>>, raw: &'a [u8],
    }
    impl<'a> TbsCertificate<'a> {
        pub fn raw_serial(&self) -> &'a [u8] { self.serial }
        pub fn raw_serial_as_string(&self) -> String { self.serial.iter().map(|b| format!("{:02x}", b)).collect::<Vec<_>>().join(":") }
        pub fn issuer(&self) -> &X509Name<'a> { &self.issuer }
        pub fn subject(&self) -> &X509Name<'a> { &self.subject }
        pub fn validity(&self) -> &Validity { &self.validity }
        pub fn extensions(&self) -> &[X509Extension<'a>] { &self.extensions }
        pub fn get_extension_unique(&self, o: &Oid) -> R<Option<&X509Extension<'a>>> {
            let mut it = self.extensions.iter().filter(|e| e.oid == *o);
            let f = it.next();
            if it.next().is_some() { return Err(X509Error("duplicate extensions")); }
            Ok(f)
        }
        pub fn find_extension(&self, o: &Oid) -> Option<&X509Extension<'a>> { self.extensions.iter().find(|e| e.oid == *o) }
    }
    pub struct X509Certificate<'a> { pub tbs_certificate: TbsCertificate<'a>, signature: &'a [u8] }
    impl<'a> X509Certificate<'a> {
        pub fn issuer(&self) -> &X509Name<'a> { &self.tbs_certificate.issuer }
        pub fn subject(&self) -> &X509Name<'a> { &self.tbs_certificate.subject }
        pub fn validity(&self) -> &Validity { &self.tbs_certificate.validity }
        pub fn public_key(&self) -> &SubjectPublicKeyInfo<'a> { &self.tbs_certificate.subject_pki }
        pub fn raw_serial(&self) -> &'a [u8] { self.tbs_certificate.serial }
        pub fn verify_signature(&self, key: Option<&SubjectPublicKeyInfo>) -> R<()> {
            let k = key.unwrap_or(&self.tbs_certificate.subject_pki);
            let mut h = Sha256::new();
            h.update(k.raw);
            h.update(self.tbs_certificate.raw);
            if h.finalize().as_slice() == self.signature { Ok(()) } else { Err(X509Error("signature verification error")) }
        }
    }
    pub trait FromDer<'a>: Sized { fn from_der(b: &'a [u8]) -> R<(&'a [u8], Self)>; }
    impl<'a> FromDer<'a> for X509Certificate<'a> {
        fn from_der(b: &'a [u8]) -> R<(&'a [u8], Self)> {
            let (_, c, rest) = want(b, 0x30)?;
            let (raw, t, after) = want(c, 0x30)?;
            let (_, _, after) = want(after, 0x30)?;
            let (_, sig, _) = want(after, 3)?;
            let mut t = t;
            if t.first() == Some(&0xa0) { t = tlv(t)?.3; }
            let (_, serial, t) = want(t, 2)?;
            let (_, _, t) = want(t, 0x30)?;
            let (issuer, _, t) = want(t, 0x30)?;
            let (_, v, t) = want(t, 0x30)?;
            let (not_before, v) = time(v)?;
            let (not_after, _) = time(v)?;
            let (subject, _, t) = want(t, 0x30)?;
            let (spki, _, mut t) = want(t, 0x30)?;
            let mut extensions = vec![];
            while !t.is_empty() {
                let (tag, _, inner, rest) = tlv(t)?;
                t = rest;
                if tag == 0xa3 {
                    let (_, mut list, _) = want(inner, 0x30)?;
                    while !list.is_empty() {
                        let (_, e, rest) = want(list, 0x30)?;
                        list = rest;
                        let (_, o, mut e) = want(e, 6)?;
                        let mut critical = false;
                        if e.first() == Some(&1) { critical = tlv(e)?.2 == [0xff]; e = tlv(e)?.3; }
                        let (_, value, _) = want(e, 4)?;
                        let o = Oid::decode(o);
                        let parsed = if o.to_id_string() == "1.3.6.1.4.1.11129.2.4.2" { scts(value).map(ParsedExtension::SCT).unwrap_or(ParsedExtension::ParseError) } else { ParsedExtension::Unparsed };
                        extensions.push(X509Extension { oid: o, critical, value, parsed });
                    }
                }
            }
            if sig.is_empty() { return Err(X509Error("no signature")); }
            Ok((rest, X509Certificate {
                tbs_certificate: TbsCertificate { serial, issuer: X509Name { raw: issuer }, validity: Validity { not_before, not_after }, subject: X509Name { raw: subject },
                    subject_pki: SubjectPublicKeyInfo { raw: spki }, extensions, raw },
                signature: &sig[1..],
            }))
        }
    }
}
pub mod certificate { pub use super::x509::*; }
pub mod prelude {
    pub use super::x509::*;
    pub use super::x509;
    pub use super::certificate;
    pub use super::der_parser;
}
