use clubcard::{AsQuery, Clubcard, Meta, Store};
use std::fmt;
use std::io::Read;
/// the coverage, kept as the bytes it was made from
#[derive(Clone, Debug, PartialEq)]
pub struct CRLiteCoverage(pub Vec<u8>);
impl CRLiteCoverage {
    pub fn from_mozilla_ct_logs_json<R: Read>(mut r: R) -> Self {
        let mut b = vec![];
        r.read_to_end(&mut b).expect("cannot read coverage");
        CRLiteCoverage(b)
    }
}
#[derive(Clone, Debug)]
pub struct CRLiteKey { issuer: [u8; 32], serial: Vec<u8> }
impl CRLiteKey { pub fn new(issuer: &[u8; 32], serial: &[u8]) -> Self { CRLiteKey { issuer: *issuer, serial: serial.to_vec() } } }
pub struct CRLiteQuery<'a> { key: &'a CRLiteKey }
impl<'a> CRLiteQuery<'a> { pub fn new(key: &'a CRLiteKey, _t: Option<u64>) -> Self { CRLiteQuery { key } } }
impl<'a> AsQuery for CRLiteQuery<'a> {
    fn block(&self) -> Vec<u8> { self.key.issuer.to_vec() }
    fn discriminant(&self) -> Vec<u8> { self.key.serial.clone() }
}
impl<'a> Meta for CRLiteQuery<'a> { type U = CRLiteCoverage; type P = (); }
pub mod builder {
    use clubcard::AsItem;
    #[derive(Clone, Debug)]
    pub struct CRLiteBuilderItem { pub issuer: [u8; 32], pub serial: Vec<u8>, pub revoked: bool }
    impl CRLiteBuilderItem {
        pub fn revoked(issuer: [u8; 32], serial: Vec<u8>) -> Self { CRLiteBuilderItem { issuer, serial, revoked: true } }
        pub fn not_revoked(issuer: [u8; 32], serial: Vec<u8>) -> Self { CRLiteBuilderItem { issuer, serial, revoked: false } }
    }
    impl AsItem for CRLiteBuilderItem {
        fn block(&self) -> Vec<u8> { self.issuer.to_vec() }
        fn discriminant(&self) -> Vec<u8> { self.serial.clone() }
        fn included(&self) -> bool { self.revoked }
    }
}
pub struct CRLiteClubcard(Clubcard<4, CRLiteCoverage, ()>);
impl From<Clubcard<4, CRLiteCoverage, ()>> for CRLiteClubcard { fn from(c: Clubcard<4, CRLiteCoverage, ()>) -> Self { CRLiteClubcard(c) } }
impl AsRef<Clubcard<4, CRLiteCoverage, ()>> for CRLiteClubcard { fn as_ref(&self) -> &Clubcard<4, CRLiteCoverage, ()> { &self.0 } }
impl fmt::Display for CRLiteClubcard { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "clubcard of {} blocks", self.0.store.approx.len()) } }
#[derive(Debug)]
pub struct ClubcardError(pub &'static str);
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(k: &str) -> Vec<u8> { (0..k.len() / 2).map(|i| u8::from_str_radix(&k[2 * i..2 * i + 2], 16).unwrap()).collect() }
impl CRLiteClubcard {
    pub fn to_bytes(&self) -> Result<Vec<u8>, ClubcardError> {
        let mut s = String::from("CLUBCARD\n");
        s.push_str(&format!("c {}\n", hex(&self.0.universe.0)));
        for (b, (n, items)) in &self.0.store.approx {
            s.push_str(&format!("b {} {}\n", hex(b), n));
            for d in items { s.push_str(&format!("i {} {}\n", hex(b), hex(d))) }
        }
        for (b, items) in &self.0.store.exact { for (d, f) in items { s.push_str(&format!("{} {} {}\n", if *f { "r" } else { "x" }, hex(b), hex(d))) } }
        s.push_str("END\n");
        Ok(s.into_bytes())
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, ClubcardError> {
        let s = String::from_utf8(b.to_vec()).map_err(|_| ClubcardError("utf8"))?;
        if !s.starts_with("CLUBCARD\n") || !s.ends_with("END\n") { return Err(ClubcardError("not a clubcard")); }
        let (mut store, mut cov) = (Store::default(), vec![]);
        for l in s.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "c" => cov = unhex(w[1]),
                "b" => store.approx.entry(unhex(w[1])).or_default().0 = w[2].parse().unwrap(),
                "i" => { store.approx.entry(unhex(w[1])).or_default().1.insert(unhex(w[2])); }
                "r" | "x" => { store.exact.entry(unhex(w[1])).or_default().insert(unhex(w[2]), w[0] == "r"); }
                _ => {}
            }
        }
        Ok(CRLiteClubcard(Clubcard { store, universe: CRLiteCoverage(cov), partition: () }))
    }
}
