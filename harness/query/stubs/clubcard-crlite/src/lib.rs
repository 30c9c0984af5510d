//! The contract of a published CRLite clubcard: which logs and periods it covers, which issuers it has a block for,
//! which of their serials are revoked. Two texts are read: what the harness of the query tool writes (cov, b, i), and what
//! the generator's stand-in writes (c, b, i, r, x), where an item nobody decided may be answered either way: here Revoked.
use std::collections::{BTreeMap, BTreeSet};
#[derive(Clone, Debug)]
pub struct CRLiteKey { issuer: [u8; 32], serial: Vec<u8> }
impl CRLiteKey { pub fn new(issuer: &[u8; 32], serial: &[u8]) -> Self { CRLiteKey { issuer: *issuer, serial: serial.to_vec() } } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CRLiteStatus { Good, NotCovered, NotEnrolled, Revoked }
#[derive(Clone, Debug)]
pub struct CRLiteClubcard { coverage: Vec<(Vec<u8>, u64, u64)>, blocks: BTreeMap<Vec<u8>, BTreeSet<Vec<u8>>>, exact: BTreeMap<(Vec<u8>, Vec<u8>), bool>, generated: bool }
#[derive(Debug)]
pub struct ClubcardError(pub &'static str);
impl std::fmt::Display for ClubcardError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
fn unhex(k: &str) -> Vec<u8> { (0..k.len() / 2).map(|i| u8::from_str_radix(&k[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn number(s: &str, key: &str) -> Option<u64> {
    let k = format!("\"{}\":", key);
    let r = &s[s.find(&k)? + k.len()..];
    r.trim_start().split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
}
fn base64(s: &str) -> Option<Vec<u8>> {
    let (mut out, mut acc, mut n) = (vec![], 0u32, 0);
    for c in s.bytes().filter(|c| *c != b'=') {
        let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'+' => 62, b'/' => 63, _ => return None };
        acc = acc << 6 | v as u32;
        n += 6;
        if n >= 8 { n -= 8; out.push((acc >> n) as u8); acc &= (1 << n) - 1; }
    }
    Some(out)
}
/// the coverage as ct-logs.json has it: a list of flat objects
fn logs(json: &[u8]) -> Option<Vec<(Vec<u8>, u64, u64)>> {
    let s = std::str::from_utf8(json).ok()?.trim();
    if !s.starts_with('[') || !s.ends_with(']') { return None; }
    s.split('{').skip(1).map(|o| {
        let k = "\"LogID\":";
        let id = o[o.find(k)? + k.len()..].split('"').nth(1)?;
        Some((base64(id)?, number(o, "MinTimestamp")?, number(o, "MaxTimestamp")?))
    }).collect()
}
impl CRLiteClubcard {
    pub fn from_bytes(b: &[u8]) -> Result<Self, ClubcardError> {
        let s = String::from_utf8(b.to_vec()).map_err(|_| ClubcardError("not a clubcard"))?;
        if !s.starts_with("CLUBCARD\n") || !s.ends_with("END\n") { return Err(ClubcardError("not a clubcard")); }
        let mut c = CRLiteClubcard { coverage: vec![], blocks: BTreeMap::new(), exact: BTreeMap::new(), generated: false };
        for l in s.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "cov" => c.coverage.push((unhex(w[1]), w[2].parse().unwrap(), w[3].parse().unwrap())),
                "c" => {
                    c.generated = true;
                    for e in logs(&unhex(w[1])).ok_or(ClubcardError("coverage"))? { c.coverage.push(e) }
                }
                "r" | "x" => { c.exact.insert((unhex(w[1]), unhex(w[2])), w[0] == "r"); }
                "b" => { c.blocks.entry(unhex(w[1])).or_default(); }
                "i" => { c.blocks.entry(unhex(w[1])).or_default().insert(unhex(w[2])); }
                _ => {}
            }
        }
        Ok(c)
    }
    pub fn contains<'a>(&self, key: &'a CRLiteKey, timestamps: impl Iterator<Item = (&'a [u8; 32], u64)>) -> CRLiteStatus {
        let mut ts = timestamps;
        if !ts.any(|(id, t)| self.coverage.iter().any(|c| c.0 == id && c.1 <= t && t <= c.2)) { return CRLiteStatus::NotCovered; }
        match self.blocks.get(&key.issuer[..]) {
            None => CRLiteStatus::NotEnrolled,
            Some(b) if self.generated => match self.exact.get(&(key.issuer.to_vec(), key.serial.clone())) {
                Some(r) => if *r && b.contains(&key.serial) { CRLiteStatus::Revoked } else { CRLiteStatus::Good },
                None => if b.is_empty() { CRLiteStatus::Good } else { CRLiteStatus::Revoked },
            },
            Some(b) => if b.contains(&key.serial) { CRLiteStatus::Revoked } else { CRLiteStatus::Good },
        }
    }
}
impl std::fmt::Display for CRLiteClubcard { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "clubcard of {} blocks", self.blocks.len()) } }
