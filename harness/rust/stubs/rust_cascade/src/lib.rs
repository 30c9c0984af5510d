//! The contract of a filter cascade: an included key is answered true, an excluded key false, and any other key may be
//! answered either way (here: true, the false positive). The bytes list both sets.
use std::collections::BTreeSet;
use std::fmt;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HashAlgorithm { MurmurHash3, Sha256l32, Sha256 }
#[derive(Debug)]
pub enum CascadeError { CapacityViolation(&'static str), Parse(&'static str) }
impl fmt::Display for CascadeError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for CascadeError {}
#[derive(Default)]
pub struct ExcludeSet { set: Vec<Vec<u8>> }
pub struct CascadeBuilder { cap: usize, inc: BTreeSet<Vec<u8>>, exc: BTreeSet<Vec<u8>> }
pub struct Cascade { inc: BTreeSet<Vec<u8>>, exc: BTreeSet<Vec<u8>> }
impl CascadeBuilder {
    pub fn new(_h: HashAlgorithm, _salt: Vec<u8>, cap: usize, _exclude_cap: usize) -> Self { CascadeBuilder { cap, inc: Default::default(), exc: Default::default() } }
    pub fn include(&mut self, k: Vec<u8>) -> Result<(), CascadeError> {
        if self.cap == 0 { return Err(CascadeError::CapacityViolation("include")); }
        self.cap -= 1;
        self.inc.insert(k);
        Ok(())
    }
    pub fn exclude(&mut self, k: Vec<u8>) -> Result<(), CascadeError> { self.exc.insert(k); Ok(()) }
    pub fn exclude_threaded(&self, s: &mut ExcludeSet, k: Vec<u8>) { s.set.push(k) }
    pub fn collect_exclude_set(&mut self, s: &mut ExcludeSet) -> Result<(), CascadeError> { self.exc.extend(s.set.drain(..)); Ok(()) }
    pub fn finalize(self) -> Result<Box<Cascade>, CascadeError> {
        // an item on both sides can never be told apart
        if self.inc.intersection(&self.exc).next().is_some() { return Err(CascadeError::CapacityViolation("item both included and excluded")); }
        Ok(Box::new(Cascade { inc: self.inc, exc: self.exc }))
    }
}
fn put(out: &mut String, tag: &str, set: &BTreeSet<Vec<u8>>) {
    for k in set { out.push_str(tag); for b in k { out.push_str(&format!("{:02x}", b)) } out.push('\n') }
}
impl Cascade {
    pub fn to_bytes(&self) -> Result<Vec<u8>, CascadeError> {
        if self.inc.is_empty() { return Ok(vec![]); }
        let mut s = String::from("CASCADE\n");
        put(&mut s, "i ", &self.inc);
        put(&mut s, "x ", &self.exc);
        s.push_str("END\n");
        Ok(s.into_bytes())
    }
    pub fn from_bytes(b: Vec<u8>) -> Result<Option<Cascade>, CascadeError> {
        if b.is_empty() { return Ok(None); }
        let s = String::from_utf8(b).map_err(|_| CascadeError::Parse("utf8"))?;
        if !s.starts_with("CASCADE\n") || !s.ends_with("END\n") { return Err(CascadeError::Parse("not a cascade")); }
        let mut c = Cascade { inc: Default::default(), exc: Default::default() };
        for l in s.lines() {
            let mut w = l.split(' ');
            let (t, k) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
            let k: Vec<u8> = (0..k.len() / 2).map(|i| u8::from_str_radix(&k[2 * i..2 * i + 2], 16).unwrap()).collect();
            match t { "i" => { c.inc.insert(k); } "x" => { c.exc.insert(k); } _ => {} }
        }
        Ok(Some(c))
    }
    pub fn has(&self, k: Vec<u8>) -> bool { self.inc.contains(&k) || !self.exc.contains(&k) }
    pub fn invert(&mut self) {}
    pub fn is_empty(&self) -> bool { self.inc.is_empty() }
}
impl fmt::Display for Cascade { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "cascade of {} and {}", self.inc.len(), self.exc.len()) } }
