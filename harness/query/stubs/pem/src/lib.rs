//! pem 1: one block
#[derive(Clone, Debug)]
pub struct Pem { pub tag: String, pub contents: Vec<u8> }
#[derive(Clone, Debug)]
pub struct PemError(pub &'static str);
impl std::fmt::Display for PemError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for PemError {}
pub fn parse<B: AsRef<[u8]>>(input: B) -> Result<Pem, PemError> {
    let s = std::str::from_utf8(input.as_ref()).map_err(|_| PemError("not utf8"))?;
    let b = s.find("-----BEGIN ").ok_or(PemError("no block"))?;
    let r = &s[b + 11..];
    let t = r.find("-----").ok_or(PemError("no block"))?;
    let tag = &r[..t];
    let r = &r[t + 5..];
    let e = r.find(&format!("-----END {}-----", tag)).ok_or(PemError("no end"))?;
    let a: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').chain(*b"+/").collect();
    let (mut out, mut acc, mut bits, mut pad) = (vec![], 0u32, 0, false);
    for c in r[..e].bytes() {
        if c.is_ascii_whitespace() { continue; }
        if c == b'=' { pad = true; continue; }
        if pad { return Err(PemError("data after padding")); }
        let v = a.iter().position(|x| *x == c).ok_or(PemError("bad character"))?;
        acc = acc << 6 | v as u32;
        bits += 6;
        if bits >= 8 { bits -= 8; out.push((acc >> bits) as u8); acc &= (1 << bits) - 1; }
    }
    Ok(Pem { tag: tag.into(), contents: out })
}
