//! base64 0.13's decode_config / encode_config for the alphabets the generator may use
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Config { url: bool, pad: bool }
pub const URL_SAFE: Config = Config { url: true, pad: true };
pub const URL_SAFE_NO_PAD: Config = Config { url: true, pad: false };
pub const STANDARD: Config = Config { url: false, pad: true };
pub const STANDARD_NO_PAD: Config = Config { url: false, pad: false };
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError { InvalidByte(usize, u8), InvalidLength, InvalidLastSymbol(usize, u8) }
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) }
}
impl std::error::Error for DecodeError {}
fn alphabet(c: Config) -> Vec<u8> {
    let mut a: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').collect();
    a.extend(if c.url { b"-_" } else { b"+/" });
    a
}
pub fn encode_config<T: AsRef<[u8]>>(input: T, c: Config) -> String {
    let a = alphabet(c);
    let mut out = String::new();
    for ch in input.as_ref().chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= ch.len() { out.push(a[(n >> (18 - 6 * i)) as usize & 63] as char) } else if c.pad { out.push('=') }
        }
    }
    out
}
pub fn encode<T: AsRef<[u8]>>(input: T) -> String { encode_config(input, STANDARD) }
pub fn decode_config<T: AsRef<[u8]>>(input: T, c: Config) -> Result<Vec<u8>, DecodeError> {
    let a = alphabet(c);
    let s = input.as_ref();
    // 0.13 accepts padded and unpadded input alike
    let end = s.iter().position(|b| *b == b'=').unwrap_or(s.len());
    if s.len() - end > 2 || s[end..].iter().any(|b| *b != b'=') { return Err(DecodeError::InvalidByte(end, b'=')); }
    let s = &s[..end];
    if s.len() % 4 == 1 { return Err(DecodeError::InvalidLength); }
    let (mut out, mut acc, mut bits) = (vec![], 0u32, 0);
    for (i, b) in s.iter().enumerate() {
        let v = a.iter().position(|x| x == b).ok_or(DecodeError::InvalidByte(i, *b))?;
        acc = acc << 6 | v as u32;
        bits += 6;
        if bits >= 8 { bits -= 8; out.push((acc >> bits) as u8); acc &= (1 << bits) - 1; }
    }
    if acc != 0 { return Err(DecodeError::InvalidLastSymbol(s.len() - 1, s[s.len() - 1])); }
    Ok(out)
}
pub fn decode<T: AsRef<[u8]>>(input: T) -> Result<Vec<u8>, DecodeError> { decode_config(input, STANDARD) }
