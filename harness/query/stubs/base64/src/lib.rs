//! what the query tool uses of base64 0.21's engines
pub mod alphabet_ {}
pub trait Engine {
    fn url(&self) -> bool;
    fn pad(&self) -> bool;
    fn table(&self) -> Vec<u8> {
        let mut a: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').collect();
        a.extend(if self.url() { b"-_" } else { b"+/" });
        a
    }
    fn encode<T: AsRef<[u8]>>(&self, input: T) -> String {
        let a = self.table();
        let mut out = String::new();
        for ch in input.as_ref().chunks(3) {
            let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
            for i in 0..4 {
                if i <= ch.len() { out.push(a[(n >> (18 - 6 * i)) as usize & 63] as char) } else if self.pad() { out.push('=') }
            }
        }
        out
    }
    fn decode<T: AsRef<[u8]>>(&self, input: T) -> Result<Vec<u8>, DecodeError> {
        let a = self.table();
        let s = input.as_ref();
        let end = s.iter().position(|b| *b == b'=').unwrap_or(s.len());
        if (self.pad() && s.len() % 4 != 0) || s.len() - end > 2 || s[end..].iter().any(|b| *b != b'=') { return Err(DecodeError::InvalidByte(end, b'=')); }
        if !self.pad() && end != s.len() { return Err(DecodeError::InvalidByte(end, b'=')); }
        let s = &s[..end];
        if s.len() % 4 == 1 { return Err(DecodeError::InvalidLength); }
        let (mut out, mut acc, mut bits) = (vec![], 0u32, 0);
        for (i, b) in s.iter().enumerate() {
            let v = a.iter().position(|x| x == b).ok_or(DecodeError::InvalidByte(i, *b))?;
            acc = acc << 6 | v as u32;
            bits += 6;
            if bits >= 8 { bits -= 8; out.push((acc >> bits) as u8); acc &= (1 << bits) - 1; }
        }
        if acc != 0 { return Err(DecodeError::InvalidLastSymbol(s.len() - 1, s[s.len() - 1])); }
        Ok(out)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError { InvalidByte(usize, u8), InvalidLength, InvalidLastSymbol(usize, u8) }
impl std::fmt::Display for DecodeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for DecodeError {}
pub mod engine {
    pub use super::Engine;
    pub mod general_purpose {
        #[derive(Clone, Copy, Debug)]
        pub struct GeneralPurpose { url: bool, pad: bool }
        impl super::super::Engine for GeneralPurpose { fn url(&self) -> bool { self.url } fn pad(&self) -> bool { self.pad } }
        pub const URL_SAFE: GeneralPurpose = GeneralPurpose { url: true, pad: true };
        pub const URL_SAFE_NO_PAD: GeneralPurpose = GeneralPurpose { url: true, pad: false };
        pub const STANDARD: GeneralPurpose = GeneralPurpose { url: false, pad: true };
        pub const STANDARD_NO_PAD: GeneralPurpose = GeneralPurpose { url: false, pad: false };
    }
}
pub mod prelude {
    pub use super::engine::general_purpose::{STANDARD as BASE64_STANDARD, STANDARD_NO_PAD as BASE64_STANDARD_NO_PAD, URL_SAFE as BASE64_URL_SAFE, URL_SAFE_NO_PAD as BASE64_URL_SAFE_NO_PAD};
    pub use super::Engine as _;
}
