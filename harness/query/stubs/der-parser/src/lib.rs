//! object identifiers
use std::borrow::Cow;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Oid<'a>(pub Cow<'a, [u64]>);
impl<'a> Oid<'a> {
    pub const fn arcs(a: &'a [u64]) -> Oid<'a> { Oid(Cow::Borrowed(a)) }
    /// from the contents of a DER OBJECT IDENTIFIER
    pub fn decode(b: &[u8]) -> Oid<'static> {
        let (mut v, mut n) = (vec![], 0u64);
        for x in b {
            n = n << 7 | (*x as u64 & 0x7f);
            if x & 0x80 == 0 {
                if v.is_empty() { let f = (n / 40).min(2); v.push(f); v.push(n - 40 * f); } else { v.push(n) }
                n = 0;
            }
        }
        Oid(Cow::Owned(v))
    }
    pub fn to_id_string(&self) -> String { self.0.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".") }
}
pub mod oid { pub use super::Oid; }
#[doc(hidden)]
pub const fn parse_oid<const N: usize>(s: &str) -> [u64; N] {
    let b = s.as_bytes();
    let (mut out, mut i, mut k) = ([0u64; N], 0, 0);
    while i < b.len() {
        match b[i] {
            b'.' => k += 1,
            c if c.is_ascii_digit() => out[k] = out[k] * 10 + (c - b'0') as u64,
            _ => {}
        }
        i += 1;
    }
    out
}
#[doc(hidden)]
pub const fn count_oid(s: &str) -> usize {
    let b = s.as_bytes();
    let (mut n, mut i) = (1, 0);
    while i < b.len() { if b[i] == b'.' { n += 1 } i += 1; }
    n
}
#[macro_export]
macro_rules! oid {
    ($($t:tt)*) => {{
        const S: &str = stringify!($($t)*);
        const A: &[u64] = &$crate::parse_oid::<{ $crate::count_oid(S) }>(S);
        $crate::Oid::arcs(A)
    }};
}
