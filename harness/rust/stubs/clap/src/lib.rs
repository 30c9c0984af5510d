//! what the generator uses of clap 3's derive interface
pub use clap_stub_derive::{Parser, ValueEnum};
pub trait Parser: Sized { fn parse() -> Self; }
pub trait ValueEnum: Sized { fn named(s: &str) -> Option<Self>; }
#[derive(Default)]
pub struct Raw { pub vals: Vec<(String, std::ffi::OsString)>, pub flags: Vec<String> }
pub fn die(m: String) -> ! { eprintln!("error: {}", m); std::process::exit(2) }
impl Raw {
    /// opts: (name, takes a value); short: (letter, name)
    pub fn read(opts: &[(&str, bool)], short: &[(char, &str)]) -> Raw {
        let mut r = Raw::default();
        let mut it = std::env::args_os().skip(1);
        while let Some(a) = it.next() {
            let s = a.to_str().unwrap_or("").to_string();
            if let Some(l) = s.strip_prefix("--") {
                let (name, inline) = match l.split_once('=') { Some((n, v)) => (n.to_string(), Some(v.to_string())), None => (l.to_string(), None) };
                match opts.iter().find(|o| o.0 == name) {
                    None => die(format!("unknown argument {}", s)),
                    Some((_, true)) => {
                        let v = inline.map(Into::into).or_else(|| it.next()).unwrap_or_else(|| die(format!("{} needs a value", s)));
                        if r.vals.iter().any(|x| x.0 == name) { die(format!("{} given twice", s)) }
                        r.vals.push((name, v))
                    }
                    Some((_, false)) => r.flags.push(name),
                }
            } else if s.len() > 1 && s.starts_with('-') {
                for c in s[1..].chars() {
                    match short.iter().find(|x| x.0 == c) { Some(x) => r.flags.push(x.1.to_string()), None => die(format!("unknown argument {}", s)) }
                }
            } else { die(format!("unknown argument {}", s)) }
        }
        r
    }
    pub fn value(&self, n: &str, def: Option<&str>) -> Option<std::ffi::OsString> { self.vals.iter().find(|x| x.0 == n).map(|x| x.1.clone()).or_else(|| def.map(Into::into)) }
    pub fn count(&self, n: &str) -> usize { self.flags.iter().filter(|x| *x == n).count() }
}
pub trait FromArg: Sized { fn from_arg(v: Option<std::ffi::OsString>, n: &str) -> Self; }
impl FromArg for std::path::PathBuf { fn from_arg(v: Option<std::ffi::OsString>, n: &str) -> Self { v.unwrap_or_else(|| die(format!("--{} is required", n))).into() } }
impl FromArg for String { fn from_arg(v: Option<std::ffi::OsString>, n: &str) -> Self { v.unwrap_or_else(|| die(format!("--{} is required", n))).into_string().unwrap() } }
impl FromArg for usize { fn from_arg(v: Option<std::ffi::OsString>, n: &str) -> Self { String::from_arg(v, n).parse().unwrap_or_else(|_| die(format!("--{}: bad number", n))) } }
impl<T: FromArg> FromArg for Option<T> { fn from_arg(v: Option<std::ffi::OsString>, n: &str) -> Self { v.map(|x| T::from_arg(Some(x), n)) } }
pub fn enum_arg<T: ValueEnum>(v: Option<std::ffi::OsString>, n: &str) -> T {
    let s = String::from_arg(v, n);
    T::named(&s).unwrap_or_else(|| die(format!("--{}: bad value {}", n, s)))
}
