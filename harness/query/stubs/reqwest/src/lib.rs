//! The web as the explorer describes it: $VERIF_WEB/web.json maps a URL to {"body": file, "fault": "connect" | "read", "status": n};
//! what is not listed is answered with an error page. Requests are noted in $VERIF_WEB/requests.
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd)]
pub struct StatusCode(pub u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub fn is_success(&self) -> bool { self.0 / 100 == 2 }
    pub fn as_u16(&self) -> u16 { self.0 }
}
impl std::fmt::Display for StatusCode { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
/// the body of a response
#[derive(Clone, Debug)]
pub struct Bytes(Vec<u8>);
impl AsRef<[u8]> for Bytes { fn as_ref(&self) -> &[u8] { &self.0 } }
impl std::ops::Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl Bytes { pub fn to_vec(&self) -> Vec<u8> { self.0.clone() } }
pub trait IntoUrl { fn url(self) -> String; }
impl IntoUrl for &str { fn url(self) -> String { self.into() } }
impl IntoUrl for String { fn url(self) -> String { self } }
impl IntoUrl for &String { fn url(self) -> String { self.clone() } }
pub mod blocking {
    use super::*;
    use std::io::Write;
    #[derive(Debug)]
    pub struct Response { status: u16, body: Vec<u8>, broken: bool, url: String }
    pub fn get<T: IntoUrl>(u: T) -> Result<Response> {
        let u = u.url();
        let dir = std::env::var("VERIF_WEB").expect("VERIF_WEB");
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/requests", dir)).unwrap();
        writeln!(f, "{}", u).unwrap();
        let web: serde_json::Value = serde_json::from_slice(&std::fs::read(format!("{}/web.json", dir)).unwrap()).unwrap();
        let r = &web[u.as_str()];
        if r.is_null() { return Ok(Response { status: 404, body: b"<html>not found</html>".to_vec(), broken: false, url: u }); }
        if r["fault"] == "connect" { return Err(Error("connection refused".into())); }
        let body = match r["body"].as_str() { Some(p) => std::fs::read(format!("{}/{}", dir, p)).unwrap(), None => vec![] };
        Ok(Response { status: r["status"].as_u64().unwrap_or(200) as u16, body, broken: r["fault"] == "read", url: u })
    }
    impl Response {
        pub fn status(&self) -> StatusCode { StatusCode(self.status) }
        pub fn url(&self) -> &str { &self.url }
        pub fn error_for_status(self) -> Result<Response> { if self.status >= 400 { Err(Error(format!("status {}", self.status))) } else { Ok(self) } }
        pub fn bytes(self) -> Result<Bytes> { if self.broken { Err(Error("connection reset".into())) } else { Ok(Bytes(self.body)) } }
        pub fn text(self) -> Result<String> { Ok(String::from_utf8_lossy(&self.bytes()?.0).into_owned()) }
        pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { serde_json::from_slice(&self.bytes()?.0).map_err(|e| Error(e.to_string())) }
    }
}
