//! A handshake: the server sends the length (4 bytes) and the bytes of its certificate, and the chain after it; an early
//! end of the connection is a failed handshake.
use std::io::{self, Read, Write};
use std::sync::Arc;
#[derive(Clone, Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Certificate(pub Vec<u8>);
impl AsRef<[u8]> for Certificate { fn as_ref(&self) -> &[u8] { &self.0 } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ServerName(pub String);
#[derive(Clone, Debug)]
pub struct InvalidDnsNameError;
impl std::fmt::Display for InvalidDnsNameError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("invalid dns name") } }
impl std::error::Error for InvalidDnsNameError {}
impl TryFrom<&str> for ServerName {
    type Error = InvalidDnsNameError;
    fn try_from(s: &str) -> Result<Self, InvalidDnsNameError> {
        if s.is_empty() || s.bytes().any(|b| !(b.is_ascii_alphanumeric() || b"-._:".contains(&b))) { Err(InvalidDnsNameError) } else { Ok(ServerName(s.into())) }
    }
}
pub mod client {
    pub struct ServerCertVerified(());
    impl ServerCertVerified { pub fn assertion() -> Self { ServerCertVerified(()) } }
    pub trait ServerCertVerifier: Send + Sync {
        fn verify_server_cert(&self, end_entity: &super::Certificate, intermediates: &[super::Certificate], server_name: &super::ServerName,
            scts: &mut dyn Iterator<Item = &[u8]>, ocsp_response: &[u8], now: std::time::SystemTime) -> Result<ServerCertVerified, super::Error>;
    }
}
pub struct ClientConfig { verifier: Arc<dyn client::ServerCertVerifier> }
pub struct Builder;
pub struct Builder2(Arc<dyn client::ServerCertVerifier>);
impl ClientConfig { pub fn builder() -> Builder { Builder } }
impl Builder {
    pub fn with_safe_defaults(self) -> Builder { self }
    pub fn with_custom_certificate_verifier(self, v: Arc<dyn client::ServerCertVerifier>) -> Builder2 { Builder2(v) }
}
impl Builder2 { pub fn with_no_client_auth(self) -> ClientConfig { ClientConfig { verifier: self.0 } } }
pub struct ClientConnection { config: Arc<ClientConfig>, name: ServerName, certs: Option<Vec<Certificate>> }
impl ClientConnection {
    pub fn new(config: Arc<ClientConfig>, name: ServerName) -> Result<Self, Error> { Ok(ClientConnection { config, name, certs: None }) }
    pub fn peer_certificates(&self) -> Option<&[Certificate]> { self.certs.as_deref() }
}
pub struct Stream<'a, T: Read + Write> { conn: &'a mut ClientConnection, sock: &'a mut T }
impl<'a, T: Read + Write> Stream<'a, T> {
    pub fn new(conn: &'a mut ClientConnection, sock: &'a mut T) -> Self { Stream { conn, sock } }
    fn handshake(&mut self) -> io::Result<()> {
        if self.conn.certs.is_some() { return Ok(()); }
        let mut all = vec![];
        self.sock.write_all(self.conn.name.0.as_bytes())?;
        self.sock.write_all(b"\n")?;
        self.sock.read_to_end(&mut all)?;
        let mut certs = vec![];
        let mut r = &all[..];
        while !r.is_empty() {
            let bad = || io::Error::new(io::ErrorKind::UnexpectedEof, "tls handshake eof");
            if r.len() < 4 { return Err(bad()); }
            let n = u32::from_be_bytes(r[..4].try_into().unwrap()) as usize;
            if r.len() < 4 + n { return Err(bad()); }
            certs.push(Certificate(r[4..4 + n].to_vec()));
            r = &r[4 + n..];
        }
        if certs.is_empty() { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "tls handshake eof")); }
        self.conn.config.verifier.verify_server_cert(&certs[0], &certs[1..], &self.conn.name, &mut std::iter::empty(), &[], std::time::SystemTime::now())
            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e.to_string()))?;
        self.conn.certs = Some(certs);
        Ok(())
    }
}
impl<'a, T: Read + Write> Write for Stream<'a, T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.handshake()?; self.sock.write(b) }
    fn flush(&mut self) -> io::Result<()> { self.handshake() }
}
impl<'a, T: Read + Write> Read for Stream<'a, T> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.handshake()?; self.sock.read(b) } }
