/// A client that reports nowhere; what is reported is not judged.
pub struct Client;
#[derive(Debug)]
pub struct StatsdError;
impl Client {
    pub fn new<T>(_host: T, _prefix: &str) -> Result<Client, StatsdError> { Ok(Client) }
    pub fn gauge(&self, _m: &str, _v: f64) {}
    pub fn incr(&self, _m: &str) {}
    pub fn decr(&self, _m: &str) {}
    pub fn count(&self, _m: &str, _v: f64) {}
    pub fn timer(&self, _m: &str, _v: f64) {}
}
