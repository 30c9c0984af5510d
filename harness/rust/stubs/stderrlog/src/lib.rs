pub struct StdErrLog { v: usize }
pub fn new() -> StdErrLog { StdErrLog { v: 0 } }
struct Out;
impl log::Log for Out {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { eprintln!("{} {}", r.level(), r.args()); }
    fn flush(&self) {}
}
impl StdErrLog {
    pub fn module<T: Into<String>>(&mut self, _m: T) -> &mut Self { self }
    pub fn verbosity(&mut self, v: usize) -> &mut Self { self.v = v; self }
    pub fn quiet(&mut self, _q: bool) -> &mut Self { self }
    pub fn timestamp<T>(&mut self, _t: T) -> &mut Self { self }
    pub fn init(&mut self) -> Result<(), log::SetLoggerError> {
        log::set_max_level(match self.v { 0 => log::LevelFilter::Error, 1 => log::LevelFilter::Warn, 2 => log::LevelFilter::Info, _ => log::LevelFilter::Trace });
        log::set_logger(&Out)
    }
}
