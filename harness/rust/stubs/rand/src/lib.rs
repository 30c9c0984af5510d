pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
}
pub mod rngs {
    /// a fixed sequence: the salt of a cascade is not something the properties depend on
    #[derive(Clone, Copy, Debug, Default)]
    pub struct OsRng;
    impl super::RngCore for OsRng {
        fn next_u32(&mut self) -> u32 { 4 }
        fn next_u64(&mut self) -> u64 { 4 }
        fn fill_bytes(&mut self, dest: &mut [u8]) { for (i, b) in dest.iter_mut().enumerate() { *b = i as u8 } }
    }
}
