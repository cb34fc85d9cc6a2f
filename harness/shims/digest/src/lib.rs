//! Offline stand-in for the two `digest` 0.8 traits the repository uses.
pub trait Input {
    fn input<B: AsRef<[u8]>>(&mut self, data: B);
}
pub trait ExtendableOutput {
    type Reader;
    fn xof_result(self) -> Self::Reader;
}
