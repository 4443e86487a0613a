// ---- std::io errors, reports, bytes::BytesMut, as contracts (assumed) ----
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { WouldBlock, UnexpectedEof, InvalidInput, ConnectionAborted, Interrupted, Other }
pub struct IoError { pub kind: ErrorKind }
impl IoError {
    fn kind(&self) -> (ret: ErrorKind) ensures ret == self.kind { self.kind }
    #[verifier::external_body]
    fn new(kind: ErrorKind, text: &str) -> (ret: IoError) ensures ret.kind == kind { unimplemented!() }
}
/// color_eyre::Report
pub struct Report { pub x: u8 }
#[verifier::external_body]
fn into_report<T>(e: T) -> Report { unimplemented!() }

/// a growable buffer of bytes
#[verifier::external_body] pub struct BytesMut { x: u8 }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl BytesMut {
    #[verifier::external_body]
    fn as_bytes(&self) -> (ret: &[u8]) ensures ret@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (ret: usize) ensures ret == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (ret: bool) ensures ret == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn split_off(&mut self, at: usize) -> (ret: BytesMut)
        requires at <= old(self)@.len()
        ensures final(self)@ == old(self)@.take(at as int), ret@ == old(self)@.skip(at as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn split_to(&mut self, at: usize) -> (ret: BytesMut)
        requires at <= old(self)@.len()
        ensures ret@ == old(self)@.take(at as int), final(self)@ == old(self)@.skip(at as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn advance(&mut self, at: usize)
        requires at <= old(self)@.len()
        ensures final(self)@ == old(self)@.skip(at as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (ret: BytesMut) ensures ret@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn new() -> (ret: BytesMut) ensures ret@ == Seq::<u8>::empty() { unimplemented!() }
}
impl From<IoError> for Report {
    #[verifier::external_body]
    fn from(e: IoError) -> (ret: Report) { unimplemented!() }
}
/// select!: which branch is ready first is not known
#[verifier::external_body]
fn pick() -> bool { unimplemented!() }
