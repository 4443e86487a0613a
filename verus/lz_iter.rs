/// the bytes of the input still to come
pub struct ByteIter { pub data: Vec<u8>, pub pos: usize }
impl ByteIter {
    pub open spec fn rest(&self) -> Seq<u8> { self.data@.skip(self.pos as int) }
    pub open spec fn ok(&self) -> bool { self.pos <= self.data@.len() }
    fn into_iter(self) -> (ret: ByteIter)
        ensures ret == self
    { self }
    fn next(&mut self) -> (ret: Option<u8>)
        requires old(self).ok()
        ensures final(self).ok(),
            match ret {
                Some(b) => old(self).rest().len() > 0 && b == old(self).rest()[0] && final(self).rest() =~= old(self).rest().skip(1),
                None => old(self).rest().len() == 0 && final(self).rest() =~= old(self).rest(),
            },
    {
        if self.pos < self.data.len() { let b = self.data[self.pos]; self.pos = self.pos + 1; Some(b) } else { None }
    }
}
