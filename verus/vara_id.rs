// ---- station identifiers, owned (made by the `braid` macro) ----
#[verifier::external_body] pub struct StationId { x: u8 }
pub uninterp spec fn name(s: &StationId) -> Seq<u8>;
impl Clone for StationId {
    #[verifier::external_body]
    fn clone(&self) -> (ret: StationId) ensures name(&ret) == name(self) { unimplemented!() }
}
