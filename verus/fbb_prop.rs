// ---- proposals and answers: what the parser functions compute ----
// The newtypes made by the `braid` macro (no validator, no normaliser: any text) as opaque types with a text.
#[verifier::external_body] pub struct SenderRef { x: u8 }
#[verifier::external_body] pub struct RecipientRef { x: u8 }
#[verifier::external_body] pub struct AtBbsRef { x: u8 }
#[verifier::external_body] pub struct MessageIdRef { x: u8 }
pub uninterp spec fn sender_text(s: &SenderRef) -> Seq<u8>;
pub uninterp spec fn recipient_text(s: &RecipientRef) -> Seq<u8>;
pub uninterp spec fn atbbs_text(s: &AtBbsRef) -> Seq<u8>;
pub uninterp spec fn message_id_text(s: &MessageIdRef) -> Seq<u8>;
#[verifier::external_body]
fn sender_ref<'a>(s: &'a str) -> (ret: &'a SenderRef) ensures sender_text(ret) == text(s) { unimplemented!() }
#[verifier::external_body]
fn recipient_ref<'a>(s: &'a str) -> (ret: &'a RecipientRef) ensures recipient_text(ret) == text(s) { unimplemented!() }
#[verifier::external_body]
fn atbbs_ref<'a>(s: &'a str) -> (ret: &'a AtBbsRef) ensures atbbs_text(ret) == text(s) { unimplemented!() }
#[verifier::external_body]
fn message_id_ref<'a>(s: &'a str) -> (ret: &'a MessageIdRef) ensures message_id_text(ret) == text(s) { unimplemented!() }

pub open spec fn or_else<T>(p: Pr<T>, q: Pr<T>) -> Pr<T> { if p is No { q } else { p } }
pub open spec fn becomes<T, U>(p: Pr<T>, v: U) -> Pr<U> { then(p, |r: Seq<u8>, t: T| Pr::Yes(r, v)) }
pub open spec fn type_f(d: Seq<u8>) -> Pr<MessageType> {
    or_else(becomes(tag_s(d, seq![80u8]), MessageType::Private), or_else(becomes(tag_s(d, seq![66u8]), MessageType::Bulletin), becomes(tag_s(d, seq![84u8]), MessageType::Traffic)))
}
/// mailbox, then recipient
pub open spec fn addressee_f(d: Seq<u8>) -> Pr<(Seq<u8>, Seq<u8>)> {
    then(field_f(d, 40), |r: Seq<u8>, at: Seq<u8>| then(space_f(r), |q: Seq<u8>, t: Seq<u8>| then(field_f(q, 6), |p: Seq<u8>, to: Seq<u8>| Pr::Yes(p, (at, to)))))
}
pub struct Prop { pub ty: MessageType, pub from: Seq<u8>, pub at: Seq<u8>, pub to: Seq<u8>, pub id: Seq<u8>, pub size: u16 }
pub struct Ext { pub from: Seq<u8>, pub at: Seq<u8>, pub to: Seq<u8> }
pub struct Fc { pub id: Seq<u8>, pub size: u16, pub compressed: u16, pub ext: Option<Ext> }
impl<'a> Proposal<'a> {
    pub open spec fn prop(&self) -> Prop {
        Prop { ty: self.message_type, from: sender_text(self.sender), at: atbbs_text(self.addressee.mbo), to: recipient_text(self.addressee.recipient), id: message_id_text(self.message_id), size: self.message_size }
    }
}
impl<'a> BqpProposalExtension<'a> {
    pub open spec fn ext(&self) -> Ext { Ext { from: sender_text(self.sender), at: atbbs_text(self.addressee.mbo), to: recipient_text(self.addressee.recipient) } }
}
impl<'a> WinlinkProposal<'a> {
    pub open spec fn fc(&self) -> Fc {
        Fc { id: message_id_text(self.message_id), size: self.uncompressed_message_size, compressed: self.compressed_message_size, ext: match self.bqp_extension { Some(x) => Some(x.ext()), None => None } }
    }
}
pub open spec fn spaced<T>(d: Seq<u8>, p: spec_fn(Seq<u8>) -> Pr<T>) -> Pr<T> { then(space_f(d), |r: Seq<u8>, t: Seq<u8>| p(r)) }
pub open spec fn field_p(n: int) -> spec_fn(Seq<u8>) -> Pr<Seq<u8>> { |d: Seq<u8>| field_f(d, n) }
pub open spec fn type_p() -> spec_fn(Seq<u8>) -> Pr<MessageType> { |d: Seq<u8>| type_f(d) }
pub open spec fn addressee_p() -> spec_fn(Seq<u8>) -> Pr<(Seq<u8>, Seq<u8>)> { |d: Seq<u8>| addressee_f(d) }
pub open spec fn number_p() -> spec_fn(Seq<u8>) -> Pr<u16> { |d: Seq<u8>| number_f(d) }
pub open spec fn em_p() -> spec_fn(Seq<u8>) -> Pr<Seq<u8>> { |d: Seq<u8>| tag_s(d, seq![69u8, 77u8]) }
pub open spec fn cr_f(d: Seq<u8>) -> Pr<Seq<u8>> { tag_s(d, seq![13u8]) }
pub open spec fn fa_fb_f(d: Seq<u8>) -> Pr<Seq<u8>> { or_else(tag_s(d, seq![70u8, 65u8]), tag_s(d, seq![70u8, 66u8])) }
// read from the end: the parser of what is left of the line, given the fields read before it
pub open spec fn proposal6_f(d: Seq<u8>, ty: MessageType, from: Seq<u8>, a: (Seq<u8>, Seq<u8>), id: Seq<u8>, size: u16) -> Pr<Prop> {
    then(cr_f(d), |r: Seq<u8>, u: Seq<u8>| Pr::Yes(r, Prop { ty, from, at: a.0, to: a.1, id, size }))
}
pub open spec fn proposal5_f(d: Seq<u8>, ty: MessageType, from: Seq<u8>, a: (Seq<u8>, Seq<u8>), id: Seq<u8>) -> Pr<Prop> {
    then(spaced(d, number_p()), |r: Seq<u8>, size: u16| proposal6_f(r, ty, from, a, id, size))
}
pub open spec fn proposal4_f(d: Seq<u8>, ty: MessageType, from: Seq<u8>, a: (Seq<u8>, Seq<u8>)) -> Pr<Prop> {
    then(spaced(d, field_p(12)), |r: Seq<u8>, id: Seq<u8>| proposal5_f(r, ty, from, a, id))
}
pub open spec fn proposal3_f(d: Seq<u8>, ty: MessageType, from: Seq<u8>) -> Pr<Prop> {
    then(spaced(d, addressee_p()), |r: Seq<u8>, a: (Seq<u8>, Seq<u8>)| proposal4_f(r, ty, from, a))
}
pub open spec fn proposal2_f(d: Seq<u8>, ty: MessageType) -> Pr<Prop> {
    then(spaced(d, field_p(6)), |r: Seq<u8>, from: Seq<u8>| proposal3_f(r, ty, from))
}
pub open spec fn proposal1_f(d: Seq<u8>) -> Pr<Prop> {
    then(spaced(d, type_p()), |r: Seq<u8>, ty: MessageType| proposal2_f(r, ty))
}
pub open spec fn proposal_f(d: Seq<u8>) -> Pr<Prop> {
    then(fa_fb_f(d), |r: Seq<u8>, t: Seq<u8>| proposal1_f(r))
}
pub open spec fn ext_f(d: Seq<u8>) -> Pr<Ext> {
    then(spaced(d, field_p(6)), |d1: Seq<u8>, from: Seq<u8>| then(spaced(d1, addressee_p()), |d2: Seq<u8>, a: (Seq<u8>, Seq<u8>)| Pr::Yes(d2, Ext { from, at: a.0, to: a.1 })))
}
pub open spec fn opt_ext_f(d: Seq<u8>) -> Pr<Option<Ext>> {
    match ext_f(d) { Pr::Yes(r, e) => Pr::Yes(r, Some(e)), Pr::No => Pr::Yes(d, None), Pr::More(n) => Pr::More(n), Pr::Stop => Pr::Stop }
}
pub open spec fn fc6_f(d: Seq<u8>, id: Seq<u8>, size: u16, compressed: u16, ext: Option<Ext>) -> Pr<Fc> {
    then(cr_f(d), |r: Seq<u8>, u: Seq<u8>| Pr::Yes(r, Fc { id, size, compressed, ext }))
}
pub open spec fn fc5_f(d: Seq<u8>, id: Seq<u8>, size: u16, compressed: u16) -> Pr<Fc> {
    then(opt_ext_f(d), |r: Seq<u8>, ext: Option<Ext>| fc6_f(r, id, size, compressed, ext))
}
pub open spec fn fc4_f(d: Seq<u8>, id: Seq<u8>, size: u16) -> Pr<Fc> {
    then(spaced(d, number_p()), |r: Seq<u8>, compressed: u16| fc5_f(r, id, size, compressed))
}
pub open spec fn fc3_f(d: Seq<u8>, id: Seq<u8>) -> Pr<Fc> {
    then(spaced(d, number_p()), |r: Seq<u8>, size: u16| fc4_f(r, id, size))
}
pub open spec fn fc2_f(d: Seq<u8>) -> Pr<Fc> {
    then(spaced(d, field_p(12)), |r: Seq<u8>, id: Seq<u8>| fc3_f(r, id))
}
pub open spec fn fc1_f(d: Seq<u8>) -> Pr<Fc> {
    then(spaced(d, em_p()), |r: Seq<u8>, em: Seq<u8>| fc2_f(r))
}
pub open spec fn fc_f(d: Seq<u8>) -> Pr<Fc> {
    then(tag_s(d, seq![70u8, 67u8]), |r: Seq<u8>, t: Seq<u8>| fc1_f(r))
}

