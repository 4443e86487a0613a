@source src/fbb.rs
@opt nom
@opt derive
@call std::str::from_utf8 => str_checked
@call u16::from_str_radix => u16_radix
@call u32::from_str_radix => u32_radix
@call usize::from_str_radix => usize_radix
@call SenderRef::from_str => sender_ref
@call RecipientRef::from_str => recipient_ref
@call AtBbsRef::from_str => atbbs_ref
@call MessageIdRef::from_str => message_id_ref
@prelude nom.rs
@prelude fbb_words.rs
@prelude fbb_prop.rs
@fn message_type(data) ret=ret
ensures val_is(ret, type_f(data@)),
@hint start
proof { assert([80u8]@ =~= seq![80u8]); assert([66u8]@ =~= seq![66u8]); assert([84u8]@ =~= seq![84u8]); }
@fn sender(data) ret=ret loops=1
ensures fails(ret, field_f(data@, 6)), ret matches Ok((r, o)) ==> field_f(data@, 6) == Pr::Yes(r@, sender_text(o)),
@loop 0
invariant 0 <= __k1 <= __t1@.len(), forall|j: int| 0 <= j < __k1 ==> word_byte()(#[trigger] __t1@[j]),
ensures __k1 < __t1@.len() ==> !word_byte()(__t1@[__k1 as int]),
decreases __t1@.len() - __k1
@hint after loop0
proof { lemma_span(__t1@, word_byte(), __k1 as int); }
@fn recipient(data) ret=ret loops=2
ensures fails(ret, addressee_f(data@)), ret matches Ok((r, o)) ==> addressee_f(data@) == Pr::Yes(r@, (atbbs_text(o.mbo), recipient_text(o.recipient))),
@hint start
proof { assert([32u8]@ =~= seq![32u8]); }
@loop 0
invariant 0 <= __k1 <= __t1@.len(), forall|j: int| 0 <= j < __k1 ==> word_byte()(#[trigger] __t1@[j]),
ensures __k1 < __t1@.len() ==> !word_byte()(__t1@[__k1 as int]),
decreases __t1@.len() - __k1
@hint after loop0
proof { lemma_span(__t1@, word_byte(), __k1 as int); }
@loop 1
invariant 0 <= __k2 <= __t2@.len(), forall|j: int| 0 <= j < __k2 ==> word_byte()(#[trigger] __t2@[j]),
ensures __k2 < __t2@.len() ==> !word_byte()(__t2@[__k2 as int]),
decreases __t2@.len() - __k2
@hint after loop1
proof { lemma_span(__t2@, word_byte(), __k2 as int); }
@fn message_id(data) ret=ret loops=1
ensures fails(ret, field_f(data@, 12)), ret matches Ok((r, o)) ==> field_f(data@, 12) == Pr::Yes(r@, message_id_text(o)),
@loop 0
invariant 0 <= __k1 <= __t1@.len(), forall|j: int| 0 <= j < __k1 ==> word_byte()(#[trigger] __t1@[j]),
ensures __k1 < __t1@.len() ==> !word_byte()(__t1@[__k1 as int]),
decreases __t1@.len() - __k1
@hint after loop0
proof { lemma_span(__t1@, word_byte(), __k1 as int); }
@fn message_size(data) ret=ret loops=1
ensures fails(ret, number_f(data@)), ret matches Ok((r, o)) ==> number_f(data@) == Pr::Yes(r@, o),
@loop 0
invariant 0 <= __k1 <= __t1@.len(), forall|j: int| 0 <= j < __k1 ==> digit_byte()(#[trigger] __t1@[j]),
ensures __k1 < __t1@.len() ==> !digit_byte()(__t1@[__k1 as int]),
decreases __t1@.len() - __k1
@hint after loop0
proof { lemma_span(__t1@, digit_byte(), __k1 as int); lemma_digit_span(__t1@, __k1 as int); }
@fn Proposal::from_parts(parts) ret=ret
ensures ret.prop() == (Prop { ty: parts.0, from: sender_text(parts.1), at: atbbs_text(parts.2.mbo), to: recipient_text(parts.2.recipient), id: message_id_text(parts.3), size: parts.4 }),
@fn WinlinkProposal::from_parts(parts) ret=ret
ensures ret.fc() == (Fc { id: message_id_text(parts.1), size: parts.2, compressed: parts.3, ext: match parts.4 { Some(x) => Some(x.ext()), None => None } }),
@fn BqpProposalExtension::from_parts(parts) ret=ret
ensures ret.ext() == (Ext { from: sender_text(parts.0), at: atbbs_text(parts.1.mbo), to: recipient_text(parts.1.recipient) }),
@fn fbb_proposal(data) ret=ret
ensures fails(ret, proposal_f(data@)), ret matches Ok((r, o)) ==> proposal_f(data@) == Pr::Yes(r@, o.prop()),
@hint start
proof { assert([32u8]@ =~= seq![32u8]); assert([13u8]@ =~= seq![13u8]); assert([70u8, 65u8]@ =~= seq![70u8, 65u8]); assert([70u8, 66u8]@ =~= seq![70u8, 66u8]); }
@fn winlink_proposal(data) ret=ret
ensures fails(ret, fc_f(data@)), ret matches Ok((r, o)) ==> fc_f(data@) == Pr::Yes(r@, o.fc()),
@hint start
proof { assert([32u8]@ =~= seq![32u8]); assert([13u8]@ =~= seq![13u8]); assert([70u8, 67u8]@ =~= seq![70u8, 67u8]); assert([69u8, 77u8]@ =~= seq![69u8, 77u8]); }
@epilogue fbb_words_wire.rs
@epilogue fbb_prop_wire.rs
