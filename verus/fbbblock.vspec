@assume crc16.vspec
@source src/fbb.rs
@opt nom
@opt derive
@call std::str::from_utf8_unchecked => str_unchecked
@call u32::from_str_radix => u32_radix
@call .to_le_bytes => le_of
@call .wrapping_neg => wneg
@call .get_mut => &mut vec_get_mut
@call .first_mut => &mut vec_first_mut
@call u16::from_str_radix => u16_radix
@prelude nom.rs
@prelude fbb_block.rs
@fn data_block(data) ret=ret
ensures bytes_is(ret, data_block_f(data@)),
@hint start
proof { assert([2u8]@ =~= seq![2u8]); }
@fn first_data_block(data) ret=ret
ensures fails(ret, first_f(data@)), ret matches Ok((r, o)) ==> first_f(data@) == Pr::Yes(r@, o),
@hint start
proof { lemma_first(data@); }
@fn checksum(data) ret=ret
ensures val_is(ret, checksum_f(data@)),
@hint start
proof { assert([4u8]@ =~= seq![4u8]); }
@fn header(data) ret=ret loops=2
ensures
    fails(ret, header_f(data@)),
    ret matches Ok((r, (t, o))) ==> header_f(data@) == Pr::Yes(r@, (text(t), o as nat)),
@hint start
proof { assert([1u8]@ =~= seq![1u8]); assert([0u8]@ =~= seq![0u8]); lemma_tag_c1(0u8); }
@loop 0
invariant 0 <= __k1 <= __t1@.len(), forall|j: int| 0 <= j < __k1 ==> title_byte()(#[trigger] __t1@[j]),
ensures __k1 < __t1@.len() ==> !title_byte()(__t1@[__k1 as int]),
decreases __t1@.len() - __k1
@hint after loop0
proof {
    lemma_span(__t1@, title_byte(), __k1 as int);
    lemma_title_ascii(__t1@, __k1 as int);
    lemma_skip1(__t1@);
}
@loop 1
invariant 0 <= __k2 <= __t2@.len(), forall|j: int| 0 <= j < __k2 ==> digit_byte()(#[trigger] __t2@[j]),
ensures __k2 < __t2@.len() ==> !digit_byte()(__t2@[__k2 as int]),
decreases __t2@.len() - __k2
@hint after loop1
proof {
    lemma_span(__t2@, digit_byte(), __k2 as int);
    lemma_digit_ascii(__t2@, __k2 as int);
    lemma_skip1(__t2@);
}
@fn data_blocks(data) ret=ret loops=1
ensures
    fails(ret, data_blocks_f(data@)),
    ret matches Ok((r, (c, s, b, k))) ==> data_blocks_f(data@) == Pr::Yes(r@, (c, s, views(b@), k)),
@loop 0
invariant_except_break
    __res1 is None, blocks_f(data@) == prepend(views(__v1@), blocks_f(__t1@)),
ensures till_is(__res1, views(__v1@), blocks_f(data@)),
decreases __t1@.len()
@hint before loop0
proof {
    assert(views(__v1@) =~= Seq::<Seq<u8>>::empty());
    lemma_prepend_none(blocks_f(data@));
}
@hint loop0.start
let ghost (__g, __w) = (__t1@, __v1@);
proof { lemma_blocks_step(__g); lemma_views(__w); }
@hint start
proof { assert forall|__bb: Seq<&[u8]>, x: &[u8]| __bb.len() > 0 implies #[trigger] views(__bb.update(0, x)) =~= views(__bb).update(0, x@) by { lemma_views_update(__bb, x); } }
@fn b2_message_block(data) ret=ret loops=5
ensures
    fails(ret, message_f(data@)),
    ret matches Ok((r, m)) ==> message_f(data@) == Pr::Yes(r@, m.msg()),
@attr #[verifier::spinoff_prover]
@hint start
hide(header_f); hide(data_blocks_f); hide(crc_of); hide(crc_byte); hide(sum); hide(flat);
@hint before loop0
proof {
    lemma_head(*crc16, *uncompressed_size);
    assert(check == check_word(*crc16, *uncompressed_size)) by { reveal(wadd16); reveal(wadd32); reveal(check_word); }
    lemma_take_none(views(blocks@)); lemma_none(le_bytes(*uncompressed_size));
}
@loop 0
invariant
    __i2 <= blocks@.len(),
    __acc1 as int == (head_sum(*crc16, *uncompressed_size) + sum(flat(views(blocks@).take(__i2 as int)))) % 256,
decreases blocks@.len() - __i2
@hint before loop1
proof { lemma_take_none(__b@); lemma_none(le_bytes(*uncompressed_size) + flat(views(blocks@).take(__i2 - 1))); }
@loop 1
invariant
    0 < __i2 <= blocks@.len(),
    __i3 <= __b@.len(),
    __b@ == views(blocks@)[__i2 - 1],
    __acc1 as int == (head_sum(*crc16, *uncompressed_size) + sum(flat(views(blocks@).take(__i2 - 1))) + sum(__b@.take(__i3 as int))) % 256,
decreases __b@.len() - __i3
@hint loop1.start
proof { lemma_sum_take(__b@, __i3 as int); }
@hint after loop1
proof { lemma_flat_take(views(blocks@), __i2 - 1); }
@hint after loop0
proof { assert(views(blocks@).take(blocks@.len() as int) =~= views(blocks@)); }
@hint before loop2
proof { lemma_none(Seq::<u8>::empty()); lemma_take_none(__base@); }
@loop 2
invariant
    __i4 <= __base@.len(),
    crc.state == crc_of(__base@.take(__i4 as int)),
decreases __base@.len() - __i4
@hint loop2.start
proof { lemma_crc_take(Seq::<u8>::empty(), __base@, __i4 as int); }
@hint after loop2
proof { assert(__base@.take(4) =~= __base@); }
@hint before loop3
proof { lemma_take_none(views(blocks@)); lemma_none(le_bytes(*uncompressed_size)); }
@loop 3
invariant
    __i5 <= blocks@.len(),
    crc.state == crc_of(le_bytes(*uncompressed_size) + flat(views(blocks@).take(__i5 as int))),
decreases blocks@.len() - __i5
@hint before loop4
proof { lemma_take_none(__b@); lemma_none(le_bytes(*uncompressed_size) + flat(views(blocks@).take(__i5 - 1))); }
@loop 4
invariant
    0 < __i5 <= blocks@.len(),
    __i6 <= __b@.len(),
    __b@ == views(blocks@)[__i5 - 1],
    crc.state == crc_of(le_bytes(*uncompressed_size) + flat(views(blocks@).take(__i5 - 1)) + __b@.take(__i6 as int)),
decreases __b@.len() - __i6
@hint loop4.start
proof { lemma_crc_take(le_bytes(*uncompressed_size) + flat(views(blocks@).take(__i5 - 1)), __b@, __i6 as int); }
@hint after loop4
proof { lemma_flat_take(views(blocks@), __i5 - 1); }
@hint after loop3
proof { reveal(sound); assert(views(blocks@).take(blocks@.len() as int) =~= views(blocks@)); }
@epilogue fbb_block_wire.rs
