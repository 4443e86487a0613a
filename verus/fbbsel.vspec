@source src/fbb.rs
@opt nom
@opt derive
@call std::str::from_utf8 => str_checked
@call u16::from_str_radix => u16_radix
@call u32::from_str_radix => u32_radix
@call usize::from_str_radix => usize_radix
@prelude nom.rs
@prelude fbb_words.rs
@prelude fbb_sel.rs
@fn selection_element(data) ret=ret loops=1
ensures val_is(ret, element_f(data@)),
@hint start
proof {
    assert([43u8]@ =~= seq![43u8]); assert([89u8]@ =~= seq![89u8]); assert([72u8]@ =~= seq![72u8]);
    assert([33u8]@ =~= seq![33u8]); assert([65u8]@ =~= seq![65u8]);
    assert([61u8]@ =~= seq![61u8]); assert([76u8]@ =~= seq![76u8]);
    assert([45u8]@ =~= seq![45u8]); assert([78u8]@ =~= seq![78u8]); assert([82u8]@ =~= seq![82u8]); assert([69u8]@ =~= seq![69u8]);
    lemma_sign(data@);
}
@loop 0
invariant 0 <= __k1 <= __t1@.len(), forall|j: int| 0 <= j < __k1 ==> digit_byte()(#[trigger] __t1@[j]),
ensures __k1 < __t1@.len() ==> !digit_byte()(__t1@[__k1 as int]),
decreases __t1@.len() - __k1
@hint after loop0
proof { lemma_span(__t1@, digit_byte(), __k1 as int); lemma_digit_span(__t1@, __k1 as int); }
@fn selection(input) ret=ret loops=1
ensures fails(ret, selection_f(input@, P as nat)), ret matches Ok((r, o)) ==> selection_f(input@, P as nat) == Pr::Yes(r@, o@),
@hint start
proof { assert([32u8]@ =~= seq![32u8]); assert([70u8, 83u8]@ =~= seq![70u8, 83u8]); }
@hint before loop0
let ghost __start = data@;
proof { lemma_pre_none(elements_f(data@, P as nat)); assert(responses@.take(0) =~= Seq::<MessageChoice>::empty()); }
@loop 0
invariant
    __i1 <= P, responses@.len() == P,
    elements_f(__start, P as nat) == pre(responses@.take(__i1 as int), elements_f(data@, (P - __i1) as nat)),
    selection_f(input@, P as nat) == elements_f(__start, P as nat),
decreases P - __i1
@hint loop0.start
let ghost (__g, __w) = (data@, responses@);
proof { lemma_elements_step(__g, (P - __i1) as nat); }
@hint loop0.end
proof { assert(responses@.take(__i1 as int) =~= __w.take(__i1 - 1).push(responses@[__i1 - 1])); }
@hint after loop0
proof { lemma_pre_end(responses@, data@); }
@epilogue fbb_words_wire.rs
@epilogue fbb_sel_wire.rs
