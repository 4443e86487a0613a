use crate::ctx::*;
use plusendi::verif::crc16;

/// bit by bit, from the definition
pub fn crc_ref(m: &[u8]) -> u16 {
    let mut s: u32 = 0;
    for &b in m {
        for k in (0..8).rev() {
            let bit = ((s >> 15) & 1) ^ ((b as u32 >> k) & 1);
            s = (s << 1) & 0xffff;
            if bit == 1 { s ^= 0x1021; }
        }
    }
    s as u16
}
fn describe(parts: &[Vec<u8>]) -> String { parts.iter().map(|p| hex(p)).collect::<Vec<_>>().join("|") }
fn check(cx: &mut Ctx, parts: Vec<Vec<u8>>) {
    let d = describe(&parts);
    cx.case(format!("pieces={}", d), parts.iter().any(|p| !p.is_empty()), move || {
        let all: Vec<u8> = parts.concat();
        let v: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
        let got = crc16::crc(&v);
        let want = crc_ref(&all);
        if got == want { Ok(()) } else { Err(format!("crc {:04x}, XMODEM CRC-16 is {:04x}", got, want)) }
    });
}
pub fn c06(cx: &mut Ctx, replay: Option<String>) {
    cx.rule = "byte strings in pieces; all strings of 0..=2 bytes, every register value with every next byte, random strings of up to 4096 bytes with random splits; a case is non-trivial if it has a byte".into();
    if let Some(r) = replay {
        let parts = r.trim_start_matches("pieces=").split('|').map(unhex).collect();
        check(cx, parts);
        return;
    }
    check(cx, vec![]);
    check(cx, vec![b"123456789".to_vec()]);
    for a in 0..=255u8 { check(cx, vec![vec![a]]); }
    // two bytes reach every register value; with every third byte this is the whole transition function
    let mut bad = None;
    'o: for a in 0..=255u8 { for b in 0..=255u8 { for c in 0..=255u8 {
        if crc16::crc(&[&[a, b, c]]) != crc_fast(&[a, b, c]) { bad = Some(vec![a, b, c]); break 'o; }
    }}}
    cx.evals += 1 << 24;
    if let Some(b) = bad { check(cx, vec![b]); }
    for _ in 0..if cx.thorough { 20000 } else { 3000 } {
        let n = cx.rng.below(5);
        let parts = (0..n).map(|_| { let k = if cx.rng.chance(1, 20) { cx.rng.below(4096) } else { cx.rng.below(40) }; cx.rng.bytes(k) }).collect();
        check(cx, parts);
    }
}
fn crc_fast(m: &[u8]) -> u16 {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<u16>> = OnceLock::new();
    let t = T.get_or_init(|| (0..256).map(|i| crc_ref(&[i as u8])).collect());
    m.iter().fold(0u16, |s, &b| (s << 8) ^ t[((s >> 8) as u8 ^ b) as usize])
}
