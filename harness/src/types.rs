//! C12: call signs
use crate::ctx::*;
use plusendi::{StationId, StationIdRef};
use plusendi::verif::types as real;
use std::borrow::Cow;
use std::convert::TryFrom;

/// optional digit, letters, digits, a letter, then letters or digits
pub fn is_callsign(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && b[i].is_ascii_digit() { i += 1; }
    let k = i;
    while i < b.len() && b[i].is_ascii_alphabetic() { i += 1; }
    if i == k { return false; }
    let k = i;
    while i < b.len() && b[i].is_ascii_digit() { i += 1; }
    if i == k { return false; }
    if i >= b.len() || !b[i].is_ascii_alphabetic() { return false; }
    b[i..].iter().all(|c| c.is_ascii_alphanumeric())
}

fn check_id(cx: &mut Ctx, s: &str) {
    let s = s.to_string();
    cx.case(format!("text={}", hex(s.as_bytes())), s.len() > 2, move || one_id(&s));
}
fn one_id(s: &str) -> Result<(), String> {
    let want = if is_callsign(s) { Some(s.to_ascii_uppercase()) } else { None };
    let all: Vec<(&str, Option<String>)> = vec![
        ("StationId::new", StationId::new(s).ok().map(|x| x.as_str().to_owned())),
        ("StationId::try_from(String)", StationId::try_from(s.to_string()).ok().map(|x| x.as_str().to_owned())),
        ("StationId::try_from(&str)", StationId::try_from(s).ok().map(|x| x.as_str().to_owned())),
        ("str::parse", s.parse::<StationId>().ok().map(|x| x.as_str().to_owned())),
        ("StationIdRef::from_str", StationIdRef::from_str(s).ok().map(|x| match x { Cow::Borrowed(r) => r.as_str().to_owned(), Cow::Owned(o) => o.as_str().to_owned() })),
    ];
    for (how, got) in all {
        if got != want {
            return Err(format!("{} of {:?} gives {:?}, should be {:?}", how, s, got, want));
        }
        if let Some(id) = got {
            if !id.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit()) { return Err(format!("identifier {:?}", id)); }
            let again = StationId::new(&id).map_err(|_| format!("{:?} is not accepted again", id))?;
            if again.as_str() != id { return Err(format!("{:?} changes to {:?} when created again", id, again.as_str())); }
            for t in [s.to_ascii_lowercase(), s.to_ascii_uppercase()] {
                if StationId::new(&t).map(|x| x.as_str().to_owned()).ok().as_deref() != Some(&id[..]) { return Err(format!("{:?} and {:?} give different identifiers", s, t)); }
            }
        }
    }
    Ok(())
}

fn check_read(cx: &mut Ctx, d: Vec<u8>) {
    cx.case(format!("bytes={}", hex(&d)), d.len() > 2, move || {
        let n = d.iter().take(7).take_while(|b| b.is_ascii_uppercase() || b.is_ascii_digit()).count();
        let want = if n >= 3 { Some((d.len() - n, String::from_utf8(d[..n].to_vec()).unwrap())) } else { None };
        let got = real::read_callsign(&d).map(|(k, s)| (k, s.to_owned()));
        if got == want { Ok(()) } else { Err(format!("reading {:?} from the modem gives {:?}, should be {:?}", String::from_utf8_lossy(&d), got, want)) }
    });
}

pub fn run(cx: &mut Ctx, replay: Option<String>) {
    cx.rule = "texts: all strings up to 6 over a 9-character alphabet of classes, every character at every place of sample call signs, random ones, long ones; bytes read from the modem likewise; non-trivial: more than 2 characters".into();
    if let Some(r) = replay {
        match r.split_once('=').unwrap() {
            ("text", h) => check_id(cx, &String::from_utf8(unhex(h)).unwrap()),
            (_, h) => check_read(cx, unhex(h)),
        }
        return;
    }
    let al: Vec<&str> = vec!["A", "z", "m", "0", "9", "-", " ", "\n", "é"];
    let depth = if cx.thorough { 7 } else { 6 };
    for n in 0..=depth {
        let mut ix = vec![0usize; n];
        'o: loop {
            let s: String = ix.iter().map(|&i| al[i]).collect();
            if n <= 4 { check_id(cx, &s); } else {
                cx.evals += 1;
                let r = std::panic::catch_unwind(|| one_id(&s));
                if !matches!(r, Ok(Ok(()))) { check_id(cx, &s); }
            }
            let mut k = 0;
            loop {
                if k == n { break 'o; }
                ix[k] += 1;
                if ix[k] < al.len() { break; }
                ix[k] = 0;
                k += 1;
            }
            if !cx.time_left() { break 'o; }
        }
    }
    for base in ["KC1GSL", "2E0ABC", "w1aw", "9a1b2", "K1A", "LX9ZZ9Z"] {
        for i in 0..=base.len() {
            for c in (0..=0x17fu32).chain([0x212a, 0x0660, 0xff21, 0x1d7d8, 0x10ffff]) {
                let c = match char::from_u32(c) { Some(c) => c, None => continue };
                let mut s = base.to_string();
                s.insert(i, c);
                check_id(cx, &s);
                if i < base.len() {
                    let mut s = base.to_string();
                    s.replace_range(i..i + 1, &c.to_string());
                    check_id(cx, &s);
                }
            }
        }
    }
    for b in 0..=255u8 { for i in 0..8usize { for n in [0usize, 2, 3, 6, 7, 9] {
        let mut d = vec![b'K'; n];
        if i < n { d[i] = b; } else { d.push(b); }
        check_read(cx, d);
    } } }
    let end = std::time::Instant::now() + std::time::Duration::from_secs(if cx.thorough { 120 } else { 6 });
    while cx.time_left() && std::time::Instant::now() < end {
        let n = if cx.rng.chance(1, 30) { cx.rng.below(300) } else { cx.rng.below(12) };
        let s: String = (0..n).map(|_| match cx.rng.below(12) { 0 => *cx.rng.pick(&[' ', '\n', '-', '/', 'é', '\0', '\u{212a}', '_', '\r']), 1..=4 => (b'0' + cx.rng.byte() % 10) as char, 5..=7 => (b'a' + cx.rng.byte() % 26) as char, _ => (b'A' + cx.rng.byte() % 26) as char }).collect();
        check_id(cx, &s);
        let d = s.into_bytes();
        check_read(cx, d.iter().map(|b| b.to_ascii_uppercase()).collect());
    }
}
