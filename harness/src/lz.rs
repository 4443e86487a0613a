//! C01-C05: the LZHUF codec against the independent oracle in reference.rs
use crate::ctx::*;
use crate::reference::{self as rf, Token};
use plusendi::verif::lzhuf as real;

/// unambiguous compact description of a byte string (hex; long ones as hex too)
fn d(b: &[u8]) -> String { hex(b) }

// ------------------------------------------------------------------ single cases

fn roundtrip(cx: &mut Ctx, m: &[u8]) {
    let m = m.to_vec();
    cx.case(format!("message={}", d(&m)), m.len() > 1, move || {
        let e = real::encode(&m);
        match real::decode(&e, m.len()) {
            Some(x) if x == m => Ok(()),
            Some(x) => {
                let k = x.iter().zip(&m).position(|(a, b)| a != b).unwrap_or(0);
                Err(format!("decompressed message differs first at byte {} of {}", k, m.len()))
            }
            None => Err("decompressing the compressed message fails".into()),
        }
    });
}

fn compressed(cx: &mut Ctx, m: &[u8]) {
    let m = m.to_vec();
    cx.case(format!("message={}", d(&m)), m.len() > 1, move || {
        let e = real::encode(&m);
        match rf::decode(&e, m.len()) {
            None => Err("the compressed bytes are not a complete LZHUF stream for the message".into()),
            Some((x, toks, used)) => {
                if x != m {
                    let k = x.iter().zip(&m).position(|(a, b)| a != b).unwrap_or(0);
                    return Err(format!("the LZHUF format decodes the compressed bytes to something else, first at byte {} of {}", k, m.len()));
                }
                if e.len() * 8 - used >= 8 { return Err(format!("{} trailing bits", e.len() * 8 - used)); }
                if toks.iter().any(|t| matches!(t, Token::Copy { dist, .. } if *dist > 2048)) {
                    return Err("a copy reaches further back than the window".into());
                }
                Ok(())
            }
        }
    });
}

fn hostile(cx: &mut Ctx, e: &[u8], n: usize) {
    let e = e.to_vec();
    cx.case(format!("stream={};n={}", d(&e), n), !e.is_empty() && n > 0, move || {
        let got = real::decode(&e, n);
        let want = rf::decode(&e, n);
        match (got, want) {
            (Some(x), _) if x.len() != n => Err("output length changed".into()),
            (Some(_), None) => Err("reports success although the stream ends early or its last copy overruns the output".into()),
            _ => Ok(()),
        }
    });
}

fn format(cx: &mut Ctx, e: &[u8], n: usize) {
    let e = e.to_vec();
    cx.case(format!("stream={};n={}", d(&e), n), !e.is_empty() && n > 0, move || {
        let got = real::decode(&e, n);
        let want = rf::decode(&e, n).map(|x| x.0);
        if got == want { return Ok(()); }
        Err(match (got, want) {
            (None, Some(_)) => "rejects a stream the LZHUF format can decode".into(),
            (Some(_), None) => "accepts a stream the LZHUF format cannot decode".into(),
            (Some(g), Some(w)) => { let k = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(0); format!("differs from the LZHUF format first at byte {} of {}", k, n) }
            _ => unreachable!(),
        })
    });
}

fn valid_table(t: &real::Table) -> Result<(), String> {
    let (f, c, p) = (t.weights(), t.children(), t.parents());
    let mut space: u64 = 0;
    let mut codes: Vec<(u16, usize)> = vec![];
    let mut total = 0u64;
    for s in 0..314usize {
        let leaf = p[627 + s] as usize;
        if leaf >= 627 || c[leaf] as usize != 627 + s { return Err(format!("symbol {} has no leaf", s)); }
        let mut bits = vec![];
        let mut k = leaf;
        while k != 626 {
            bits.push((k & 1) as u16);
            k = p[k] as usize;
            if bits.len() > 626 || k >= 627 { return Err(format!("the code of symbol {} does not end at the root", s)); }
        }
        if bits.is_empty() || bits.len() > 32 { return Err(format!("the code of symbol {} has {} bits", s, bits.len())); }
        // read it back
        let mut k = c[626];
        let mut used = 0;
        for b in bits.iter().rev() {
            if k >= 627 { return Err(format!("the code of symbol {} starts with another code", s)); }
            k = c[(k + b) as usize];
            used += 1;
        }
        if k as usize != 627 + s || used != bits.len() { return Err(format!("the code of symbol {} reads as {}", s, k)); }
        space += 1u64 << (32 - bits.len());
        total += f[leaf] as u64;
        codes.push((f[leaf], bits.len()));
    }
    if space != 1 << 32 { return Err("the code is not complete".into()); }
    if total > 0x8000 || f[626] > 0x8000 { return Err(format!("total weight {} (root {})", total, f[626])); }
    codes.sort();
    // ascending weight: the longest code among heavier ones never exceeds the shortest among lighter ones
    let mut i = 0;
    let mut shortest = usize::MAX;
    while i < codes.len() {
        let mut j = i;
        let mut longest = 0;
        let mut least = usize::MAX;
        while j < codes.len() && codes[j].0 == codes[i].0 { longest = longest.max(codes[j].1); least = least.min(codes[j].1); j += 1; }
        if longest > shortest { return Err(format!("weight {} has a code of {} bits, a lighter symbol one of {}", codes[i].0, longest, shortest)); }
        shortest = shortest.min(least);
        i = j;
    }
    Ok(())
}

/// symbols as runs "s*n"
fn runs(v: &[u16]) -> String {
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() { let mut j = i; while j < v.len() && v[j] == v[i] { j += 1; } o.push(format!("{}*{}", v[i], j - i)); i = j; }
    o.join(" ")
}
fn unruns(s: &str) -> Vec<u16> {
    s.split_whitespace().flat_map(|x| { let (a, b) = x.split_once('*').unwrap(); vec![a.parse::<u16>().unwrap(); b.parse().unwrap()] }).collect()
}

fn table(cx: &mut Ctx, syms: &[u16], every: usize) {
    let v = syms.to_vec();
    cx.case(format!("every={};symbols={}", every, runs(&v)), v.len() > 1, move || {
        let mut t = real::Table::new();
        valid_table(&t)?;
        let mut reb = 0;
        for (i, s) in v.iter().enumerate() {
            let before = t.weights()[626];
            t.update(*s);
            if t.weights()[626] < before { reb = 40; }
            if i % every == 0 || i + 1 == v.len() || reb > 0 || before >= 0x7ffd {
                reb = if reb > 0 { reb - 1 } else { 0 };
                valid_table(&t).map_err(|e| format!("after {} symbols: {}", i + 1, e))?;
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ generators

/// literals and copies; `far`: distances up to 4096
fn tokens(r: &mut Rng, n: usize, far: bool) -> Vec<Token> {
    let style = r.below(5);
    let alpha = *r.pick(&[1usize, 2, 4, 30, 256]);
    (0..n).map(|_| {
        let copy = match style { 0 => false, 1 => r.chance(1, 2), 2 => r.chance(9, 10), _ => r.chance(1, 5) };
        if copy {
            let dist = match r.below(5) { 0 => 1 + r.below(4), 1 => 1 + r.below(300), 2 => 1 + r.below(2048), 3 => 2048 - r.below(3), _ => if far { 1 + r.below(4096) } else { 1 + r.below(64) } };
            let len = match r.below(4) { 0 => 3, 1 => 60, _ => 3 + r.below(58) };
            Token::Copy { len, dist }
        } else {
            Token::Lit(if alpha == 256 { r.byte() } else { (r.below(alpha) * 7 + 60) as u8 })
        }
    }).collect()
}
fn size_of(t: &[Token]) -> usize { t.iter().map(|t| match t { Token::Lit(_) => 1, Token::Copy { len, .. } => *len }).sum() }

/// Symbol counts that grow like Fibonacci numbers make the deepest tables.
fn fib_syms(r: &mut Rng, lits_only: bool, limit: usize, ratio_num: usize, ratio_den: usize) -> Vec<u16> {
    let mut order: Vec<u16> = (0..if lits_only { 256u16 } else { 314 }).collect();
    for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j); }
    let mut v = vec![];
    let mut cum = 314usize;
    for (i, s) in order.iter().enumerate() {
        let n = if i == 0 { 150 } else { cum * ratio_num / ratio_den + 3 };
        if v.len() + n > limit { break; }
        for _ in 0..n { v.push(*s); }
        cum += n;
    }
    // the rare ones now have the longest codes
    for s in order.iter().rev().take(40) { v.push(*s); }
    v
}

fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut m = Vec::with_capacity(n);
    match r.below(9) {
        0 => m = r.bytes(n),
        1 => { let b = r.byte(); m = vec![b; n]; }
        2 => { let p = 1 + r.below(70); let q = r.bytes(p); while m.len() < n { m.extend_from_slice(&q); } }
        3 => { let p = *r.pick(&[250usize, 255, 256, 257, 1000, 1980, 1987, 1988, 1989, 1990, 2040, 2047, 2048, 2049, 2100]); let q = r.bytes(p); while m.len() < n { m.extend_from_slice(&q); } }
        4 => { let w: Vec<Vec<u8>> = (0..40).map(|_| { let k = 2 + r.below(8); r.bytes(k) }).collect(); while m.len() < n { m.extend_from_slice(&w[r.below(40)]); m.push(b' '); } }
        5 => { let a = 2 + r.below(3); m = (0..n).map(|_| b'a' + r.below(a) as u8).collect(); }
        6 => { while m.len() < n { let b = r.byte(); let k = 1 + r.below(130); for _ in 0..k { m.push(b); } } }
        7 => { m = vec![b' '; n]; for _ in 0..n / 50 { let k = r.below(n.max(1)); m[k] = r.byte(); } }
        _ => {
            // copies from anywhere in the window, so every distance and length occurs
            let k = 100 + r.below(2100);
            m = r.bytes(k);
            while m.len() < n {
                let dist = 1 + r.below(m.len().min(2100));
                let len = 1 + r.below(70);
                for _ in 0..len { let b = m[m.len() - dist]; m.push(b); }
                if r.chance(1, 2) { m.push(r.byte()); }
            }
        }
    }
    m.truncate(n);
    m
}

/// a text whose matches make codes of 16 and more bits: the number of matches of one length grows
/// like a Fibonacci number from one length to the next
fn deep_text(r: &mut Rng, ninit: usize, first: usize, slack: usize, tail: usize) -> Vec<u8> {
    let mut m: Vec<u8> = (0..ninit * 4).map(|_| r.below(ninit) as u8 + 40).collect();
    let mut cum = 314 + 4 * ninit;
    let mut before = first;
    let mut k = 0;
    let mut forbid: Option<u8> = None;
    loop {
        let n = before + before * slack / 100 + 2;
        let len = 6 + 3 * k;
        if cum + n > 32600 || len > 58 { break; }
        let mut done = 0;
        for _ in 0..n {
            for _try in 0..50 {
                let lo = m.len().saturating_sub(1900);
                if m.len() < len + 1 || m.len() - len <= lo { break; }
                let src = lo + r.below(m.len() - len - lo);
                if Some(m[src]) == forbid { continue; }
                forbid = Some(m[src + len]);
                let piece = m[src..src + len].to_vec();
                m.extend_from_slice(&piece);
                done += 1;
                break;
            }
        }
        before = cum;
        cum += done;
        k += 1;
    }
    let k = r.byte();
    for b in 0..tail { m.push((b as u8).wrapping_mul(5).wrapping_add(k)); }
    m
}

/// repeats placed at the edges of the ring, followed by a byte that differs from the repeat exactly where the
/// cell it is written to (or that cell's mirror) still holds the byte that would have continued it
fn edge_text(r: &mut Rng) -> Vec<u8> {
    let mut m: Vec<u8> = vec![];
    for _ in 0..1 + r.below(4) {
        // ring position at which the repeat starts: mostly within a look-ahead of an edge
        let pos = match r.below(6) { 0 => r.below(2048), 1 => r.below(62), 2 => 1988usize.saturating_sub(r.below(62)), 3 => 1988 + r.below(60), 4 => 2047, _ => 2047 - r.below(62) };
        let want = 1 + r.below(60);
        // length of the repeat: any, or up to the end of the ring's mirror, or up to the edge itself
        let len = match r.below(4) { 0 => want, 1 => 60 - r.below(3), 2 => (2106usize.saturating_sub(pos)).clamp(1, 60), _ => (2048usize.saturating_sub(pos)).clamp(1, 60) };
        let now = (1988 + m.len()) % 2048;
        let mut gap = (pos + 2048 - now) % 2048;
        if gap < len + 2 { gap += 2048; }
        let at = m.len() + gap;
        let back = match r.below(4) { 0 => len + 1 + r.below(3), 1 => 59 + r.below(4), 2 => 1 + r.below(1988), _ => 1980 + r.below(10) }.clamp(len + 1, 1990.max(len + 1)).min(at);
        while m.len() < at { let b = r.byte(); m.push(b); }
        let src = at - back;
        // what the cell holds before the byte after the repeat is written
        let stale = if at + len >= 2048 { m.get(at + len - 2048).copied().unwrap_or(b' ') } else { b' ' };
        if src + len < at { m[src + len] = stale; }
        for k in 0..len { let b = m[src + k]; m.push(b); }
        if r.chance(1, 4) { break; }
        let mut b = r.byte();
        while b == stale { b = r.byte(); }
        m.push(b);
    }
    let k = r.below(4) * r.below(40);
    for _ in 0..k { let b = r.byte(); m.push(b); }
    m
}

/// messages: every small size, then sizes around the constants of the format, then long ones
fn messages(cx: &mut Ctx, f: fn(&mut Ctx, &[u8])) {
    let deep = cx.deep;
    if !deep {
        f(cx, &[]);
        for b in [0u8, 0x20, 0x61, 0xff] { for n in 1..=130 { f(cx, &vec![b; n]); } }
        for n in 1..=130usize { let m: Vec<u8> = (0..n).map(|i| i as u8).collect(); f(cx, &m); }
        for n in 1..=130usize { let m = cx.rng.bytes(n); f(cx, &m); }
    }
    // distance and length sweep: a marker that recurs exactly `dist` later, `len` long, unique otherwise
    for dist in (3..70).chain([127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025, 1500, 1920, 1980, 1986, 1987, 1988, 1989, 1990, 1991, 2047, 2048, 2049, 2050]) {
        let len = 3 + cx.rng.below(62);
        let mut m: Vec<u8> = vec![];
        let pre = cx.rng.below(2200);
        let head = cx.rng.bytes(pre);
        m.extend_from_slice(&head);
        let marker = cx.rng.bytes(len);
        m.extend_from_slice(&marker);
        if dist > len { let gap = cx.rng.bytes(dist - len); m.extend_from_slice(&gap); }
        m.extend_from_slice(&marker);
        let k = cx.rng.below(100);
        let tail = cx.rng.bytes(k);
        m.extend_from_slice(&tail);
        f(cx, &m);
    }
    for b in [0u8, 0xff] { for n in [1987usize, 1988, 1989, 2047, 2048, 2049, 2107, 2108, 5000] { f(cx, &vec![b; n]); } }
    // long enough to rebuild the table
    for style in 0..3 {
        let n = 33500 + cx.rng.below(2000);
        let m: Vec<u8> = match style { 0 => cx.rng.bytes(n), 1 => (0..n).map(|_| if cx.rng.chance(1, 2) { cx.rng.below(16) as u8 } else { cx.rng.byte() }).collect(), _ => { let mut x = cx.rng.bytes(n * 2); for i in 0..x.len() { if i % 3 == 0 { x[i] = 7; } } x } };
        f(cx, &m);
    }
    for _ in 0..400 { let m = edge_text(&mut cx.rng); f(cx, &m); }
    for ninit in [20usize, 32] { let m = deep_text(&mut cx.rng, ninit, 360, 14, 256); f(cx, &m); }
    while cx.time_left() {
        if cx.rng.chance(1, 3) { let m = edge_text(&mut cx.rng); f(cx, &m); continue; }
        let n = match cx.rng.below(12) { 0..=5 => cx.rng.below(300), 6..=9 => cx.rng.below(5000), 10 => cx.rng.below(20000), _ => if cx.rng.chance(1, 4) { 40000 + cx.rng.below(30000) } else { cx.rng.below(12000) } };
        let m = if cx.rng.chance(1, 60) { let k = 20 + cx.rng.below(12); let f = 310 + cx.rng.below(110); deep_text(&mut cx.rng, k, f, 14, 256) } else { text(&mut cx.rng, n) };
        f(cx, &m);
    }
}

/// streams for the decoder: well-formed ones from tokens, damaged ones, and noise
fn streams(cx: &mut Ctx, f: fn(&mut Ctx, &[u8], usize)) {
    f(cx, &[], 0);
    f(cx, &[], 1);
    for a in 0..=255u8 { for n in [0usize, 1, 2, 3, 60] { f(cx, &[a], n); } }
    for _ in 0..2000 { let k = cx.rng.below(8); let b = cx.rng.bytes(k); let n = cx.rng.below(70); f(cx, &b, n); }
    // every copy length with every class of distance, first thing in a stream and after literals
    for len in 3..=60usize { for dist in [1usize, 2, 59, 60, 61, 64, 65, 128, 192, 256, 257, 512, 1024, 1025, 1988, 1989, 2047, 2048, 2049, 3000, 4096] {
        let toks = [Token::Lit(len as u8), Token::Lit(1), Token::Copy { len, dist }, Token::Lit(2), Token::Copy { len: 3, dist: len + 2 }];
        let (e, _) = rf::encode_tokens(&toks);
        let n = size_of(&toks);
        f(cx, &e, n);
        if dist == 1 { for k in 1..=len + 4 { f(cx, &e, n - k); } f(cx, &e, n + 1); for k in 0..e.len() { f(cx, &e[..k], n); } }
    }}
    for hi in 0..64usize { for lo in [0usize, 1, 31, 32, 63] {
        let toks = [Token::Lit(9), Token::Copy { len: 5, dist: hi * 64 + lo + 1 }, Token::Copy { len: 60, dist: 5 }];
        let (e, _) = rf::encode_tokens(&toks);
        f(cx, &e, 66);
    }}
    // tables with long codes and rebuilt tables
    for k in 0..if cx.thorough { 12 } else { 4 } {
        let (num, den) = *cx.rng.pick(&[(1usize, 1usize), (62, 100), (2, 3), (3, 4)]);
        let limit = if k % 2 == 0 { 32300 } else { 70000 };
        let v = fib_syms(&mut cx.rng, false, limit, num, den);
        let toks: Vec<Token> = v.iter().map(|&s| if s < 256 { Token::Lit(s as u8) } else { Token::Copy { len: s as usize - 253, dist: 1 + cx.rng.below(2048) } }).collect();
        let (e, _) = rf::encode_tokens(&toks);
        f(cx, &e, size_of(&toks));
    }
    while cx.time_left() {
        if cx.rng.chance(1, 5) {
            let k = cx.rng.below(200); let b = cx.rng.bytes(k); let big = cx.rng.chance(1, 10); let n = cx.rng.below(if big { 9000 } else { 400 });
            f(cx, &b, n);
            continue;
        }
        let nt = match cx.rng.below(8) { 0..=4 => 1 + cx.rng.below(60), 5 | 6 => 1 + cx.rng.below(2000), _ => if cx.rng.chance(1, 20) { 36000 } else { 1 + cx.rng.below(6000) } };
        let toks = tokens(&mut cx.rng, nt, true);
        let (e, _) = rf::encode_tokens(&toks);
        let n = size_of(&toks);
        f(cx, &e, n);
        for _ in 0..3 {
            let mut x = e.clone();
            let mut n2 = n;
            match cx.rng.below(4) {
                0 => { let k = cx.rng.below(x.len() + 1); x.truncate(k); }
                1 => { let k = cx.rng.below(x.len().max(1)); if !x.is_empty() { x[k] ^= 1 << cx.rng.below(8); } }
                2 => { n2 = n.saturating_sub(cx.rng.below(70)); }
                _ => { n2 = n + 1 + cx.rng.below(70); }
            }
            f(cx, &x, n2);
        }
    }
}

fn tables(cx: &mut Ctx) {
    table(cx, &[], 1);
    for s in 0..314u16 { table(cx, &[s], 1); table(cx, &[s, s, s ^ 1, s / 2], 1); }
    let all: Vec<u16> = (0..314).collect();
    table(cx, &all, 1);
    for s in [0u16, 255, 256, 313] { table(cx, &vec![s; 66000], 509); }
    for (num, den) in [(1usize, 1usize), (62, 100), (2, 3)] {
        let v = fib_syms(&mut cx.rng, false, 32400, num, den);
        table(cx, &v, 97);
        let v = fib_syms(&mut cx.rng, false, 100000, num, den);
        table(cx, &v, 997);
    }
    while cx.time_left() {
        let n = match cx.rng.below(6) { 0..=2 => cx.rng.below(400), 3 | 4 => cx.rng.below(6000), _ => 30000 + cx.rng.below(60000) };
        let style = cx.rng.below(5);
        let a = 1 + cx.rng.below(314);
        let v: Vec<u16> = (0..n).map(|i| match style {
            0 => cx.rng.below(314) as u16,
            1 => cx.rng.below(a) as u16,
            2 => { let k = cx.rng.below(314); (k * cx.rng.below(314) / 314) as u16 }
            3 => (i % a) as u16,
            _ => { let mut s = 0; while s < 313 && cx.rng.chance(1, 2) { s += 1; } (s * 7 % 314) as u16 }
        }).collect();
        table(cx, &v, (n / 300).max(1));
    }
}

pub fn run(cx: &mut Ctx, prop: &str, replay: Option<String>) {
    cx.rule = match prop {
        "C01" | "C04" => "messages: every length up to 130 of five patterns, markers recurring at 90 distances, periods around 256 and 2048, messages over 33000 bytes (table rebuilt), texts that need codes of 16 and more bits, random mixes; non-trivial: at least two bytes",
        "C05" => "symbol sequences: each symbol, long runs, counts growing like Fibonacci numbers, random mixes of up to 100000 symbols; the code is read back from the tables; non-trivial: at least two symbols",
        _ => "streams: noise, tokens of every copy length and distance class, every position prefix, deep and rebuilt tables, and truncated, bit-flipped or wrongly sized variants; non-trivial: bytes and output not empty",
    }.into();
    if let Some(r) = replay {
        if let Some(m) = r.strip_prefix("message=") {
            let m = unhex(m);
            if prop == "C01" { roundtrip(cx, &m) } else { compressed(cx, &m) }
        } else if let Some(s) = r.strip_prefix("stream=") {
            let (a, b) = s.split_once(";n=").unwrap();
            let (e, n) = (unhex(a), b.parse().unwrap());
            if prop == "C02" { hostile(cx, &e, n) } else { format(cx, &e, n) }
        } else if let Some(s) = r.strip_prefix("every=") {
            let (a, b) = s.split_once(";symbols=").unwrap();
            table(cx, &unruns(b), a.parse().unwrap());
        }
        return;
    }
    match prop {
        "C01" => messages(cx, roundtrip),
        "C04" => messages(cx, compressed),
        "C02" => streams(cx, hostile),
        "C03" => streams(cx, format),
        _ => tables(cx),
    }
}
