//! C07-C11: the message block and proposal parsers against an independent reading of the format
use crate::ctx::*;
use plusendi::verif::fbb::{self as real, Out};

// ------------------------------------------------------------------ independent readers

#[derive(Clone, Debug, PartialEq)]
enum Ref<T> { Yes(T, usize), Need, No }

#[derive(Clone, Debug, PartialEq)]
struct RefBlock { title: Vec<u8>, offset: u32, crc16: u16, size: u32, data: Vec<u8>, lens: Vec<usize> }

fn crc(m: &[u8]) -> u16 {
    let mut s: u32 = 0;
    for &b in m {
        for k in (0..8).rev() {
            let bit = ((s >> 15) & 1) ^ ((b as u32 >> k) & 1);
            s = (s << 1) & 0xffff;
            if bit == 1 { s ^= 0x1021; }
        }
    }
    s as u16
}

fn ref_block(d: &[u8]) -> Ref<RefBlock> {
    if d.is_empty() { return Ref::Need; }
    if d[0] != 1 { return Ref::No; }
    if d.len() < 2 { return Ref::Need; }
    if d[1] > 88 { return Ref::No; }
    let h = d[1] as usize;
    if d.len() < 2 + h { return Ref::Need; }
    let head = &d[2..2 + h];
    let parts: Vec<&[u8]> = head.split(|&b| b == 0).collect();
    if parts.len() != 3 || !parts[2].is_empty() { return Ref::No; }
    if parts[0].iter().any(|&b| b < 0x20 || b > 0x7e) { return Ref::No; }
    if parts[1].is_empty() || parts[1].iter().any(|b| !b.is_ascii_digit()) { return Ref::No; }
    let mut off: u64 = 0;
    for &c in parts[1] { off = (off * 10 + (c - b'0') as u64).min(1 << 40); }
    if off > u32::MAX as u64 { return Ref::No; }
    let mut i = 2 + h;
    let mut payload: Vec<u8> = vec![];
    let mut lens = vec![];
    loop {
        if i >= d.len() { return Ref::Need; }
        match d[i] {
            2 => {
                if i + 1 >= d.len() { return Ref::Need; }
                let n = if d[i + 1] == 0 { 256 } else { d[i + 1] as usize };
                if d.len() < i + 2 + n { return Ref::Need; }
                payload.extend(&d[i + 2..i + 2 + n]);
                lens.push(n);
                i += 2 + n;
            }
            4 => {
                if i + 1 >= d.len() { return Ref::Need; }
                break;
            }
            _ => return Ref::No,
        }
    }
    let sum = payload.iter().fold(d[i + 1], |a, &b| a.wrapping_add(b));
    if lens.is_empty() {
        // no sub-block at all: CRC and size count as zero
        return if sum == 0 { Ref::Yes(RefBlock { title: parts[0].to_vec(), offset: off as u32, crc16: 0, size: 0, data: vec![], lens }, d.len() - i - 2) } else { Ref::No };
    }
    if lens[0] < 6 { return Ref::No; }
    if sum != 0 { return Ref::No; }
    let stored = payload[0] as u16 | (payload[1] as u16) << 8;
    if crc(&payload[2..]) != stored { return Ref::No; }
    let size = payload[2] as u32 | (payload[3] as u32) << 8 | (payload[4] as u32) << 16 | (payload[5] as u32) << 24;
    lens[0] -= 6;
    Ref::Yes(RefBlock { title: parts[0].to_vec(), offset: off as u32, crc16: stored, size, data: payload[6..].to_vec(), lens }, d.len() - i - 2)
}

fn real_block(d: &[u8]) -> (Ref<RefBlock>, Option<usize>) {
    match real::block(d, false) {
        Out::Yes(b, rest) => (Ref::Yes(RefBlock {
            title: b.title.into_bytes(), offset: b.offset, crc16: b.crc16, size: b.uncompressed_size,
            lens: b.blocks.iter().map(|x| x.len()).collect(), data: b.blocks.concat() }, rest), None),
        Out::Need(n) => (Ref::Need, n),
        Out::No => (Ref::No, None),
    }
}

// ------------------------------------------------------------------ building blocks

fn build(title: &[u8], offset: &str, size: u32, data: &[u8], lens: &[usize]) -> Vec<u8> {
    let mut w = vec![1, (title.len() + offset.len() + 2) as u8];
    w.extend(title);
    w.push(0);
    w.extend(offset.as_bytes());
    w.push(0);
    let mut body = size.to_le_bytes().to_vec();
    body.extend(data);
    let c = crc(&body);
    let mut payload = c.to_le_bytes().to_vec();
    payload.extend(body);
    let mut i = 0;
    for &n in lens {
        w.push(2);
        w.push(n as u8);
        w.extend(&payload[i..i + n]);
        i += n;
    }
    assert_eq!(i, payload.len());
    w.push(4);
    w.push(payload.iter().fold(0u8, |a, &b| a.wrapping_add(b)).wrapping_neg());
    w
}

fn title(r: &mut Rng) -> Vec<u8> {
    let n = if r.chance(1, 10) { 0 } else { r.range(1, 75) };
    (0..n).map(|_| 0x20 + (r.byte() % 95)).collect()
}

fn offset(r: &mut Rng, room: usize) -> String {
    let mut s = match r.below(8) {
        0 => "0".to_string(),
        1 => "4294967295".to_string(),
        2 => r.below(100000).to_string(),
        3 => (r.next() as u32).to_string(),
        4 => r.below(70000).to_string(),
        5 => "65536".into(),
        6 => "255".into(),
        _ => "0000".into(),
    };
    while s.len() > room { s.remove(0); }
    if r.chance(1, 8) { while s.len() < room.min(11) { s.insert(0, '0'); } }
    s
}

/// sub-block lengths for a payload of n bytes, the first at least 6
fn cut(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    let style = r.below(4);
    while left > 0 {
        let lo = if v.is_empty() { 6 } else { 1 };
        let hi = left.min(256);
        let mut k = match style { 0 => hi, 1 => r.range(lo, hi), 2 => r.range(lo, hi.min(lo + 4)), _ => *r.pick(&[1usize, 2, 6, 127, 128, 129, 250, 254, 255, 256]) };
        k = k.clamp(lo, hi);
        v.push(k);
        left -= k;
    }
    v
}

fn data(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) { 0 => 0, 1 => r.below(4), 2..=5 => r.below(60), 6 | 7 => 240 + r.below(40), 8 => r.below(1200), _ => 506 + r.below(20) };
    let mut d = match r.below(4) {
        0 => vec![*r.pick(&[0u8, 1, 2, 4, 0x80, 0xff]); n],
        1 => (0..n).map(|_| *r.pick(&[0u8, 1, 2, 4, 6, 250])).collect(),
        _ => r.bytes(n),
    };
    // sometimes aim at a special checksum byte
    if !d.is_empty() && r.chance(1, 3) {
        let want = *r.pick(&[0u8, 1, 0x7f, 0x80, 0x81, 0xff, 2, 4]);
        for x in 0..=255u8 {
            d[0] = x;
            let mut body = vec![0u8, 0, 0, 0];
            body.extend(&d);
            let c = crc(&body).to_le_bytes();
            let s = body.iter().chain(&c).fold(0u8, |a, &b| a.wrapping_add(b)).wrapping_neg();
            if s == want { break; }
        }
    }
    d
}

fn good(r: &mut Rng) -> Vec<u8> {
    let t = title(r);
    let o = offset(r, (86 - t.len()).min(12));
    let d = data(r);
    let size = match r.below(4) { 0 => 0, 1 => r.next() as u32, 2 => u32::MAX, _ => r.below(5000) as u32 };
    let lens = cut(r, d.len() + 6);
    build(&t, &o, size, &d, &lens)
}

fn all_sum(w: &[u8]) -> u8 { w.iter().fold(0u8, |a, &b| a.wrapping_add(b)) }

/// one or more changes to a good block, many of them keeping one of the two checks right
fn damage(r: &mut Rng, w: &mut Vec<u8>) {
    let n = w.len();
    match r.below(14) {
        0 => { let i = r.below(n); w[i] ^= 1 << r.below(8); }
        1 => { let i = r.below(n); w[i] = r.byte(); }
        2 => { // two bytes, sum kept
            let (i, j) = (r.below(n), r.below(n));
            let x = r.byte();
            w[i] = w[i].wrapping_add(x);
            w[j] = w[j].wrapping_sub(x);
        }
        3 => { let i = r.below(n - 1); w.swap(i, i + 1); }
        4 => { let (i, j) = (r.below(n), r.below(n)); w.swap(i, j); }
        5 => { w[n - 1] = w[n - 1].wrapping_add(*r.pick(&[1u8, 0x80, 0xff, 0x10])); }
        6 => { let i = r.below(n); w.remove(i); }
        7 => { let i = r.below(n); let b = *r.pick(&[0u8, 1, 2, 4, 0xff]); w.insert(i, b); }
        8 => { // the stored CRC, with the checksum made right again
            let i = 2 + w[1] as usize + 2 + r.below(2);
            if i < n - 2 { let x = r.byte() | 1; w[i] = w[i].wrapping_add(x); w[n - 1] = w[n - 1].wrapping_sub(x); }
        }
        9 => { // a payload byte, with the checksum made right again
            let i = 2 + w[1] as usize + 2 + r.below(10);
            if i < n - 2 { let x = r.byte() | 1; w[i] = w[i].wrapping_add(x); w[n - 1] = w[n - 1].wrapping_sub(x); }
        }
        10 => { let l = w[1] as usize; w[1] = (l as i32 + r.range(0, 6) as i32 - 3) as u8; }
        11 => { w[1] = *r.pick(&[87u8, 88, 89, 90, 128, 255, 0, 1, 2]); }
        12 => { // header contents
            let l = w[1] as usize;
            if l > 0 { let i = (2 + r.below(l)).min(n - 1); w[i] = *r.pick(&[0u8, b' ', b'0', b'9', 0x1f, 0x7f, 0x80, 0xff, b'a', b'+', b'-', b'\r']); }
        }
        _ => { let i = r.below(n); w.truncate(i); }
    }
}

/// headers at the edges: length 88, wrong offsets, extra NULs
fn odd_header(r: &mut Rng) -> Vec<u8> {
    let body = { let d = vec![7u8, 9]; let l = cut(r, 8); build(b"", "0", 2, &d, &l)[5..].to_vec() };
    let tlen = *r.pick(&[0usize, 1, 10, 60, 73, 74, 75, 76, 77, 83, 84, 85, 86]);
    let t: Vec<u8> = (0..tlen).map(|_| 0x20 + r.byte() % 95).collect();
    let o: &[u8] = *r.pick(&[&b"0"[..], b"", b"4294967295", b"4294967296", b"99999999999", b"+5", b"-1", b"1 ", b" 1", b"12a", b"0000000000", b"4294967300", b"00004294967295", b"18446744073709551617", b"1\0", b"\0"]);
    let mut h = t;
    h.push(0);
    h.extend(o);
    if r.chance(9, 10) { h.push(0); }
    if r.chance(1, 10) { h.push(b'x'); }
    let mut w = vec![1, h.len() as u8];
    w.extend(h);
    w.extend(body);
    w
}

// ------------------------------------------------------------------ C07, C08, C09

fn check_block(cx: &mut Ctx, prop: &str, w: Vec<u8>) {
    let p = prop.to_string();
    let want = ref_block(&w);
    cx.case(format!("block={}", hex(&w)), w.len() > 4, move || {
        let (got, _) = real_block(&w);
        match (&want, &got) {
            (Ref::Yes(..), _) if p == "C08" || p == "C09" => {
                if got == want { Ok(()) } else { Err(format!("an intact block is not read as it stands: got {:?}", short(&got))) }
            }
            (Ref::Yes(..), Ref::Yes(..)) => if got == want { Ok(()) } else { Err(format!("the block is not read as it stands: got {:?}", short(&got))) },
            (Ref::Yes(..), Ref::No) => Err("an intact block is rejected".into()),
            (_, Ref::Yes(..)) => Err("a block that is not intact is accepted".into()),
            (Ref::No, Ref::Need) => Err("a malformed block is not rejected but waits for more input".into()),
            _ => Ok(()),
        }
    });
}
fn short(r: &Ref<RefBlock>) -> String { let mut s = format!("{:?}", r); s.truncate(300); s }

fn check_prefixes(cx: &mut Ctx, w: Vec<u8>, every: bool) {
    let n = w.len();
    let mut at: Vec<usize> = if every || n <= 90 { (0..n).collect() } else {
        let mut v: Vec<usize> = (0..60).map(|_| cx.rng.below(n)).collect();
        v.extend(0..6); v.extend(n - 6..n);
        v
    };
    at.sort_unstable();
    at.dedup();
    let full = w.clone();
    cx.case(format!("prefixes={}:{:?}", hex(&w), if every || n <= 90 { vec![] } else { at.clone() }), true, move || {
        for k in at {
            match real_block(&full[..k]) {
                (Ref::Need, None) => {}
                (Ref::Need, Some(m)) => if m == 0 || m > n - k { return Err(format!("the first {} of {} bytes: {} more bytes demanded, {} are missing", k, n, m, n - k)); },
                (Ref::No, _) => return Err(format!("the first {} of {} bytes of a well-formed block are reported as an error", k, n)),
                (Ref::Yes(..), _) => return Err(format!("the first {} of {} bytes of a well-formed block are accepted", k, n)),
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C10

fn sep(b: u8) -> bool { b == b' ' || b == b'\r' }

/// a cursor over a line: `None` = truncated, `Err` = wrong
struct Cur<'a> { d: &'a [u8], i: usize }
enum Stop { Need, No }
impl<'a> Cur<'a> {
    fn lit(&mut self, s: &[u8]) -> Result<(), Stop> {
        for &b in s {
            if self.i >= self.d.len() { return Err(Stop::Need); }
            if self.d[self.i] != b { return Err(Stop::No); }
            self.i += 1;
        }
        Ok(())
    }
    /// a field of 1 to max bytes up to a separator
    fn field(&mut self, max: usize) -> Result<&'a str, Stop> {
        let s = self.i;
        while self.i < self.d.len() && self.i - s < max && !sep(self.d[self.i]) { self.i += 1; }
        if self.i == s { return Err(if self.i >= self.d.len() { Stop::Need } else { Stop::No }); }
        if self.i - s < max && self.i >= self.d.len() { return Err(Stop::Need); }
        std::str::from_utf8(&self.d[s..self.i]).map_err(|_| Stop::No)
    }
    fn number(&mut self) -> Result<u16, Stop> {
        let s = self.i;
        while self.i < self.d.len() && self.i - s < 6 && self.d[self.i].is_ascii_digit() { self.i += 1; }
        if self.i == s { return Err(if self.i >= self.d.len() { Stop::Need } else { Stop::No }); }
        if self.i - s < 6 && self.i >= self.d.len() { return Err(Stop::Need); }
        let mut v = 0u32;
        for &c in &self.d[s..self.i] { v = v * 10 + (c - b'0') as u32; }
        if v > 65535 { Err(Stop::No) } else { Ok(v as u16) }
    }
}

fn ref_basic(d: &[u8]) -> Ref<String> {
    let mut c = Cur { d, i: 0 };
    let r = (|| -> Result<String, Stop> {
        c.lit(b"F")?;
        if c.i >= d.len() { return Err(Stop::Need); }
        if d[c.i] != b'A' && d[c.i] != b'B' { return Err(Stop::No); }
        c.i += 1;
        c.lit(b" ")?;
        if c.i >= d.len() { return Err(Stop::Need); }
        let t = match d[c.i] { b'P' => "Private", b'B' => "Bulletin", b'T' => "Traffic", _ => return Err(Stop::No) };
        c.i += 1;
        c.lit(b" ")?;
        let from = c.field(6)?;
        c.lit(b" ")?;
        let bbs = c.field(40)?;
        c.lit(b" ")?;
        let to = c.field(6)?;
        c.lit(b" ")?;
        let id = c.field(12)?;
        c.lit(b" ")?;
        let size = c.number()?;
        c.lit(b"\r")?;
        Ok(format!("{} from {:?} to {:?} at {:?} id {:?} size {}", t, from, to, bbs, id, size))
    })();
    match r { Ok(s) => Ref::Yes(s, d.len() - c.i), Err(Stop::Need) => Ref::Need, Err(Stop::No) => Ref::No }
}
fn real_basic(d: &[u8]) -> Ref<String> {
    match real::basic(d) {
        Out::Yes(p, rest) => Ref::Yes(format!("{:?} from {:?} to {:?} at {:?} id {:?} size {}", p.message_type, p.sender, p.recipient, p.mbo, p.message_id, p.message_size), rest),
        Out::Need(_) => Ref::Need,
        Out::No => Ref::No,
    }
}
fn ref_extended(d: &[u8]) -> Ref<String> {
    let mut c = Cur { d, i: 0 };
    let r = (|| -> Result<String, Stop> {
        c.lit(b"FC EM ")?;
        let id = c.field(12)?;
        c.lit(b" ")?;
        let full = c.number()?;
        c.lit(b" ")?;
        let packed = c.number()?;
        if c.i >= d.len() { return Err(Stop::Need); }
        let mut ext = "none".to_string();
        if d[c.i] == b' ' {
            c.i += 1;
            let from = c.field(6)?;
            c.lit(b" ")?;
            let bbs = c.field(40)?;
            c.lit(b" ")?;
            let to = c.field(6)?;
            ext = format!("from {:?} to {:?} at {:?}", from, to, bbs);
        }
        c.lit(b"\r")?;
        Ok(format!("id {:?} uncompressed {} compressed {} extension {}", id, full, packed, ext))
    })();
    match r { Ok(s) => Ref::Yes(s, d.len() - c.i), Err(Stop::Need) => Ref::Need, Err(Stop::No) => Ref::No }
}
fn real_extended(d: &[u8]) -> Ref<String> {
    match real::extended(d) {
        Out::Yes(p, rest) => Ref::Yes(format!("id {:?} uncompressed {} compressed {} extension {}", p.message_id, p.uncompressed_message_size, p.compressed_message_size,
            match p.extension { None => "none".to_string(), Some((s, m, r)) => format!("from {:?} to {:?} at {:?}", s, r, m) }), rest),
        Out::Need(_) => Ref::Need,
        Out::No => Ref::No,
    }
}

fn check_line(cx: &mut Ctx, kind: &str, d: Vec<u8>) {
    let k = kind.to_string();
    cx.case(format!("{}={}", kind, hex(&d)), d.len() > 3, move || {
        let (want, got) = if k == "basic" { (ref_basic(&d), real_basic(&d)) } else { (ref_extended(&d), real_extended(&d)) };
        let show = String::from_utf8_lossy(&d).into_owned();
        match (&want, &got) {
            (a, b) if a == b => Ok(()),
            (Ref::Yes(a, r), Ref::Yes(b, s)) => Err(format!("{:?} means {} with {} bytes left, read as {} with {} left", show, a, r, b, s)),
            (Ref::Yes(a, _), _) => Err(format!("{:?} means {}, but is {}", show, a, if got == Ref::Need { "reported as incomplete" } else { "rejected" })),
            (_, Ref::Yes(b, _)) => Err(format!("{:?} is {} but is read as {}", show, if want == Ref::Need { "incomplete" } else { "malformed" }, b)),
            // truncated lines must be incomplete; malformed ones may be refused early or late
            (Ref::Need, _) => Err(format!("{:?} is the beginning of a proposal but is rejected", show)),
            (_, _) => Err(format!("{:?} is malformed but is reported as incomplete", show)),
        }
    });
}

fn token(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = if r.chance(1, 6) { max } else { r.range(1, max) };
    match r.below(6) {
        0 => (0..n).map(|_| 0x21 + r.byte() % 94).collect(),
        1 => { let mut v = vec![]; while v.len() < n { if n - v.len() >= 2 && r.chance(1, 3) { v.extend("é".as_bytes()); } else { v.push(b'A' + r.byte() % 26); } } v }
        2 => (0..n).map(|_| b'0' + r.byte() % 10).collect(),
        3 => (0..n).map(|_| *r.pick(b"ABPT ".as_slice().split_last().unwrap().1)).collect(),
        _ => (0..n).map(|_| *r.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.@")).collect(),
    }
}
fn number(r: &mut Rng) -> Vec<u8> {
    match r.below(9) {
        0 => b"0".to_vec(), 1 => b"65535".to_vec(), 2 => b"065535".to_vec(), 3 => b"255".to_vec(), 4 => b"256".to_vec(), 5 => b"000001".to_vec(), 6 => b"32768".to_vec(),
        _ => r.below(65536).to_string().into_bytes(),
    }
}
fn bad_number(r: &mut Rng) -> Vec<u8> {
    r.pick(&[&b"65536"[..], b"65537", b"99999", b"999999", b"131071", b"0065535", b"0000001", b"", b"-1", b"+5", b"12a", b"1.5", b"100000", b"065536", b"70000"]).to_vec()
}
fn bad_token(r: &mut Rng, max: usize) -> Vec<u8> {
    match r.below(4) { 0 => vec![], 1 => vec![b'A'; max + 1], 2 => { let mut v = vec![b'A'; max - 1]; v.push(0xff); v } _ => { let mut v = vec![b'A'; max]; v[max / 2] = 0xc3; v } }
}
fn proposal(r: &mut Rng, basic: bool, bad: bool) -> Vec<u8> {
    let mut f: Vec<Vec<u8>> = if basic {
        vec![r.pick(&[&b"FA"[..], b"FB"]).to_vec(), r.pick(&[&b"P"[..], b"B", b"T"]).to_vec(), token(r, 6), token(r, 40), token(r, 6), token(r, 12), number(r)]
    } else {
        vec![b"FC".to_vec(), b"EM".to_vec(), token(r, 12), number(r), number(r)]
    };
    let has_ext = !basic && r.chance(1, 2);
    if has_ext { f.push(token(r, 6)); f.push(token(r, 40)); f.push(token(r, 6)); }
    let limits: Vec<usize> = if basic { vec![0, 0, 6, 40, 6, 12, 0] } else { vec![0, 0, 12, 0, 0, 6, 40, 6] };
    let mut seps: Vec<Vec<u8>> = vec![b" ".to_vec(); f.len() - 1];
    let mut end = b"\r".to_vec();
    if bad {
        for _ in 0..r.range(1, 2) {
            match r.below(6) {
                0 | 1 => {
                    let i = r.range(1, f.len() - 1);
                    f[i] = if limits[i] > 0 { bad_token(r, limits[i]) } else if i == 1 { r.pick(&[&b"X"[..], b"p", b"PP", b"", b"E", b"EN", b"em"]).to_vec() } else { bad_number(r) };
                }
                2 => { let i = r.below(seps.len()); seps[i] = r.pick(&[&b""[..], b"  ", b"\t", b"\r", b"\n", b"\r "]).to_vec(); }
                3 => end = r.pick(&[&b"\n"[..], b" \r", b"", b" 0\r", b"\0", b"  "]).to_vec(),
                4 => { f[0] = r.pick(&[&b"FD"[..], b"fa", b"F", b"A", b"FC", b"FA", b"FB", b"FS", b"F>"]).to_vec(); }
                _ => { let i = r.below(f.len()); f.remove(i); seps.pop(); }
            }
        }
    }
    let mut d = vec![];
    for (i, x) in f.iter().enumerate() {
        if i > 0 && i - 1 < seps.len() { d.extend(&seps[i - 1]); }
        d.extend(x);
    }
    d.extend(end);
    d
}

// ------------------------------------------------------------------ C11

fn ref_answers(n: usize, d: &[u8]) -> Ref<Vec<String>> {
    let mut c = Cur { d, i: 0 };
    let r = (|| -> Result<Vec<String>, Stop> {
        c.lit(b"FS ")?;
        let mut v = vec![];
        for _ in 0..n {
            if c.i >= d.len() { return Err(Stop::Need); }
            let s = d[c.i];
            c.i += 1;
            v.push(match s {
                b'+' | b'Y' | b'H' => "accept".to_string(),
                b'!' | b'A' => { let o = c.number()?; if o == 0 { "accept".to_string() } else { format!("accept from {}", o) } }
                b'=' | b'L' => "defer".to_string(),
                b'-' | b'N' | b'R' | b'E' => "reject".to_string(),
                _ => return Err(Stop::No),
            });
        }
        Ok(v)
    })();
    match r { Ok(s) => Ref::Yes(s, d.len() - c.i), Err(Stop::Need) => Ref::Need, Err(Stop::No) => Ref::No }
}
fn real_answers(n: usize, d: &[u8]) -> Ref<Vec<String>> {
    use plusendi::fbb::MessageChoice::*;
    match real::answers(n, d) {
        Out::Yes(v, rest) => Ref::Yes(v.iter().map(|c| match c { Accept { offset: 0 } => "accept".to_string(), Accept { offset } => format!("accept from {}", offset), Defer => "defer".into(), Reject => "reject".into() }).collect(), rest),
        Out::Need(_) => Ref::Need,
        Out::No => Ref::No,
    }
}
fn check_answers(cx: &mut Ctx, n: usize, d: Vec<u8>) {
    cx.case(format!("answers={}:{}", n, hex(&d)), n > 0 && d.len() > 3, move || {
        let (want, got) = (ref_answers(n, &d), real_answers(n, &d));
        if want == got { return Ok(()); }
        Err(format!("{:?} with {} answers wanted: {:?}, read as {:?}", String::from_utf8_lossy(&d), n, want, got))
    });
}

// ------------------------------------------------------------------ drivers

pub fn run(cx: &mut Ctx, prop: &str, replay: Option<String>) {
    if let Some(r) = replay {
        let (k, v) = r.split_once('=').unwrap();
        match k {
            "block" => check_block(cx, prop, unhex(v)),
            "prefixes" => { let h = v.split(':').next().unwrap(); check_prefixes(cx, unhex(h), true) }
            "basic" | "extended" => check_line(cx, k, unhex(v)),
            "answers" => { let (n, h) = v.split_once(':').unwrap(); check_answers(cx, n.parse().unwrap(), unhex(h)) }
            _ => {}
        }
        return;
    }
    match prop {
        "C07" => {
            cx.rule = "message blocks built with right checks and then damaged (bit flips, changes that keep one of the two checks, framing and header damage), odd headers, random bytes; judged by an independent reader of the format; non-trivial: more than 4 bytes".into();
            // a first sub-block of every length, and none at all
            for n in 0..8usize { let mut w = b"\x01\x03\x000\0".to_vec(); if n > 0 { w.push(2); w.push(n as u8); w.extend(vec![0; n]); } w.extend([4, 0]); check_block(cx, prop, w.clone()); *w.last_mut().unwrap() = 1; check_block(cx, prop, w); }
            for b in 0..=255u8 { for h in 0..=255u8 { check_block(cx, prop, vec![b, h, 0, b'0', 0, 4, 0]); } if !cx.time_left() { break; } }
            while cx.time_left() {
                let mut w = match cx.rng.below(8) { 0 => odd_header(&mut cx.rng), _ => good(&mut cx.rng) };
                // every single-byte damage of a short block now and then
                if w.len() < 40 && cx.rng.chance(1, 10) {
                    for i in 0..w.len() { for b in 0..=255u8 { if b != w[i] { let mut v = w.clone(); v[i] = b; check_block(cx, prop, v); } } }
                }
                // every wrong checksum of this block
                if cx.rng.chance(1, 10) { for b in 0..=255u8 { let mut v = w.clone(); *v.last_mut().unwrap() = b; check_block(cx, prop, v); } }
                for _ in 0..6 {
                    let mut v = w.clone();
                    for _ in 0..cx.rng.range(1, 3) { if v.len() > 3 { damage(&mut cx.rng, &mut v); } }
                    check_block(cx, prop, v);
                }
                if cx.rng.chance(1, 50) { let n = cx.rng.below(40); w = cx.rng.bytes(n); if n > 0 { w[0] = 1; } }
                check_block(cx, prop, w);
            }
        }
        "C08" => {
            cx.rule = "well-formed blocks with right checks (titles of 0..75 characters, offsets up to 2^32-1, sub-blocks of 1..256 bytes in several cuttings) followed by arbitrary bytes; non-trivial: more than 4 bytes".into();
            for n in 1..=256usize { for m in [1usize, 2, 255, 256] {
                let total = n.max(6) + m;
                let d: Vec<u8> = (0..total - 6).map(|i| (i * 7 + n) as u8).collect();
                let w = build(b"t", "0", total as u32, &d, &[n.max(6), m]);
                check_block(cx, prop, w.clone());
                let mut v = w; v.extend([4, 0, 2]); check_block(cx, prop, v);
            } }
            for n in 0..=75usize { let t: Vec<u8> = (0..n).map(|i| 0x20 + ((i * 13 + n) % 95) as u8).collect(); let w = build(&t, "12", 1, b"x", &[7]); check_block(cx, prop, w); }
            for n in [0usize, 1, 2, 5, 40, 200] { // many sub-blocks
                let d = cx.rng.bytes(n);
                let mut l = vec![6]; l.extend(vec![1; n]);
                let w = build(b"many", "0", 0, &d, &l);
                check_block(cx, prop, w);
            }
            while cx.time_left() {
                let mut w = good(&mut cx.rng);
                let k = match cx.rng.below(4) { 0 => 0, 1 => 1, _ => cx.rng.below(30) };
                let t = cx.rng.bytes(k);
                w.extend(t);
                if cx.rng.chance(1, 4) { let v = good(&mut cx.rng); w.extend(v); }
                check_block(cx, prop, w);
            }
        }
        "C09" => {
            cx.rule = "well-formed blocks, every prefix of short ones and a sample of prefixes of long ones; a stated need is compared with what is missing; non-trivial: every case".into();
            let s: Vec<usize> = (1..=256).collect();
            for &n in &s { let d: Vec<u8> = vec![n as u8; n.max(6)]; let w = build(b"p", "0", 1, &d[..], &[n.max(6), d.len() + 6 - n.max(6)].iter().copied().filter(|&x| x > 0).collect::<Vec<_>>()); check_prefixes(cx, w, true); }
            while cx.time_left() {
                let w = good(&mut cx.rng);
                let every = cx.rng.chance(1, 20);
                check_prefixes(cx, w, every);
            }
        }
        "C10" => {
            cx.rule = "proposal lines (FA/FB and FC) with tokens up to the limits, every prefix, damaged fields, separators and sizes, judged by an independent reader; non-trivial: more than 3 bytes".into();
            // every size
            for n in 0..=70000u32 {
                check_line(cx, "basic", format!("FA P A B C D {}\r", n).into_bytes());
                if n % 7 == 0 { check_line(cx, "extended", format!("FC EM D {} {}\r", n, 70000 - n).into_bytes()); }
            }
            while cx.time_left() {
                let basic = cx.rng.chance(1, 2);
                let kind = if basic { "basic" } else { "extended" };
                let bad = cx.rng.chance(1, 2);
                let mut d = proposal(&mut cx.rng, basic, bad);
                if cx.rng.chance(1, 5) && !d.is_empty() { let i = cx.rng.below(d.len()); d[i] = *cx.rng.pick(&[b' ', b'\r', b'\n', 0, 0xff, b'A', b'0', b'P']); }
                if cx.rng.chance(1, 4) { for k in 0..d.len() { check_line(cx, kind, d[..k].to_vec()); } }
                if cx.rng.chance(1, 4) { let n = cx.rng.below(10); let t = cx.rng.bytes(n); d.extend(t); }
                check_line(cx, kind, d);
            }
        }
        "C11" => {
            cx.rule = "answer lines for 0-5 and 9 answers, every sign, every offset 0..=70000, all short sign sequences, truncations; judged by an independent reader; non-trivial: at least one answer".into();
            for b in 0..=255u8 { check_answers(cx, 1, vec![b'F', b'S', b' ', b]); check_answers(cx, 2, vec![b'F', b'S', b' ', b, b'+', b'-']); check_answers(cx, 1, vec![b'F', b'S', b' ', b, b'7', b'\r']); check_answers(cx, 1, vec![b'F', b'S', b, b'+']); }
            for n in 0..=70000u32 { for s in ['!', 'A'] { check_answers(cx, 2, format!("FS {}{}=\r", s, n).into_bytes()); } }
            let signs = b"+YH=LNRE-!A";
            for a in signs { for b in signs { for c in signs { for n in 0..=3usize {
                let mut d = b"FS ".to_vec();
                for x in [a, b, c] { d.push(*x); if *x == b'!' || *x == b'A' { d.extend(b"12"); } }
                d.push(b'\r');
                check_answers(cx, n, d);
            } } } }
            while cx.time_left() {
                let n = *cx.rng.pick(&[0usize, 1, 2, 3, 4, 5, 9]);
                let k = if cx.rng.chance(3, 4) { n } else { cx.rng.below(11) };
                let mut d = b"FS ".to_vec();
                for _ in 0..k {
                    let s = *cx.rng.pick(signs);
                    d.push(s);
                    if s == b'!' || s == b'A' { let x = if cx.rng.chance(1, 10) { bad_number(&mut cx.rng) } else { number(&mut cx.rng) }; d.extend(x); }
                }
                d.extend(*cx.rng.pick(&[&b"\r"[..], b"", b" \r", b"+", b"\n"]));
                if cx.rng.chance(1, 6) { let i = cx.rng.below(d.len()); d[i] = cx.rng.byte(); }
                if cx.rng.chance(1, 6) { let i = cx.rng.below(d.len()); d.truncate(i); }
                check_answers(cx, n, d);
            }
        }
        _ => unreachable!(),
    }
    let _ = all_sum;
}
