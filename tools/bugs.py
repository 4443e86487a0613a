"""Planted bugs: each breaks one property, compiles, and passes the repository's own tests."""
LZ, FBB, VARA, KX3, TY, CRC = "src/lzhuf.rs", "src/fbb.rs", "src/modem/vara.rs", "src/rig/elecraft/kx3.rs", "src/types.rs", "src/crc16.rs"

RT = r'''
fn pack(m: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut e = Encoder::new(&mut out);
    e.encode(m.iter().copied());
    e.finish();
    out
}
fn unpack(z: &[u8], n: usize) -> Option<Vec<u8>> {
    let mut buf = vec![0u8; n];
    Decoder::new(z.iter().copied()).decode(&mut buf).ok().map(|_| buf)
}
fn noise(seed: u32, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2654435761).wrapping_add(12345);
    (0..n).map(|_| { x ^= x << 13; x ^= x >> 17; x ^= x << 5; (x >> 11) as u8 }).collect()
}
'''

BLK = r'''
fn wire(title: &[u8], offset: &str, size: u32, data: &[Vec<u8>]) -> Vec<u8> {
    let mut crc = 0u16;
    let mut feed = |b: u8| {
        crc ^= (b as u16) << 8;
        for _ in 0..8 { crc = if crc & 0x8000 != 0 { (crc << 1) ^ 0x1021 } else { crc << 1 }; }
    };
    size.to_le_bytes().iter().for_each(|&b| feed(b));
    data.iter().flatten().for_each(|&b| feed(b));
    let mut v = vec![1, (title.len() + offset.len() + 2) as u8];
    v.extend_from_slice(title); v.push(0); v.extend_from_slice(offset.as_bytes()); v.push(0);
    let mut sum = 0u8;
    for (i, d) in data.iter().enumerate() {
        let mut p = Vec::new();
        if i == 0 { p.extend_from_slice(&crc.to_le_bytes()); p.extend_from_slice(&size.to_le_bytes()); }
        p.extend_from_slice(d);
        p.iter().for_each(|&b| sum = sum.wrapping_add(b));
        v.push(2); v.push(p.len() as u8); v.extend_from_slice(&p);
    }
    v.push(4); v.push(0u8.wrapping_sub(sum));
    v
}
fn good(v: &[u8]) -> bool { matches!(b2_message_block(v), Ok((r, _)) if r.is_empty()) }
fn need(v: &[u8]) -> Option<usize> {
    match b2_message_block(v) {
        Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Some(n.get()),
        Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Some(0),
        _ => None,
    }
}
'''

VARA_PRELUDE = r'''
use std::time::Duration;
use tokio::io::AsyncReadExt;
use tokio::net::TcpListener;
use tokio::sync::oneshot;
type Cmds = tokio::sync::mpsc::Sender<(Command, oneshot::Sender<CommandResult>)>;
/// the modem task against a scripted peer on the loopback
async fn session() -> (Cmds, TncStatusReceiver, tokio::task::JoinHandle<color_eyre::Result<()>>, TcpStream) {
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let (a, b) = tokio::join!(TcpStream::connect(l.local_addr().unwrap()), l.accept());
    let peer = b.unwrap().0;
    peer.set_nodelay(true).unwrap();
    let (ctx, crx) = tokio::sync::mpsc::channel(8);
    let (stx, srx) = channel();
    let task = tokio::spawn(manage_modem_thread(crx, stx, a.unwrap()));
    (ctx, srx, task, peer)
}
/// a modem built through the public interface: (tnc, control peer, data peer)
async fn modem() -> (VaraTnc, TcpStream, TcpStream) {
    let c = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let d = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let mut b = VaraTnc::builder();
    b.control_port(c.local_addr().unwrap().port().try_into().unwrap());
    b.data_port(d.local_addr().unwrap().port().try_into().unwrap());
    let (t, c, d) = tokio::join!(b.build(), c.accept(), d.accept());
    (t.unwrap(), c.unwrap().0, d.unwrap().0)
}
async fn say(s: &mut TcpStream, text: &str) { s.write_all(text.as_bytes()).await.unwrap(); s.flush().await.unwrap(); }
async fn pause() { tokio::time::sleep(Duration::from_millis(60)).await }
async fn heard(s: &mut TcpStream) -> String {
    let mut out = Vec::new();
    let mut b = [0u8; 256];
    while let Ok(Ok(n)) = tokio::time::timeout(Duration::from_millis(200), s.read(&mut b)).await {
        if n == 0 { break }
        out.extend_from_slice(&b[..n]);
    }
    String::from_utf8(out).unwrap()
}
async fn soon<T>(f: impl Future<Output = T>) -> T { tokio::time::timeout(Duration::from_secs(5), f).await.expect("nothing happened in time") }
fn id(s: &str) -> StationId { StationId::new(s).unwrap() }
'''

BUGS = []
def bug(id, property, file, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, file=file, edits=[(file if len(e) == 2 else e[0],) + tuple(e[-2:]) for e in edits], needs=needs, breaks=breaks, demo=demo, **kw))

# ---------------------------------------------------------------- C01
bug("C01-mirror-edge", "C01", LZ, [("if s < F - 1 {", "if s < F - 2 {")],
    "a 60-byte repeat that is coded exactly when the ring position is 2047, so that its last byte lies on the last mirrored byte of the window",
    "the last mirror byte of the encoder's window goes stale and a match is coded that does not match",
    RT + r'''
#[test]
fn wraps() {
    for first in [0x20u8] {
        let mut m = vec![first];
        m.extend((0..58u8).map(|i| 0x40 + i));
        let mut t = m.clone();
        t.extend_from_slice(&m);
        t.extend_from_slice(&[0x21, 0x7e, 0x0a, 0x21]);
        assert_eq!(unpack(&pack(&t), t.len()), Some(t));
    }
}''')
bug("C01-tail-clamp", "C01", LZ, [("if self.match_length > len {\n                self.match_length = len;", "if self.match_length > len + 1 {\n                self.match_length = len;")],
    "a message whose last match would run exactly one byte past its end because the stale look-ahead happens to agree there",
    "the last match is coded one byte too long and the message no longer decompresses to its length",
    RT + r'''
#[test]
fn ends_on_a_repeat() {
    for m in [&b"abc abc"[..], b"wxyz wxyz", b"the end the end", b"aaaa", b"q", b"hello"] {
        assert_eq!(unpack(&pack(m), m.len()).as_deref(), Some(m));
    }
}''')
bug("C01-sentinel", "C01", LZ, [("frequency_table[T as usize] = 0xffff;", "frequency_table[T as usize] = MAX_FREQ - 1;")],
    "more than 32000 symbols in one message: the weight of the root must reach 0x8000",
    "the sentinel above the root is passed and the table walk leaves the array",
    RT + r'''
#[test]
fn long_message() {
    let m = noise(5, 34000);
    assert_eq!(unpack(&pack(&m), m.len()), Some(m));
}''')
# ---------------------------------------------------------------- C02
bug("C02-seven-bits", "C02", LZ, [("if self.bit_pos < 8 {\n            return None;", "if self.bit_pos < 7 {\n            return None;")],
    "a stream that ends with exactly seven bits left when the first byte of a match position is due",
    "the bit counter underflows and the decoder panics instead of reporting the end of the data",
    RT + r'''
#[test]
fn ends_inside_a_position() {
    for n in 0..40 {
        let mut m = noise(77, n);
        m.extend_from_slice(b"abcabcabcabcabcabc");
        let z = pack(&m);
        for k in 0..z.len() {
            let _ = unpack(&z[..k], m.len());
            for x in 0..=255u8 {
                let mut y = z[..k].to_vec();
                y.push(x);
                let _ = unpack(&y, m.len() + 9);
            }
        }
    }
}''')
bug("C02-short-success", "C02", LZ, [("let c = self.decode_char().ok_or(UnexpectedEof)?;", "let c = match self.decode_char() { Some(c) => c, None if count + 1 == buffer.len() => return Ok(()), None => return Err(UnexpectedEof) };")],
    "a stream cut exactly before its last symbol",
    "success is reported with the last byte of the output never written",
    RT + r'''
#[test]
fn cut_before_the_last_symbol() {
    for n in 1..60 {
        let m: Vec<u8> = noise(n as u32, n).into_iter().map(|b| b | 1).collect();
        let z = pack(&m);
        for k in 0..z.len() {
            if let Some(o) = unpack(&z[..k], m.len()) {
                assert_eq!(o, m, "cut at {} of {}", k, z.len());
            }
        }
    }
}''')
# ---------------------------------------------------------------- C03
bug("C03-rebuild-ties", "C03", LZ, [("while f < self.frequency_table[k as usize] {", "while f <= self.frequency_table[k as usize] {")],
    "a stream long enough to rebuild the table, at which point equal weights must be merged in the published order",
    "after the rebuild both ends of this program use another code than every other station",
    RT + r'''
/// the rebuild as published
fn rebuilt(freq: &[u16], son: &[u16]) -> (Vec<u16>, Vec<u16>) {
    let (t, n) = (627usize, 314usize);
    let mut f: Vec<u16> = Vec::new();
    let mut s: Vec<u16> = Vec::new();
    for i in 0..t { if son[i] as usize >= t { f.push((freq[i] + 1) / 2); s.push(son[i]); } }
    for j in n..t {
        let i = 2 * (j - n);
        let w = f[i] + f[i + 1];
        let mut k = j;
        while w < f[k - 1] { k -= 1; }
        f.insert(k, w);
        s.insert(k, i as u16);
    }
    (f, s)
}
#[test]
fn rebuild_is_the_published_one() {
    let mut st = LzHufState::new();
    for b in noise(9, 32454) {
        st.update(b as u16 & 0x7f);
    }
    let (f, s) = rebuilt(&st.frequency_table, &st.children);
    st.reconstruct();
    assert_eq!(&st.frequency_table[..627], &f[..]);
    assert_eq!(&st.children[..], &s[..]);
}''')
bug("C03-position-table", "C03", LZ, [
    ("    0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF,\n];", "    0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0xFE, 0xFD, 0xFF,\n];"),
    ("    0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0x3E, 0x3F,\n];", "    0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3E, 0x3D, 0x3F,\n];")],
    "a match whose position lies between 3904 and 4031 bytes back in code space, that is position codes 0x3D and 0x3E; both tables are changed alike so a round trip does not show it",
    "two position codes are exchanged at both ends: messages of other stations decode wrongly",
    RT + r'''
#[test]
fn position_codes_are_the_published_ones() {
    for i in 0..64usize {
        let b = p_code[i] as usize;
        assert_eq!(DECODE_CODE[b] as usize, i);
        if i > 0 { assert!(p_code[i] > p_code[i - 1]); }
    }
    // sixteen codes of eight bits each
    assert_eq!(DECODE_CODE[0xF0..].to_vec(), (0x30..0x40u8).collect::<Vec<_>>());
}''')
bug("C03-halving", "C03", LZ, [("self.frequency_table[j as usize] = (self.frequency_table[i as usize] + 1) / 2;", "self.frequency_table[j as usize] = self.frequency_table[i as usize] / 2 + 1;")],
    "a stream long enough to rebuild the table",
    "even weights are rounded differently from the published rebuild, so longer messages of other stations decode wrongly",
    RT + r'''
#[test]
fn weights_are_halved_upwards() {
    let mut st = LzHufState::new();
    for b in noise(3, 32454) {
        st.update(b as u16);
    }
    let mut want: Vec<u16> = (0..627).filter(|&i| st.children[i] >= 627).map(|i| (st.frequency_table[i] + 1) / 2).collect();
    st.reconstruct();
    let mut got: Vec<u16> = (0..627).filter(|&i| st.children[i] >= 627).map(|i| st.frequency_table[i]).collect();
    want.sort();
    got.sort();
    assert_eq!(want, got);
}''')
# ---------------------------------------------------------------- C04
bug("C04-padding", "C04", LZ, [("if self.bit_pos > 0 {\n            self.output", "if self.bit_pos < 8 {\n            self.output")],
    "a message whose code ends exactly on a byte boundary",
    "a whole byte of padding is appended",
    RT + r'''
#[test]
fn never_a_byte_of_padding() {
    for n in 0..400usize {
        let m = noise(n as u32 + 1, n % 97);
        let z = pack(&m);
        if !z.is_empty() {
            assert!(unpack(&z[..z.len() - 1], m.len()).is_none(), "the last byte of {} is not needed", z.len());
        }
    }
}''')
bug("C04-position-table", "C04", LZ, [
    ("    0xC0, 0xC2, 0xC4, 0xC6, 0xC8,", "    0xC0, 0xC2, 0xC6, 0xC4, 0xC8,"),
    ("    0x18, 0x18, 0x19, 0x19, 0x1A, 0x1A, 0x1B, 0x1B,\n", "    0x18, 0x18, 0x19, 0x19, 0x1B, 0x1B, 0x1A, 0x1A,\n")],
    "a match 1665 to 1792 bytes back; both tables are changed alike so a round trip does not show it",
    "two position codes are exchanged: what this station sends is decoded wrongly elsewhere",
    RT + r'''
#[test]
fn position_codes_ascend() {
    for i in 1..64usize {
        assert!(p_code[i] > p_code[i - 1]);
        assert_eq!(p_code[i] as u32, p_code[i - 1] as u32 + (1 << (8 - p_len[i - 1] as u32)));
    }
}''')
# ---------------------------------------------------------------- C05
bug("C05-late-rebuild", "C05", LZ, [("if self.frequency_table[R as usize] == MAX_FREQ {", "if self.frequency_table[R as usize] > MAX_FREQ {")],
    "32455 symbols: the total weight must reach 0x8000 exactly",
    "the rebuild comes one symbol late and the total weight exceeds 0x8000",
    RT + r'''
#[test]
fn total_weight_is_bounded() {
    let mut st = LzHufState::new();
    for b in noise(1, 70000) {
        st.update(b as u16);
        assert!(st.frequency_table[R as usize] <= 0x8000);
    }
}''')
bug("C05-rebuild-links", "C05", LZ, [("            if k >= T {\n                self.parents[k as usize] = i;\n            } else {\n                self.parents[k as usize + 1] = i;", "            if k >= T {\n                self.parents[k as usize] = i;\n            } else if k > 0 {\n                self.parents[k as usize + 1] = i;")],
    "a rebuild after which the two lightest symbols hang under another node than before",
    "the parents of the two lightest nodes are left stale by a rebuild",
    RT + r'''
#[test]
fn links_agree_after_every_rebuild() {
    for seed in 0..6u32 {
        let mut st = LzHufState::new();
        for (n, b) in noise(seed + 20, 120000).into_iter().enumerate() {
            st.update(if seed % 2 == 0 { b as u16 } else { (b & 15) as u16 * 3 });
            if st.frequency_table[R as usize] < 0x4200 || n % 997 == 0 {
                for i in 0..T as usize {
                    let k = st.children[i] as usize;
                    assert_eq!(st.parents[k] as usize, i);
                    if k < T as usize { assert_eq!(st.parents[k + 1] as usize, i); }
                }
            }
        }
    }
}''')
# ---------------------------------------------------------------- C06
CRCD = r'''
fn slow(d: &[u8]) -> u16 {
    let mut c = 0u16;
    for &b in d { c ^= (b as u16) << 8; for _ in 0..8 { c = if c & 0x8000 != 0 { (c << 1) ^ 0x1021 } else { c << 1 }; } }
    c
}
#[test]
fn one_and_two_bytes() {
    for a in 0..=255u8 { for b in 0..=255u8 {
        let mut c = Crc16::new();
        c.update(a);
        c.update(b);
        assert_eq!(c.finish(), slow(&[a, b]));
    } }
}'''
bug("C06-entry", "C06", CRC, [("0x3ca2,  0x2c83,  0x1ce0,  0x0cc1,", "0x3ca2,  0x2c93,  0x1ce0,  0x0cc1,")],
    "data that uses table entry 0xED", "one bit of one table entry is wrong", CRCD)
bug("C06-entry-a1", "C06", CRC, [("0xb5ea,  0xa5cb,", "0xb5ea,  0x25cb,")],
    "data that uses table entry 0xA1", "the highest bit of one table entry is wrong", CRCD)
# ---------------------------------------------------------------- C07
bug("C07-size-sum", "C07", FBB, [("                                .wrapping_add(uncompressed_size >> 24)\n", "")],
    "a block that states an uncompressed size of 16 MiB or more",
    "the highest size byte is left out of the checksum: such a block is accepted with a wrong checksum",
    BLK + r'''
#[test]
fn checksum_covers_the_whole_size() {
    let v = wire(b"t", "0", 0x0300_0005, &[vec![1, 2, 3]]);
    assert!(good(&v));
    for d in 1..=255u8 {
        let mut w = v.clone();
        let n = w.len() - 1;
        w[n] = w[n].wrapping_add(d);
        assert!(!good(&w));
    }
}''')
bug("C07-header-rest", "C07", FBB, [("all_consuming(terminated(\n        separated_pair(", "terminated(\n        separated_pair("), ("        nul\n    ))(header)?;", "        nul\n    )(header)?;")],
    "a header that states a longer length than its fields have",
    "bytes after the header's fields are ignored instead of the block being rejected",
    BLK + r'''
#[test]
fn header_length_must_agree() {
    let v = wire(b"title", "12", 5, &[vec![9; 4]]);
    assert!(good(&v));
    let mut w = v.clone();
    w[1] += 3;
    let at = 2 + v[1] as usize;
    w.splice(at..at, [b'x', 0, b'y']);
    assert!(!good(&w));
    let mut w = v.clone();
    w[1] += 1;
    w.insert(at, 0);
    assert!(!good(&w));
}''')
bug("C07-crc-data", "C07", FBB, [("blocks[..].iter().copied().flatten().copied().for_each(|b| crc.update(b));", "blocks[..].iter().take(64).copied().flatten().copied().for_each(|b| crc.update(b));")],
    "a block of more than 64 sub-blocks",
    "damage that the additive checksum misses is not noticed beyond the 64th sub-block, and intact long blocks are rejected",
    BLK + r'''
#[test]
fn long_blocks() {
    let d: Vec<Vec<u8>> = (0..80u8).map(|i| vec![i, i ^ 0x55, 7, i.wrapping_mul(3)]).collect();
    assert!(good(&wire(b"long", "0", 320, &d)));
}''')
# ---------------------------------------------------------------- C08
bug("C08-block-256", "C08", FBB, [("let count = if len == 0 { 256 } else { len as usize };", "let count = if len == 0 { u8::MAX as usize } else { len as usize };")],
    "a sub-block of 256 bytes, which is written with length byte 0",
    "256-byte sub-blocks are read as 255 bytes",
    BLK + r'''
#[test]
fn every_length() {
    for n in [1usize, 2, 100, 249, 250] {
        assert!(good(&wire(b"a", "0", 9, &[vec![3; n]])));
    }
    for n in [1usize, 2, 100, 255, 256] {
        assert!(good(&wire(b"a", "0", 9, &[vec![3; 10], vec![5; n], vec![6; 2]])), "{}", n);
    }
}''')
bug("C08-offset-base", "C08", FBB, [("u32::from_str_radix(unsafe { std::str::from_utf8_unchecked(bytes) }, 10)", "u32::from_str_radix(unsafe { std::str::from_utf8_unchecked(bytes) }, if bytes.starts_with(b\"00\") { 8 } else { 10 })")],
    "an offset written with leading zeros",
    "a zero-padded offset is read in base eight",
    BLK + r'''
#[test]
fn padded_offsets() {
    for (s, n) in [("0", 0u32), ("7", 7), ("10", 10), ("0012", 12), ("000009", 9), ("000770", 770)] {
        let v = wire(b"t", s, 4, &[vec![1]]);
        match b2_message_block(&v) { Ok((_, m)) => assert_eq!(m.offset, n, "{}", s), _ => panic!("{} not read", s) }
    }
}''')
# ---------------------------------------------------------------- C09
bug("C09-cut-at-checksum", "C09", FBB, [("preceded(eot, be_u8)(data)", "preceded(eot, nom::number::complete::be_u8)(data)")],
    "a block of which everything but the last byte has arrived",
    "a block cut between its end mark and its checksum is rejected instead of waited for",
    BLK + r'''
#[test]
fn every_prefix_waits() {
    let v = wire(b"Title", "0", 40, &[vec![4; 12], vec![2; 30]]);
    assert!(good(&v));
    for k in 0..v.len() {
        let n = need(&v[..k]);
        assert!(n.is_some(), "cut at {}", k);
        assert!(n.unwrap() <= v.len() - k);
    }
}''')
bug("C09-needed", "C09", FBB, [("    take(count)(rest)\n", "    let body = take(count);\n    if count == 256 && rest.len() < count {\n        return Err(nom::Err::Incomplete(nom::Needed::new(count)));\n    }\n    body(rest)\n")],
    "a block cut inside a 256-byte sub-block near its end",
    "more bytes are asked for than will ever come",
    BLK + r'''
#[test]
fn asks_for_no_more_than_is_missing() {
    let v = wire(b"Title", "0", 40, &[vec![4; 250], vec![2; 256]]);
    assert!(good(&v));
    for k in 0..v.len() {
        let n = need(&v[..k]);
        assert!(n.is_some(), "cut at {}", k);
        assert!(n.unwrap() <= v.len() - k, "cut at {}: {} asked, {} missing", k, n.unwrap(), v.len() - k);
    }
}''')
# ---------------------------------------------------------------- C10
PROP = r'''
fn basic(s: &str) -> Option<(MessageType, String, String, String, String, u16)> {
    fbb_proposal(s.as_bytes()).ok().filter(|(r, _)| r.is_empty()).map(|(_, p)| (p.message_type, p.sender.as_str().to_owned(), p.addressee.mbo.as_str().to_owned(), p.addressee.recipient.as_str().to_owned(), p.message_id.as_str().to_owned(), p.message_size))
}
fn ext(s: &str) -> Option<(String, u16, u16, Option<(String, String, String)>)> {
    winlink_proposal(s.as_bytes()).ok().filter(|(r, _)| r.is_empty()).map(|(_, p)| (p.message_id.as_str().to_owned(), p.uncompressed_message_size, p.compressed_message_size,
        p.bqp_extension.map(|e| (e.sender.as_str().to_owned(), e.addressee.mbo.as_str().to_owned(), e.addressee.recipient.as_str().to_owned()))))
}
'''
bug("C10-size-wrap", "C10", FBB, [("    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10))(data)", "    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10).map(|n| n as u16))(data)")],
    "a proposal that states a size over 65535",
    "sizes over 65535 wrap around instead of being rejected",
    PROP + r'''
#[test]
fn sizes() {
    assert_eq!(ext("FC EM ABC123 65535 400\r").unwrap().1, 65535);
    assert!(ext("FC EM ABC123 65536 400\r").is_none());
    assert!(ext("FC EM ABC123 400 131072\r").is_none());
    assert!(basic("FB P A B C D 99999\r").is_none());
}''')
bug("C10-long-sender", "C10", FBB, [("map(map_res(take_while_m_n(1, 6, |x| !delimiter(x)), std::str::from_utf8), SenderRef::from_str)(data)", "map(map_res(take_while_m_n(1, 7, |x| !delimiter(x)), std::str::from_utf8), SenderRef::from_str)(data)")],
    "a proposal whose sender has seven characters",
    "an over-long sender is accepted",
    PROP + r'''
#[test]
fn field_lengths() {
    assert!(basic("FA P F6FBB FC1GHV.FFC FRA FC1MVP 24657_F6FBB 1345\r").is_none());
    assert!(basic("FA P F6FBBX FC1GHV.FFC FC1MVP 24657_F6FBB 1345\r").is_some());
    assert!(basic("FA P F6FBBXY FC1GHV.FFC FC1MVP 24657_F6FBB 1345\r").is_none());
    assert!(basic("FA P F6FBB FC1GHV.FFC FC1MVPZ 24657_F6FBB 1345\r").is_none());
}''')
bug("C10-extension-roles", "C10", FBB, [("        map(map_res(take_while_m_n(1, 40, |x| !delimiter(x)), std::str::from_utf8), AtBbsRef::from_str),\n            tag(\" \"),\n        map(map_res(take_while_m_n(1, 6, |x| !delimiter(x)), std::str::from_utf8), RecipientRef::from_str),\n    ), |(mbo, recipient)| Addressee { recipient, mbo })(data)",
      "        map(map_res(take_while_m_n(1, 6, |x| !delimiter(x)), std::str::from_utf8), RecipientRef::from_str),\n            tag(\" \"),\n        map(map_res(take_while_m_n(1, 40, |x| !delimiter(x)), std::str::from_utf8), AtBbsRef::from_str),\n    ), |(recipient, mbo)| Addressee { recipient, mbo })(data)")],
    "a proposal whose destination mailbox and addressee differ",
    "mailbox and addressee are exchanged, and mailboxes of more than six characters are refused",
    PROP + r'''
#[test]
fn roles() {
    let b = basic("FB P F6FBB FC1GHV.FFC FC1MVP 24657_F6FBB 1345\r").unwrap();
    assert_eq!((b.1.as_str(), b.2.as_str(), b.3.as_str(), b.4.as_str(), b.5), ("F6FBB", "FC1GHV.FFC", "FC1MVP", "24657_F6FBB", 1345));
}''')
# ---------------------------------------------------------------- C11
bug("C11-six-digits", "C11", FBB, [("map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10)),\n        ), |offset|", "map_res(map_res(take_while_m_n(1, 5, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10)),\n        ), |offset|")],
    "an answer that accepts from an offset written with six digits",
    "the sixth digit of an offset is taken for the next answer and the line is rejected",
    r'''
#[test]
fn padded_offset() {
    assert!(matches!(selection::<2>(b"FS !000123+"), Ok((b"", [MessageChoice::Accept { offset: 123 }, MessageChoice::Accept { offset: 0 }]))));
    assert!(matches!(selection::<2>(b"FS A65535=x"), Ok((b"x", [MessageChoice::Accept { offset: 65535 }, MessageChoice::Defer]))));
    assert!(selection::<1>(b"FS !65536+").is_err());
}''')
bug("C11-saturate", "C11", FBB, [("|s| u16::from_str_radix(s, 10)),\n        ), |offset|", "|s| u32::from_str_radix(s, 10).map(|n| n.min(u16::MAX as u32) as u16)),\n        ), |offset|")],
    "an answer that accepts from an offset over 65535",
    "the offset is silently lowered to 65535 instead of the answer being rejected",
    r'''
#[test]
fn large_offset() {
    assert!(matches!(selection::<1>(b"FS !65535+"), Ok((b"+", [MessageChoice::Accept { offset: 65535 }]))));
    assert!(selection::<1>(b"FS !65536+").is_err());
    assert!(selection::<1>(b"FS A999999+").is_err());
}''')
# ---------------------------------------------------------------- C12
bug("C12-letter-z", "C12", TY, [("if s.as_bytes().iter().any(|&b| b'a' <= b && b <= b'z') {", "if s.as_bytes().iter().any(|&b| b'a' <= b && b < b'z') {")],
    "a call sign whose only lower-case letters are z",
    "such a call sign is kept in mixed case and differs from its upper-case form",
    r'''
#[test]
fn case_does_not_matter() {
    for s in ["K1z", "z1Z", "9z9ZZ", "kc1gsl", "Kc1gSL"] {
        assert_eq!(StationId::new(s).unwrap(), StationId::new(s.to_ascii_uppercase()).unwrap());
        assert!(StationId::new(s).unwrap().as_str().bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit()));
    }
}''')
bug("C12-modem-case", "C12", TY, [("|c: u8| c.is_ascii_uppercase() || c.is_ascii_digit())(s)?;", "|c: u8| c.is_ascii_alphanumeric())(s)?;")],
    "a modem that reports a call sign with lower-case letters",
    "an identifier that is not normalised is made from what the modem sent",
    r'''
#[test]
fn modem_call_signs() {
    for s in ["KC1GSL", "K1A", "W1ABC99", "kc1gsl", "KC1gsl", "KC1GSl"] {
        if let Ok((_, c)) = callsign(s.as_bytes()) {
            assert!(c.as_str().len() >= 3 && c.as_str().len() <= 7);
            assert!(c.as_str().bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit()), "{}", c.as_str());
        }
    }
}''')
# ---------------------------------------------------------------- C13
bug("C13-sixth-call", "C13", VARA, [("for id in &self.1 {", "for id in self.1.iter().take(4) {")],
    "a MYCALL command with more than five call signs",
    "call signs after the fifth are silently left out",
    r'''
#[test]
fn all_calls() {
    let id = |s: &str| StationId::new(s).unwrap();
    let c = Command::SetCall(MyCallSigns(id("A1A"), vec![id("B1B"), id("C1C"), id("D1D"), id("E1E"), id("F1F")]));
    assert_eq!(c.to_string(), "MYCALL A1A B1B C1C D1D E1E F1F");
}''')
bug("C13-one-hop", "C13", VARA, [('ConnectPath::OneHop { digipeater } => write!(f, " via {}", digipeater)', 'ConnectPath::OneHop { digipeater } => write!(f, " {}", digipeater)')],
    "a connection through exactly one relay",
    "the relay is written without the word via",
    r'''
#[test]
fn relay() {
    let id = |s: &str| StationId::new(s).unwrap();
    let c = Command::Connect(ConnectCommand { origin: id("A1A"), target: id("B1B"), path: ConnectPath::OneHop { digipeater: id("C1C") } });
    assert_eq!(c.to_string(), "CONNECT A1A B1B via C1C");
}''')
bug("C13-cq-off", "C13", VARA, [('            Self::CQ => "CQ",\n            Self::Enable => "ON",', '            Self::CQ | Self::Enable => "ON",')],
    "listening for CQ calls only", "listen CQ is rendered as listen ON",
    r'''
#[test]
fn listen() {
    let mut v: Vec<String> = [ListenMode::Disable, ListenMode::CQ, ListenMode::Enable].iter().map(|&m| Command::Listen(m).to_string()).collect();
    assert_eq!(v, ["LISTEN OFF", "LISTEN CQ", "LISTEN ON"]);
    v.dedup();
    assert_eq!(v.len(), 3);
}''')
# ---------------------------------------------------------------- C14
bug("C14-case", "C14", VARA, [('nom::combinator::value(true, nom::bytes::complete::tag("ON"))', 'nom::combinator::value(true, nom::bytes::complete::tag_no_case("ON"))')],
    "a status line with the state in lower or mixed case",
    "PTT on and BUSY On are understood although they are no known responses",
    r'''
#[test]
fn exact_words() {
    let read = |s: &'static str| nom::combinator::all_consuming(tnc_response)(s.as_bytes()).ok().map(|r| r.1);
    assert!(read("PTT ON").is_some());
    assert_eq!(read("PTT on"), None);
    assert_eq!(read("BUSY On"), None);
}''')
bug("C14-buffer-overflow", "C14", VARA, [("|x: &[u8]| usize::from_str_radix(unsafe { std::str::from_utf8_unchecked(x) }, 10))", "|x: &[u8]| if x.len() > 19 { Ok(usize::MAX) } else { usize::from_str_radix(unsafe { std::str::from_utf8_unchecked(x) }, 10) })")],
    "a buffer count of twenty digits or more",
    "a count that does not fit, or one written with many zeros, is read as the largest number",
    r'''
#[test]
fn counts() {
    let read = |s: &'static str| nom::combinator::all_consuming(tnc_response)(s.as_bytes()).ok().map(|r| r.1);
    assert_eq!(read("BUFFER 12"), Some(TncResponse::Update(Update::Buffer { bytes_remaining: 12 })));
    assert_eq!(read("BUFFER 99999999999999999999"), None);
    assert_eq!(read("BUFFER 00000000000000000007"), Some(TncResponse::Update(Update::Buffer { bytes_remaining: 7 })));
}''')
bug("C14-whole-line", "C14", VARA, [("nom::combinator::all_consuming(tnc_response)(line)", "tnc_response(line)")],
    "a line that begins like a known response and goes on",
    "OKAY is taken for OK, PTT ONLY for PTT ON, DISCONNECTEDX for DISCONNECTED",
    r'''
#[test]
fn whole_lines_only() {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        for text in ["OKAY\r", "PTT ONLY\r", "DISCONNECTED BY PEER\r"] {
            let (_tx, _st, task, mut peer) = session().await;
            say(&mut peer, text).await;
            assert!(soon(task).await.unwrap().is_err(), "{}", text);
        }
    });
}''', vara=True)
# ---------------------------------------------------------------- C15
bug("C15-long-partial", "C15", VARA, [("                Err(err) if err.is_incomplete() => {\n", "                Err(err) if err.is_incomplete() => {\n                    if data.len() >= 24 {\n                        data = &[];\n                    }\n"), ("    if retain_after == upd_buffer.len() {\n      upd_buffer.clear();\n", "    if retain_after >= upd_buffer.len() {\n      upd_buffer.clear();\n")],
    "a line of 25 or more characters cut late by the network",
    "a long partial line is dropped and the rest of it is read as another line",
    r'''
#[test]
fn cut_anywhere() {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        let text = "CONNECTED KC1GSLA W1ABCDE\r";
        for k in 1..text.len() {
            let (_tx, st, task, mut peer) = session().await;
            say(&mut peer, &text[..k]).await;
            pause().await;
            say(&mut peer, &text[k..]).await;
            pause().await;
                        assert!(st.connection.borrow().is_connected(), "cut at {}", k);
            task.abort();
        }
    });
}''', vara=True)
bug("C15-split", "C15", VARA, [("        let new = upd_buffer.split_off(retain_after);\n        *upd_buffer = new;", "        let new = upd_buffer.split_to(retain_after);\n        *upd_buffer = new;")],
    "a read that ends inside a line after at least one whole line",
    "the lines already handled are kept and handled again while the partial one is lost",
    r'''
#[test]
fn one_and_a_half_lines() {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        let (_tx, st, task, mut peer) = session().await;
        say(&mut peer, "PTT ON\rBUFFER 1").await;
        pause().await;
        say(&mut peer, "5\rBUSY ON\r").await;
        pause().await;
                assert_eq!(*st.buffer.borrow(), 15);
        assert_eq!(*st.busy_state.borrow(), BusyState::Busy);
        assert_eq!(*st.transceiver_control.borrow(), TransceiverCommand::Transmit);
        task.abort();
    });
}''', vara=True)
bug("C15-error-swallowed", "C15", VARA, [("                        Err(err) => {\n                            return Err(err.into());\n                        }", "                        Err(err) => {\n                            if to_acknowledge.is_empty() {\n                                return Err(err.into());\n                            }\n                            break;\n                        }")],
    "an unreadable line that arrives in the same read as a command result before it",
    "the unreadable line is skipped and the session goes on",
    r'''
#[test]
fn unreadable_after_ok() {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        let (_tx, _st, task, mut peer) = session().await;
        say(&mut peer, "OK\rNONSENSE\r").await;
        assert!(soon(task).await.unwrap().is_err());
    });
}''', vara=True)
# ---------------------------------------------------------------- C16
bug("C16-order", "C16", VARA, [("response_queue.push_back(reply);", "response_queue.push_front(reply);")],
    "two commands outstanding at once (one of them given up by its caller, or several callers)",
    "replies are given to the newest command first",
    r'''
#[test]
fn two_outstanding() {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        let (tx, _st, task, mut peer) = session().await;
        let (a, ra) = oneshot::channel();
        let (b, rb) = oneshot::channel();
        tx.send((Command::Abort, a)).await.unwrap();
        tx.send((Command::Disconnect, b)).await.unwrap();
        pause().await;
        say(&mut peer, "WRONG\rOK\r").await;
        assert_eq!(soon(ra).await.unwrap(), CommandResult::Wrong);
        assert_eq!(soon(rb).await.unwrap(), CommandResult::Ok);
        task.abort();
    });
}''', vara=True)
bug("C16-drain", "C16", VARA, [("while !response_queue.is_empty() {", "if !response_queue.is_empty() {")],
    "two or more replies owed when the last command handle goes away, arriving in separate reads",
    "only the first owed reply is waited for",
    r'''
#[test]
fn owed_replies() {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        let (tx, _st, task, mut peer) = session().await;
        let mut rs = Vec::new();
        for _ in 0..3 {
            let (a, ra) = oneshot::channel();
            tx.send((Command::Abort, a)).await.unwrap();
            rs.push(ra);
        }
        pause().await;
        drop(tx);
        for r in rs {
            pause().await;
            say(&mut peer, "OK\r").await;
            assert_eq!(soon(r).await.expect("no reply"), CommandResult::Ok);
        }
        soon(task).await.unwrap().unwrap();
    });
}''', vara=True)
bug("C16-lost-reply", "C16", VARA, [("if cmd_rx.await? == CommandResult::Wrong {", "if cmd_rx.await.unwrap_or(CommandResult::Ok) == CommandResult::Wrong {")],
    "a session that ends while a command waits for its reply",
    "a command without a reply reports success",
    r'''
#[test]
fn no_reply_is_no_success() {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        let (tnc, mut c, _d) = modem().await;
        let (r, _) = tokio::join!(soon(tnc.send_abort()), async {
            assert_eq!(heard(&mut c).await, "ABORT\r");
            drop(c);
        });
        assert!(r.is_err());
    });
}''', vara=True)
# ---------------------------------------------------------------- C17
bug("C17-repeat", "C17", KX3, [("    let mut command_active = true;\n", "    let mut command_active = true;\n    let mut last = None;\n"), ("                if let Some(command) = recv {\n                    cmd_buffer.clear();", "                if let Some(command) = recv {\n                    cmd_buffer.clear();"), ("                    write!(&mut cmd_buffer, \"{};\", command).unwrap();\n", "                    if last.replace(command) != Some(command) {\n                        write!(&mut cmd_buffer, \"{};\", command).unwrap();\n                    }\n")],
    "the same order twice in a row",
    "the second of two equal orders is not sent",
    r'''
#[test]
fn every_order_is_sent() {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        let (a, mut b) = tokio::io::duplex(64);
        let (tx, rx) = mpsc::channel(8);
        let task = tokio::spawn(manage_rig_thread(rx, a));
        for s in [TransmitState::Transmit, TransmitState::Transmit, TransmitState::Receive, TransmitState::Receive] {
            tx.send(Command::SetTransmitState(s)).await.unwrap();
        }
        drop(tx);
        task.await.unwrap().unwrap();
        let mut s = String::new();
        b.read_to_string(&mut s).await.unwrap();
        assert_eq!(s, "TX;TX;RX;RX;");
    });
}''')
bug("C17-partial-write", "C17", KX3, [("stream.write_all(cmd_buffer.as_bytes()).await?;", "stream.write(cmd_buffer.as_bytes()).await?;")],
    "a port that takes fewer bytes than offered in one write",
    "the rest of a frame is dropped",
    r'''
#[test]
fn narrow_port() {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        let (a, mut b) = tokio::io::duplex(2);
        let (tx, rx) = mpsc::channel(8);
        let task = tokio::spawn(manage_rig_thread(rx, a));
        let reader = tokio::spawn(async move { let mut s = String::new(); b.read_to_string(&mut s).await.unwrap(); s });
        for s in [TransmitState::Transmit, TransmitState::Receive] {
            tx.send(Command::SetTransmitState(s)).await.unwrap();
        }
        drop(tx);
        task.await.unwrap().unwrap();
        assert_eq!(reader.await.unwrap(), "TX;RX;");
    });
}''')
# ---------------------------------------------------------------- C18
bug("C18-drop-pending", "C18", VARA, [("if !self.tnc.status.connection.borrow().is_disconnected() {", "if self.tnc.status.connection.borrow().is_connected() {")],
    "a stream dropped after the modem reported another state than connected or disconnected",
    "the stream is dropped without a disconnect although it was never disconnected",
    r'''
#[test]
fn drop_requests_a_disconnect() {
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap().block_on(async {
        let (mut tnc, mut c, _d) = modem().await;
        let (s, _) = tokio::join!(soon(tnc.connect(id("A1A"), id("B1B"))), async {
            assert_eq!(heard(&mut c).await, "CONNECT A1A B1B\r");
            say(&mut c, "OK\r").await;
            pause().await;
            say(&mut c, "CONNECTED A1A B1B\r").await;
        });
        let s = s.unwrap();
        say(&mut c, "PENDING\r").await;
        pause().await;
        drop(s);
        assert_eq!(heard(&mut c).await, "DISCONNECT\r");
    });
}''', vara=True)
bug("C18-flush", "C18", VARA, [('''    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        let this = self.project();
        match Pin::new(this.remote_disconnect).poll(cx) {
            Poll::Pending => {}
            Poll::Ready(_) => {
                return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
            }
        }
''', '''    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        let this = self.project();
''')],
    "a flush after the remote station has disconnected",
    "the flush reports success on a closed stream",
    r'''
#[test]
fn flush_after_disconnect() {
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap().block_on(async {
        let (mut tnc, mut c, _d) = modem().await;
        let (s, _) = tokio::join!(soon(tnc.connect(id("A1A"), id("B1B"))), async {
            heard(&mut c).await;
            say(&mut c, "OK\r").await;
            pause().await;
            say(&mut c, "CONNECTED A1A B1B\r").await;
        });
        let mut s = s.unwrap();
        s.write_all(b"x").await.unwrap();
        s.flush().await.unwrap();
        say(&mut c, "DISCONNECTED\r").await;
        pause().await;
        assert!(s.write_all(b"x").await.is_err());
        assert_eq!(s.flush().await.unwrap_err().kind(), std::io::ErrorKind::ConnectionAborted);
    });
}''', vara=True)
# ---------------------------------------------------------------- C19
bug("C19-wrong-ignored", "C19", VARA, [("            path: ConnectPath::Direct,\n        })).await?;", "            path: ConnectPath::Direct,\n        })).await.or_else(|err| if self.control_channel.is_closed() { Err(err) } else { Ok(()) })?;")],
    "a refused connect command followed by a connection of another origin",
    "a refused request succeeds because another station connected afterwards",
    r'''
#[test]
fn refused() {
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap().block_on(async {
        let (mut tnc, mut c, _d) = modem().await;
        let (s, _) = tokio::join!(soon(tnc.connect(id("A1A"), id("B1B"))), async {
            heard(&mut c).await;
            say(&mut c, "WRONG\r").await;
            pause().await;
            say(&mut c, "CONNECTED A1A C1C\r").await;
        });
        assert!(s.is_err());
    });
}''', vara=True)
bug("C19-pending", "C19", VARA, [("matches!(self, Self::Connected { .. })", "matches!(self, Self::Connected { .. } | Self::Pending)")],
    "a connection attempt for which the modem first reports an incoming call as pending",
    "a request succeeds although nothing is connected",
    r'''
#[test]
fn pending_is_not_connected() {
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap().block_on(async {
        let (mut tnc, mut c, _d) = modem().await;
        let (s, _) = tokio::join!(soon(tnc.connect(id("A1A"), id("B1B"))), async {
            heard(&mut c).await;
            say(&mut c, "OK\r").await;
            pause().await;
            say(&mut c, "PENDING\r").await;
        });
        assert!(s.is_err());
    });
}''', vara=True)
# ---------------------------------------------------------------- C20
bug("C20-refuse", "C20", VARA, [("if self.control_port.get() == u16::MAX && self.data_port.is_none() {", "if self.control_port.get() == u16::MAX {")],
    "control port 65535 with an explicit data port",
    "a usable pair of ports is refused",
    r'''
#[test]
fn highest_port() {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        let host: std::net::IpAddr = "127.77.1.9".parse().unwrap();
        let mut b = VaraTnc::builder();
        b.host(host).control_port(NonZeroU16::new(65535).unwrap());
        assert_eq!(b.build().await.unwrap_err().kind(), std::io::ErrorKind::InvalidInput);
        let c = TcpListener::bind((host, 65535)).await.unwrap();
        let d = TcpListener::bind((host, 0)).await.unwrap();
        b.data_port(d.local_addr().unwrap().port().try_into().unwrap());
        let (r, _, _) = tokio::join!(b.build(), soon(c.accept()), soon(d.accept()));
        assert!(r.is_ok());
    });
}''', vara=True)
bug("C20-setter-order", "C20", VARA, [("        self.control_port = port;\n        self\n", "        *self = VaraTncBuilder { host: self.host, control_port: port, data_port: None };\n        self\n")],
    "setting the data port before the control port",
    "an explicit data port is forgotten when the control port is set after it",
    r'''
#[test]
fn either_order() {
    let p = |n| NonZeroU16::new(n).unwrap();
    let mut b = VaraTnc::builder();
    b.data_port(p(9000)).control_port(p(4000));
    let mut c = VaraTnc::builder();
    c.control_port(p(4000)).data_port(p(9000));
    assert_eq!(b, c);
}''')
