//! C13-C16, C18-C20: the modem driver against a scripted modem on the loopback interface
use crate::ctx::*;
use plusendi::modem::vara::*;
use plusendi::verif::vara as real;
use plusendi::StationId;
use std::collections::BTreeSet;
use std::num::NonZeroU16;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

const PATIENCE: Duration = Duration::from_secs(10);

// ------------------------------------------------------------------ commands and their text

fn call(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 4) { s.push((b'0' + r.byte() % 10) as char); }
    let n = r.range(1, 2);
    for _ in 0..n { s.push((b'A' + r.byte() % 26) as char); }
    let n = if r.chance(1, 5) { 2 } else { 1 };
    for _ in 0..n { s.push((b'0' + r.byte() % 10) as char); }
    let n = r.range(1, if s.len() >= 5 { 2 } else { 3 });
    for _ in 0..n { s.push((b'A' + r.byte() % 26) as char); }
    s
}
fn id(s: &str) -> StationId { StationId::new(s).unwrap() }

/// a command with the words it must be sent as
fn command(r: &mut Rng) -> (Command, String) {
    match r.below(12) {
        0 => (Command::Listen(ListenMode::Enable), "LISTEN ON".into()),
        1 => (Command::Listen(ListenMode::Disable), "LISTEN OFF".into()),
        2 => (Command::Listen(ListenMode::CQ), "LISTEN CQ".into()),
        3 => (Command::Disconnect, "DISCONNECT".into()),
        4 => (Command::Abort, "ABORT".into()),
        5 | 6 => {
            let v: Vec<String> = (0..r.range(1, 6)).map(|_| call(r)).collect();
            (Command::SetCall(MyCallSigns(id(&v[0]), v[1..].iter().map(|s| id(s)).collect())), format!("MYCALL {}", v.join(" ")))
        }
        7 => { let (m, s) = [(CompressionMode::Off, "OFF"), (CompressionMode::Text, "TEXT"), (CompressionMode::Files, "FILES")][r.below(3)]; (Command::SetCompression(m), format!("COMPRESSION {}", s)) }
        8 => { let (m, s) = [(BandwidthMode::Narrow, "500"), (BandwidthMode::Wide, "2300"), (BandwidthMode::Tactical, "2750")][r.below(3)]; (Command::SetBandwidth(m), format!("BW{}", s)) }
        _ => {
            let (a, b, c, d) = (call(r), call(r), call(r), call(r));
            let (path, tail) = match r.below(3) {
                0 => (ConnectPath::Direct, String::new()),
                1 => (ConnectPath::OneHop { digipeater: id(&c) }, format!(" via {}", c)),
                _ => (ConnectPath::TwoHops { first: id(&c), second: id(&d) }, format!(" via {} {}", c, d)),
            };
            (Command::Connect(ConnectCommand { origin: id(&a), target: id(&b), path }), format!("CONNECT {} {}{}", a, b, tail))
        }
    }
}

fn c13(cx: &mut Ctx, replay: Option<String>) {
    cx.rule = "commands of every kind with generated call signs and paths, compared with the words they must consist of; every two of a run that differ are compared with each other; non-trivial: every case".into();
    let mut seen: std::collections::HashMap<String, String> = Default::default();
    let one = |cx: &mut Ctx, seed: u64, seen: &mut std::collections::HashMap<String, String>| {
        let (c, want) = command(&mut Rng::new(seed));
        let mut clash = None;
        let text = c.to_string();
        let what = format!("{:?}", c);
        if let Some(o) = seen.get(&text) { if *o != what { clash = Some(o.clone()); } } else if seen.len() < 300000 { seen.insert(text.clone(), what.clone()); }
        cx.case(format!("seed={} command={:?}", seed, what), true, move || {
            if let Some(o) = clash { return Err(format!("{} and {} are both rendered {:?}", what, o, text)); }
            if text == want { Ok(()) } else { Err(format!("{} is rendered {:?}, should be {:?}", what, text, want)) }
        });
    };
    if let Some(s) = replay { one(cx, seed_of(&s), &mut seen); return; }
    let base = cx.rng.next();
    for k in 0..if cx.thorough { 400000u64 } else { 60000 } { one(cx, base.wrapping_add(k), &mut seen); if !cx.time_left() { break; } }
}
fn seed_of(s: &str) -> u64 { s.trim_start_matches("seed=").split(' ').next().unwrap().parse().unwrap() }

// ------------------------------------------------------------------ status lines

#[derive(Clone, Debug, PartialEq)]
enum Meaning {
    Ok, Wrong, Alive, Buffer(usize), Busy(bool), Ptt(bool), Connected(String, String), Disconnected, Pending, Canceled, Registered(String),
}
fn is_call(s: &str) -> bool { (3..=7).contains(&s.len()) && s.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit()) }
fn meaning(l: &[u8]) -> Option<Meaning> {
    let s = std::str::from_utf8(l).ok()?;
    let w: Vec<&str> = s.split(' ').collect();
    Some(match &w[..] {
        ["OK"] => Meaning::Ok,
        ["WRONG"] => Meaning::Wrong,
        ["IAMALIVE"] => Meaning::Alive,
        ["BUFFER", n] if !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()) => {
            let mut v: u128 = 0;
            for c in n.bytes() { v = (v * 10 + (c - b'0') as u128).min(1 << 100); }
            if v > usize::MAX as u128 { return None; }
            Meaning::Buffer(v as usize)
        }
        ["BUSY", x @ ("ON" | "OFF")] => Meaning::Busy(*x == "ON"),
        ["PTT", x @ ("ON" | "OFF")] => Meaning::Ptt(*x == "ON"),
        ["CONNECTED", a, b] if is_call(a) && is_call(b) => Meaning::Connected(a.to_string(), b.to_string()),
        ["DISCONNECTED"] => Meaning::Disconnected,
        ["PENDING"] => Meaning::Pending,
        ["CANCELPENDING"] => Meaning::Canceled,
        ["REGISTERED", a] if is_call(a) => Meaning::Registered(a.to_string()),
        _ => return None,
    })
}
fn real_meaning(l: &[u8]) -> Option<Meaning> {
    Some(match real::read_line(l)? {
        TncResponse::CommandResult(CommandResult::Ok) => Meaning::Ok,
        TncResponse::CommandResult(CommandResult::Wrong) => Meaning::Wrong,
        TncResponse::Update(u) => match u {
            Update::Heartbeat => Meaning::Alive,
            Update::Buffer { bytes_remaining } => Meaning::Buffer(bytes_remaining),
            Update::Busy(b) => Meaning::Busy(b == BusyState::Busy),
            Update::TransceiverControl(t) => Meaning::Ptt(t == TransceiverCommand::Transmit),
            Update::Registered { my_call } => Meaning::Registered(my_call.as_str().to_string()),
            Update::Connection(ConnectionState::Disconnected) => Meaning::Disconnected,
            Update::Connection(ConnectionState::Pending) => Meaning::Pending,
            Update::Connection(ConnectionState::Canceled) => Meaning::Canceled,
            Update::Connection(ConnectionState::Connected { my_station, other_station }) => Meaning::Connected(my_station.as_str().to_string(), other_station.as_str().to_string()),
            other => { return Some(Meaning::Registered(format!("unexpected {:?}", other))) }
        },
    })
}
fn check_line(cx: &mut Ctx, l: Vec<u8>) {
    cx.case(format!("line={}", hex(&l)), l.len() > 1, move || {
        let (want, got) = (meaning(&l), real_meaning(&l));
        if want == got { Ok(()) } else { Err(format!("the line {:?} means {:?}, read as {:?}", String::from_utf8_lossy(&l), want, got)) }
    });
}
fn update_line(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "IAMALIVE".into(),
        1 | 2 => format!("BUFFER {}", match r.below(6) { 0 => 0, 1 => usize::MAX, 2 => u32::MAX as usize + 1, 3 => 65536, _ => r.below(100000) }),
        3 => "BUSY ON".into(), 4 => "BUSY OFF".into(), 5 | 6 => "PTT ON".into(), 7 => "PTT OFF".into(),
        8 => format!("CONNECTED {} {}", callish(r), callish(r)),
        9 => "DISCONNECTED".into(), 10 => "PENDING".into(), 11 => "CANCELPENDING".into(),
        _ => format!("REGISTERED {}", callish(r)),
    }
}
fn callish(r: &mut Rng) -> String {
    if r.chance(1, 2) { let mut c = call(r); c.truncate(7); if c.len() < 3 { c.push('X'); } c } else { let n = r.range(3, 7); (0..n).map(|_| *r.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") as char).collect() }
}
/// the same lines through the modem task: an unreadable one ends it with an error
fn whole_lines(cx: &mut Ctx, lines: &[Vec<u8>]) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for chunk in lines.chunks(100) {
        let outs: Vec<Result<(), String>> = rt.block_on(async {
            let hs: Vec<_> = chunk.iter().enumerate().map(|(k, l)| {
                let mut b = l.clone();
                b.push(b'\r');
                let mut seed = k as u64;
                for c in l { seed = seed.wrapping_mul(257).wrapping_add(*c as u64 + 1); }
                tokio::spawn(control_session(Script { seed, ops: vec![Op::Bytes(b), Op::NoMoreCommands] }))
            }).collect();
            let mut out = vec![];
            for h in hs { out.push(match h.await { Ok(r) => r, Err(e) => Err(format!("panic: {:?}", e)) }); }
            out
        });
        for (l, o) in chunk.iter().zip(outs) {
            let t = format!("the line {:?}: ", String::from_utf8_lossy(l));
            cx.case(format!("session={}", hex(l)), l.len() > 1, move || o.map_err(|e| t + &e));
        }
    }
}
fn c14(cx: &mut Ctx, replay: Option<String>) {
    cx.rule = "every known line, every single-byte change, insertion and deletion of it, prefixes, pairs of lines run together, changed case, numbers at the limits, random lines; judged by an independent reader; non-trivial: more than 1 byte".into();
    if let Some(s) = &replay { if let Some(h) = s.strip_prefix("session=") { whole_lines(cx, &[unhex(h)]); return; } }
    if let Some(s) = replay { check_line(cx, unhex(s.trim_start_matches("line="))); return; }
    let base: Vec<String> = ["OK", "WRONG", "IAMALIVE", "BUFFER 0", "BUFFER 120", "BUSY ON", "BUSY OFF", "PTT ON", "PTT OFF", "CONNECTED KC1GSL W1AW", "CONNECTED ABC ABCDEFG", "DISCONNECTED", "PENDING", "CANCELPENDING", "REGISTERED KC1GSL", "REGISTERED K1A", "REGISTERED ABCDEFG",
        "BUFFER 18446744073709551615", "BUFFER 18446744073709551616", "BUFFER 00000000000000000000000001", "BUFFER 99999999999999999999999999999999999999999999", "CONNECTED AB KC1GSL", "CONNECTED KC1GSL AB", "CONNECTED ABCDEFGH KC1GSL", "CONNECTED KC1GSL ABCDEFGH", "CONNECTED KC1GSL", "CONNECTED kc1gsl W1AW", "REGISTERED AB", "REGISTERED ABCDEFGH",
        "REGISTERED", "BUFFER", "BUSY", "PTT", "CONNECTED", "ON", "OFF", "PTT  ON", "PTT ON OFF", "PTT OFFON", "BUSY O", "PTT O", "PTT OF", "MISSING SOUNDCARD", "LINK REGISTERED", "LINK UNREGISTERED", "CQFRAME KC1GSL 500", "CONNECTED KC1GSL W1AW 2300", "CANCEL PENDING", "UNREGISTERED KC1GSL", "", " ", "OK ", " OK"].iter().map(|s| s.to_string()).collect();
    for b in &base { check_line(cx, b.as_bytes().to_vec()); }
    let mut sent: Vec<Vec<u8>> = base.iter().map(|b| b.as_bytes().to_vec()).collect();
    for b in &base {
        for c in [b' ', b'0', b'A', b'X', b'\n', b'\0', b'N'] { let mut v = b.as_bytes().to_vec(); v.push(c); sent.push(v); let mut v = b.as_bytes().to_vec(); v.insert(0, c); sent.push(v); }
        if !b.is_empty() { sent.push(b.as_bytes()[..b.len() - 1].to_vec()); sent.push(b.as_bytes()[1..].to_vec()); }
        let o = cx.rng.pick(&base).clone();
        for g in ["", " ", "\n"] { sent.push(format!("{}{}{}", b, g, o).into_bytes()); }
    }
    for _ in 0..if cx.thorough { 4000 } else { 200 } {
        let mut l = update_line(&mut cx.rng).into_bytes();
        if cx.rng.chance(1, 2) { let i = cx.rng.below(l.len()); match cx.rng.below(3) { 0 => l[i] ^= 0x20, 1 => { l.remove(i); } _ => { let c = cx.rng.byte(); l.insert(i, c) } } }
        sent.push(l);
    }
    whole_lines(cx, &sent);
    for b in &base {
        let b = b.as_bytes();
        for i in 0..=b.len() {
            for c in 0..=255u8 {
                let mut v = b.to_vec(); v.insert(i, c); check_line(cx, v);
                if i < b.len() { let mut v = b.to_vec(); v[i] = c; check_line(cx, v); }
            }
            check_line(cx, b[..i].to_vec());
            if i < b.len() { let mut v = b.to_vec(); v.remove(i); check_line(cx, v); }
            if i + 1 < b.len() { let mut v = b.to_vec(); v.swap(i, i + 1); check_line(cx, v); }
        }
    }
    for a in &base { for b in &base { for s in ["", " ", "\r", "\n"] { check_line(cx, format!("{}{}{}", a, s, b).into_bytes()); } } }
    for n in 0..=70000usize { check_line(cx, format!("BUFFER {}", n).into_bytes()); }
    let end = std::time::Instant::now() + Duration::from_secs(if cx.thorough { 60 } else { 5 });
    while cx.time_left() && std::time::Instant::now() < end {
        let mut l = if cx.rng.chance(9, 10) { update_line(&mut cx.rng).into_bytes() } else { let n = cx.rng.below(20); cx.rng.bytes(n) };
        if cx.rng.chance(1, 3) && !l.is_empty() { let i = cx.rng.below(l.len()); l[i] = match cx.rng.below(3) { 0 => l[i] ^ 0x20, 1 => b' ', _ => cx.rng.byte() }; }
        check_line(cx, l);
    }
}

// ------------------------------------------------------------------ the control connection

#[derive(Clone, Debug)]
enum Op {
    /// a command; `true`: its issuer gives up at once
    Cmd(Command, String, bool),
    Bytes(Vec<u8>),
    NoMoreCommands,
    Close,
}
#[derive(Clone, Debug)]
struct Script { seed: u64, ops: Vec<Op> }

fn bad_line(r: &mut Rng) -> Vec<u8> {
    r.pick(&[&b"OKAY"[..], b"", b"ok", b"BUFFER", b"BUFFER x", b"PTT", b"MISSING SOUNDCARD", b"\xff\xfe", b"OK OK", b"PTT ONN", b"CONNECTED A", b"\n", b"OK\n", b"WRONGLY", b"BUSY on", b" OK"]).to_vec()
}

fn script(seed: u64) -> Script {
    let mut r = Rng::new(seed);
    let mut ops = vec![];
    let mut pending: Vec<u8> = vec![];
    let mut owed = 0usize;
    let n = match r.below(4) { 0 => r.range(1, 4), 1 => r.range(4, 30), _ => r.range(2, 12) };
    let cutting = r.below(4);
    let flush = |r: &mut Rng, pending: &mut Vec<u8>, ops: &mut Vec<Op>, all: bool| {
        while !pending.is_empty() {
            let k = match cutting { 0 => pending.len(), 1 => 1, 2 => r.range(1, pending.len()), _ => r.range(1, pending.len().min(6)) };
            let k = k.min(pending.len());
            ops.push(Op::Bytes(pending.drain(..k).collect()));
            if !all && r.chance(1, 2) { break; }
        }
    };
    let with_bad = r.chance(1, 6);
    let bad_at = r.below(n);
    for i in 0..n {
        match r.below(5) {
            0 | 1 if owed < 5 => {
                if r.chance(1, 2) { flush(&mut r, &mut pending, &mut ops, false); }
                let (c, t) = command(&mut r);
                ops.push(Op::Cmd(c, t, r.chance(1, 8)));
                owed += 1;
            }
            2 | 3 if owed > 0 => {
                pending.extend(if r.chance(2, 3) { &b"OK\r"[..] } else { &b"WRONG\r"[..] });
                owed -= 1;
            }
            _ => { pending.extend(update_line(&mut r).as_bytes()); pending.push(b'\r'); }
        }
        if with_bad && i == bad_at { pending.extend(bad_line(&mut r)); pending.push(b'\r'); }
        if r.chance(1, 3) { flush(&mut r, &mut pending, &mut ops, false); }
    }
    match r.below(4) {
        0 => { if r.chance(1, 2) { pending.extend(b"BUF"); } flush(&mut r, &mut pending, &mut ops, true); ops.push(Op::Close); }
        1 => { flush(&mut r, &mut pending, &mut ops, true); ops.push(Op::NoMoreCommands); }
        _ => {
            // replies still owed when the last issuer is gone
            if r.chance(1, 2) { flush(&mut r, &mut pending, &mut ops, true); }
            ops.push(Op::NoMoreCommands);
        }
    }
    if !matches!(ops.last(), Some(Op::Close)) {
        if owed == 0 && !pending.is_empty() { // everything owed has to be on the wire before the end is decided
            let at = ops.len() - 1;
            let mut rest = vec![];
            flush(&mut r, &mut pending, &mut rest, true);
            for (k, o) in rest.into_iter().enumerate() { ops.insert(at + k, o); }
        }
        while owed > 0 {
            if r.chance(1, 4) { pending.extend(update_line(&mut r).as_bytes()); pending.push(b'\r'); }
            pending.extend(if r.chance(2, 3) { &b"OK\r"[..] } else { &b"WRONG\r"[..] });
            owed -= 1;
            if r.chance(1, 2) { flush(&mut r, &mut pending, &mut ops, true); }
        }
        flush(&mut r, &mut pending, &mut ops, true);
    }
    Script { seed, ops }
}

#[derive(Clone, Debug, PartialEq)]
struct State { buffer: usize, busy: bool, ptt: bool, connection: Option<Meaning>, registered: BTreeSet<String> }
impl State {
    fn new() -> State { State { buffer: 0, busy: false, ptt: false, connection: Some(Meaning::Disconnected), registered: Default::default() } }
    fn apply(&mut self, m: &Meaning) {
        match m {
            Meaning::Buffer(n) => self.buffer = *n,
            Meaning::Busy(b) => self.busy = *b,
            Meaning::Ptt(b) => self.ptt = *b,
            Meaning::Registered(s) => { self.registered.insert(s.clone()); }
            Meaning::Connected(..) | Meaning::Disconnected | Meaning::Pending | Meaning::Canceled => self.connection = Some(m.clone()),
            _ => {}
        }
    }
    fn of(s: &real::Status) -> State {
        State {
            buffer: s.buffer(), busy: s.busy() == BusyState::Busy, ptt: s.rig() == TransceiverCommand::Transmit,
            connection: Some(match s.connection() {
                ConnectionStateOwned::Disconnected => Meaning::Disconnected, ConnectionStateOwned::Pending => Meaning::Pending, ConnectionStateOwned::Canceled => Meaning::Canceled,
                ConnectionStateOwned::Connected { my_station, other_station } => Meaning::Connected(my_station.as_str().into(), other_station.as_str().into()),
            }),
            registered: s.registered().into_iter().collect(),
        }
    }
}

/// sessions use different loopback addresses, so that closed connections do not pile up on one
fn place(seed: u64) -> std::net::IpAddr {
    let h = seed.wrapping_mul(0x9E3779B97F4A7C15) >> 40;
    std::net::Ipv4Addr::new(127, 1 + (h >> 16) as u8 % 250, (h >> 8) as u8, 1 + h as u8 % 250).into()
}

async fn pair(l: &TcpListener) -> (TcpStream, TcpStream) {
    let a = TcpStream::connect(l.local_addr().unwrap());
    let (a, b) = tokio::join!(a, l.accept());
    let (a, b) = (a.unwrap(), b.unwrap().0);
    b.set_nodelay(true).unwrap();
    (a, b)
}

/// the real modem task on one end, the script on the other
async fn control_session(s: Script) -> Result<(), String> {
    let l = TcpListener::bind((place(s.seed), 0)).await.unwrap();
    let (ours, mut modem) = pair(&l).await;
    let (tx, rx) = tokio::sync::mpsc::channel(1);
    let mut tx = Some(tx);
    let (task, status) = real::manage(rx, ours);
    let mut task = tokio::spawn(task);
    let mut ended: Option<Result<(), String>> = None;
    let beat0 = status.heartbeat();
    let mut beats = false;
    let mut state = State::new();
    let mut wire: Vec<u8> = vec![];
    // one entry per command: its reply channel unless given up, and the reply it must get
    let mut issued: Vec<(Option<tokio::sync::oneshot::Receiver<CommandResult>>, Option<CommandResult>, bool)> = vec![];
    let mut answered = 0usize;
    let mut sent_text = String::new();
    let mut got_text: Vec<u8> = vec![];
    let mut must_end: Option<bool> = None; // Some(true): with success
    let mut no_more = false;
    for op in &s.ops {
        match op {
            Op::Cmd(c, text, give_up) => {
                let (otx, orx) = tokio::sync::oneshot::channel();
                let orx = if *give_up { None } else { Some(orx) };
                issued.push((orx, None, false));
                let t = match &tx { Some(t) => t.clone(), None => continue };
                if tokio::time::timeout(PATIENCE, t.send((c.clone(), otx))).await.map_err(|_| "a command is never taken")?.is_err() { return Err("the session ended before a command was sent".into()); }
                sent_text.push_str(text);
                sent_text.push('\r');
                let mut b = [0u8; 512];
                while got_text.len() < sent_text.len() {
                    match tokio::time::timeout(PATIENCE, modem.read(&mut b)).await {
                        Ok(Ok(n)) if n > 0 => got_text.extend(&b[..n]),
                        _ => break,
                    }
                }
                if got_text != sent_text.as_bytes() { return Err(format!("commands {:?} reach the modem as {:?}", sent_text, String::from_utf8_lossy(&got_text))); }
            }
            Op::NoMoreCommands => {
                tx = None;
                no_more = true;
                if answered == issued.len() { must_end = Some(true); }
            }
            Op::Close => {
                drop(modem);
                must_end = Some(false);
                modem = { let (a, b) = pair(&l).await; drop(a); b };
            }
            Op::Bytes(b) => {
                wire.extend(b);
                if modem.write_all(b).await.is_err() { return Err("the control connection is closed while the modem still talks".into()); }
                while let Some(i) = wire.iter().position(|&c| c == b'\r') {
                    let line: Vec<u8> = wire.drain(..=i).collect();
                    match meaning(&line[..line.len() - 1]) {
                        None => { must_end = Some(false); break; }
                        Some(Meaning::Ok) | Some(Meaning::Wrong) => {
                            let m = if line[0] == b'O' { CommandResult::Ok } else { CommandResult::Wrong };
                            if answered < issued.len() { issued[answered].1 = Some(m); answered += 1; }
                        }
                        Some(Meaning::Alive) => beats = true,
                        Some(m) => state.apply(&m),
                    }
                }
                if must_end.is_none() && no_more && answered == issued.len() { must_end = Some(true); }
            }
        }
        // what is published and delivered must now become, and stay, exactly what has been said so far
        let start = std::time::Instant::now();
        let mut calm = 0;
        loop {
            let mut fine = State::of(&status) == state && (status.heartbeat() != beat0) == beats;
            for (k, (rx, want, done)) in issued.iter_mut().enumerate() {
                if let Some(rx) = rx {
                    if *done { continue; }
                    match rx.try_recv() {
                        Ok(v) => {
                            if *want != Some(v) { return Err(format!("command {} gets the reply {:?}, its own is {:?}", k, v, want)); }
                            *done = true;
                        }
                        Err(tokio::sync::oneshot::error::TryRecvError::Empty) => if want.is_some() { fine = false; },
                        Err(tokio::sync::oneshot::error::TryRecvError::Closed) => {
                            if want.is_some() { return Err(format!("command {} never gets its reply", k)); }
                            if must_end.is_none() { return Err(format!("command {} is dropped without a reply", k)); }
                        }
                    }
                }
            }
            if fine { calm += 1; if calm > 2 { break; } } else { calm = 0; }
            if start.elapsed() > PATIENCE {
                return Err(format!("after the modem said {} the published state is {:?}, should be {:?} (replies due: {})", describe(&s), State::of(&status), state, issued.iter().filter(|x| x.1.is_some() && !x.2 && x.0.is_some()).count()));
            }
            tokio::time::sleep(Duration::from_micros(if calm > 0 { 300 } else { 100 })).await;
        }
        if must_end.is_some() { break; }
    }
    let must = must_end.unwrap_or(true);
    if must_end.is_some() || no_more {
        match tokio::time::timeout(PATIENCE, &mut task).await {
            Err(_) => return Err(format!("the session does not end {}", if must { "after the last reply" } else { "although the connection is closed or a line is unreadable" })),
            Ok(Err(_)) => return Err("the modem task panics".into()),
            Ok(Ok(Ok(()))) => ended = Some(Ok(())),
            Ok(Ok(Err(e))) => ended = Some(Err(e.to_string())),
        }
        if State::of(&status) != state { return Err(format!("published state at the end {:?}, should be {:?}", State::of(&status), state)); }
        for (k, (rx, want, done)) in issued.iter_mut().enumerate() {
            if let Some(rx) = rx { if !*done { match rx.try_recv() { Ok(v) => if *want != Some(v) { return Err(format!("command {} gets the reply {:?}, its own is {:?}", k, v, want)); }, Err(_) => if want.is_some() { return Err(format!("command {} never gets its reply", k)); } } } }
        }
        match (&ended, must) {
            (Some(Ok(())), false) => return Err("the session ends without an error although the connection was closed or a line unreadable".into()),
            (Some(Err(e)), true) => return Err(format!("the session fails: {}", e)),
            _ => {}
        }
    }
    task.abort();
    Ok(())
}
fn describe(s: &Script) -> String {
    s.ops.iter().map(|o| match o { Op::Cmd(_, t, g) => format!("<{}{}>", t, if *g { ", given up" } else { "" }), Op::Bytes(b) => format!("{:?}", String::from_utf8_lossy(b)), Op::NoMoreCommands => "<no more commands>".into(), Op::Close => "<close>".into() }).collect::<Vec<_>>().join(" ")
}

// ------------------------------------------------------------------ whole sessions through the public interface

struct Fake { control: TcpStream, data: TcpStream, seen: Vec<u8> }
impl Fake {
    async fn line(&mut self) -> Result<String, String> {
        loop {
            if let Some(i) = self.seen.iter().position(|&c| c == b'\r') {
                let l: Vec<u8> = self.seen.drain(..=i).collect();
                return Ok(String::from_utf8_lossy(&l[..l.len() - 1]).into_owned());
            }
            let mut b = [0u8; 256];
            match tokio::time::timeout(PATIENCE, self.control.read(&mut b)).await {
                Ok(Ok(n)) if n > 0 => self.seen.extend(&b[..n]),
                Ok(_) => return Err("the control connection is closed".into()),
                Err(_) => return Err("no command arrives".into()),
            }
        }
    }
    async fn expect(&mut self, want: &str) -> Result<(), String> {
        let l = self.line().await?;
        if l == want { Ok(()) } else { Err(format!("the modem is sent {:?} instead of {:?}", l, want)) }
    }
    async fn say(&mut self, s: &str) { let _ = self.control.write_all(s.as_bytes()).await; }
    /// nothing more is sent for a while
    async fn quiet(&mut self) -> Result<(), String> {
        let mut b = [0u8; 256];
        match tokio::time::timeout(Duration::from_millis(15), self.control.read(&mut b)).await {
            Ok(Ok(n)) if n > 0 => self.seen.extend(&b[..n]),
            _ => {}
        }
        if self.seen.is_empty() { Ok(()) } else { Err(format!("the modem is also sent {:?}", String::from_utf8_lossy(&self.seen))) }
    }
}
async fn start(seed: u64) -> Result<(VaraTnc, Fake), String> {
    let at = place(seed);
    let c = TcpListener::bind((at, 0)).await.unwrap();
    let d = TcpListener::bind((at, 0)).await.unwrap();
    let mut b = VaraTnc::builder();
    b.host(at).control_port(NonZeroU16::new(c.local_addr().unwrap().port()).unwrap()).data_port(NonZeroU16::new(d.local_addr().unwrap().port()).unwrap());
    let (t, c, d) = tokio::join!(b.build(), c.accept(), d.accept());
    let (control, data) = (c.unwrap().0, d.unwrap().0);
    control.set_nodelay(true).unwrap();
    data.set_nodelay(true).unwrap();
    Ok((t.map_err(|e| e.to_string())?, Fake { control, data, seen: vec![] }))
}
async fn within<T>(what: &str, f: impl std::future::Future<Output = T>) -> Result<T, String> {
    tokio::time::timeout(PATIENCE, f).await.map_err(|_| format!("{} never completes", what))
}

/// C16 through the public interface: concurrent commands, each with its own reply
async fn api_session(seed: u64) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let (tnc, mut fake) = start(seed).await?;
    let n = r.range(1, 3);
    let mut oks: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
    // the session may end before every command has its reply; those still waiting must be told
    let cut = if r.chance(1, 3) { Some((r.below(n), r.below(3))) } else { None };
    let kinds: Vec<usize> = (0..n).map(|_| r.below(5)).collect();
    let calls: Vec<String> = (0..n).map(|_| call(&mut r)).collect();
    let noise: Vec<String> = (0..n).map(|_| if r.chance(1, 2) { update_line(&mut r) + "\r" } else { String::new() }).collect();
    let issue = |k: usize| { let tnc = &tnc; let kind = kinds.get(k).copied(); let c = calls.get(k).cloned(); async move { match kind {
        None => None,
        Some(0) => Some(tnc.send_abort().await.is_ok()),
        Some(1) => Some(tnc.send_disconnect().await.is_ok()),
        Some(2) => Some(tnc.send_compression(CompressionMode::Files).await.is_ok()),
        Some(3) => Some(tnc.send_bandwidth(BandwidthMode::Narrow).await.is_ok()),
        _ => Some(tnc.send_callsign(id(&c.unwrap())).await.is_ok()),
    } } };
    let text: Vec<String> = kinds.iter().zip(&calls).map(|(k, c)| match k { 0 => "ABORT".to_string(), 1 => "DISCONNECT".into(), 2 => "COMPRESSION FILES".into(), 3 => "BW500".into(), _ => format!("MYCALL {}", c) }).collect();
    let modem = async {
        for t in &text { fake.expect(t).await?; }
        let mut all = String::new();
        for (k, (ok, x)) in oks.iter_mut().zip(&noise).enumerate() {
            all.push_str(x);
            if let Some((at, how)) = cut {
                if k >= at {
                    *ok = false;
                    if k == at { all.push_str(["", "BUF", "NO SUCH LINE\r"][how]); }
                    continue;
                }
            }
            all.push_str(if *ok { "OK\r" } else { "WRONG\r" });
        }
        let k = r.below(all.len() + 1);
        fake.say(&all[..k]).await;
        tokio::time::sleep(Duration::from_millis(1)).await;
        fake.say(&all[k..]).await;
        if let Some((_, 0 | 1)) = cut { let _ = fake.control.shutdown().await; }
        Ok::<(), String>(())
    };
    let (a, b, c, m) = within("a command", async { tokio::join!(issue(0), issue(1), issue(2), modem) }).await?;
    m?;
    let got: Vec<bool> = [a, b, c].iter().flatten().copied().collect();
    if got != oks { return Err(format!("commands {:?} with replies ok={:?} report success={:?}{}", text, oks, got, if cut.is_some() { " although the session ended first" } else { "" })); }
    Ok(())
}

/// C19
async fn connect_session(seed: u64) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let (mut tnc, mut fake) = start(seed).await?;
    let rounds = r.range(1, 3);
    for _ in 0..rounds {
        let (me, you) = (call(&mut r), call(&mut r));
        let states = ["CONNECTED A1BC D2EF", "DISCONNECTED", "PENDING", "CANCELPENDING"];
        // reported before the request
        let before: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&states)).collect();
        for b in &before { fake.say(&format!("{}\r", b)).await; }
        if !before.is_empty() {
            // once the buffer level that follows them is published, they are too
            let mark = r.range(1, 1 << 40);
            fake.say(&format!("BUFFER {}\r", mark)).await;
            within("a status update", async { while tnc.buffer() != mark { tokio::time::sleep(Duration::from_micros(200)).await; } }).await?;
        }
        let ok = r.chance(4, 5);
        let first = r.below(4);
        let early = ok && r.chance(1, 2);
        let pause = r.chance(1, 2);
        let split = r.chance(1, 2);
        let busy = r.chance(1, 2);
        let want_text = format!("CONNECT {} {}", me, you);
        let modem = async {
            fake.expect(&want_text).await?;
            if busy { fake.say("PTT ON\rBUFFER 3\r").await; }
            if !ok { fake.say("WRONG\r").await; return Ok::<(), String>(()); }
            let st = format!("{}\r", states[first]);
            if early { fake.say(&st).await; }
            if pause { tokio::time::sleep(Duration::from_millis(2)).await; }
            fake.say("OK\r").await;
            if !early {
                if pause { tokio::time::sleep(Duration::from_millis(2)).await; }
                if split { fake.say(&st[..4]).await; tokio::time::sleep(Duration::from_millis(1)).await; fake.say(&st[4..]).await; } else { fake.say(&st).await; }
            }
            Ok(())
        };
        let should = ok && first == 0;
        let what = format!("before the request {:?}, then {} and {:?}{}", before, if ok { "OK" } else { "WRONG" }, if ok { states[first] } else { "" }, if early { " (reported before the reply)" } else { "" });
        {
            let (res, m) = within("connecting", async { tokio::join!(tnc.connect(id(&me), id(&you)), modem) }).await.map_err(|e| format!("{}: {}", e, what))?;
            m?;
            if res.is_ok() != should { return Err(format!("connecting {} ({})", if res.is_ok() { "succeeds" } else { "fails" }, what)); }
            if let Ok(s) = res {
                drop(s);
            }
        }
        if should {
            fake.expect("DISCONNECT").await?;
            fake.say("OK\rDISCONNECTED\r").await;
        }
        fake.quiet().await?;
    }
    Ok(())
}

/// C18
async fn stream_session(seed: u64) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let (mut tnc, mut fake) = start(seed).await?;
    let (me, you) = (call(&mut r), call(&mut r));
    let modem = async { fake.line().await?; fake.say(&format!("OK\rCONNECTED {} {}\r", me, you)).await; Ok::<(), String>(()) };
    let (s, m) = within("connecting", async { tokio::join!(tnc.connect(id(&me), id(&you)), modem) }).await?;
    m?;
    let mut s = s.map_err(|e| format!("connecting fails: {}", e))?;
    // data passes unchanged both ways
    for _ in 0..r.below(4) {
        let n = r.range(1, 300);
        let d = r.bytes(n);
        let mut got = vec![0u8; n];
        if r.chance(1, 2) {
            if r.chance(1, 2) { within("writing", s.write_all(&d)).await?.map_err(|e| format!("writing fails: {}", e))?; }
            else {
                let mut at = 0;
                while at < n {
                    let b = [std::io::IoSlice::new(&d[at..at + (n - at) / 2]), std::io::IoSlice::new(&d[at + (n - at) / 2..])];
                    at += within("writing", s.write_vectored(&b)).await?.map_err(|e| format!("writing fails: {}", e))?;
                }
            }
            within("flushing", s.flush()).await?.map_err(|e| format!("flushing fails: {}", e))?;
            within("what was written", fake.data.read_exact(&mut got)).await?.map_err(|e| e.to_string())?;
        } else {
            fake.data.write_all(&d).await.map_err(|e| e.to_string())?;
            within("reading", s.read_exact(&mut got)).await?.map_err(|e| format!("reading fails: {}", e))?;
        }
        if got != d { return Err("the data stream changes the data".into()); }
    }
    // other reports do not close it
    for _ in 0..r.below(3) {
        let l = loop { let l = update_line(&mut r); if l != "DISCONNECTED" { break l; } };
        fake.say(&format!("{}\r", l)).await;
        if r.chance(1, 2) { tokio::time::sleep(Duration::from_millis(1)).await; }
        fake.data.write_all(b"x").await.map_err(|e| e.to_string())?;
        let mut b = [0u8; 4];
        let n = within("reading", s.read(&mut b)).await?.map_err(|e| format!("reading fails: {}", e))?;
        if n != 1 || b[0] != b'x' { return Err(format!("after the report {:?} a read gives {} bytes", l, n)); }
    }
    let remote = r.chance(2, 3);
    if remote {
        fake.say("DISCONNECTED\r").await;
        let mut b = [0u8; 8];
        let n = within("reading after the remote end disconnected", s.read(&mut b)).await?.map_err(|e| format!("reading fails after the remote end disconnected: {}", e))?;
        if n != 0 { return Err(format!("reading gives {} bytes after the remote end disconnected", n)); }
        for _ in 0..r.range(1, 12) {
            let (what, e) = match r.below(5) {
                0 => {
                    let n = within("reading", s.read(&mut b)).await?.map_err(|e| format!("reading fails after the remote end disconnected: {}", e))?;
                    if n != 0 { return Err(format!("reading gives {} bytes after the remote end disconnected", n)); }
                    continue;
                }
                1 => ("writing", within("writing", s.write(b"abc")).await?.err()),
                2 => ("flushing", within("flushing", s.flush()).await?.err()),
                3 => ("shutting down", within("shutting down", s.shutdown()).await?.err()),
                _ => ("writing several buffers", within("writing", s.write_vectored(&[std::io::IoSlice::new(b"a"), std::io::IoSlice::new(b"b")])).await?.err()),
            };
            match e {
                None => return Err(format!("{} succeeds after the remote end disconnected", what)),
                Some(e) if e.kind() != std::io::ErrorKind::ConnectionAborted => return Err(format!("{} after the remote end disconnected fails with {:?}", what, e.kind())),
                _ => {}
            }
            // nothing leaks onto the data port
        }
        // anything said on the control port afterwards changes nothing
        if r.chance(1, 2) {
            fake.say("PENDING\rBUFFER 9\r").await;
            tokio::time::sleep(Duration::from_millis(1)).await;
            let n = within("reading", s.read(&mut b)).await?.map_err(|e| format!("reading fails: {}", e))?;
            if n != 0 { return Err("reading gives data after the remote end disconnected".into()); }
            fake.say("DISCONNECTED\r").await;
            tokio::time::sleep(Duration::from_millis(3)).await;
        }
        drop(s);
        fake.quiet().await?;
        let mut rest = [0u8; 16];
        if let Ok(Ok(n)) = tokio::time::timeout(Duration::from_millis(1), fake.data.read(&mut rest)).await { if n > 0 { return Err("data written after the remote end disconnected reaches the modem".into()); } }
    } else {
        if r.chance(1, 3) { fake.say("PENDING\r").await; tokio::time::sleep(Duration::from_millis(2)).await; }
        drop(s);
        fake.expect("DISCONNECT").await.map_err(|e| format!("dropping the stream: {}", e))?;
        fake.say("OK\rDISCONNECTED\r").await;
        fake.quiet().await?;
    }
    // the modem stays usable
    let (a, m) = within("a command", async { tokio::join!(tnc.send_abort(), async { let x = fake.expect("ABORT").await; fake.say("OK\r").await; x }) }).await?;
    m?;
    a.map_err(|e| format!("the next command fails: {}", e))
}

/// C20
async fn ports_session(seed: u64) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let local = place(seed);
    match r.below(4) {
        0 => {
            // the highest port, and no data port
            let mut b = VaraTnc::builder();
            b.host(local).control_port(NonZeroU16::new(u16::MAX).unwrap());
            let _l = TcpListener::bind((local, u16::MAX)).await;
            match within("building", b.build()).await? {
                Ok(_) => Err("a modem with control port 65535 and no data port is built".into()),
                Err(e) if e.kind() == std::io::ErrorKind::InvalidInput => Ok(()),
                Err(e) => Err(format!("control port 65535 without a data port is refused with {:?}", e.kind())),
            }
        }
        1 => {
            // the highest port with a data port
            let (c, d) = match TcpListener::bind((local, u16::MAX)).await { Ok(c) => (c, TcpListener::bind((local, 0)).await.unwrap()), Err(_) => return Ok(()) };
            let mut b = VaraTnc::builder();
            let dp = NonZeroU16::new(d.local_addr().unwrap().port()).unwrap();
            if r.chance(1, 2) { b.data_port(dp).host(local).control_port(NonZeroU16::new(u16::MAX).unwrap()); } else { b.host(local).control_port(NonZeroU16::new(u16::MAX).unwrap()).data_port(dp); }
            both(b, c, d).await
        }
        2 => {
            // the default
            let (c, d) = loop {
                let c = TcpListener::bind((local, 0)).await.unwrap();
                let p = c.local_addr().unwrap().port();
                if p == u16::MAX { continue; }
                if let Ok(d) = TcpListener::bind((local, p + 1)).await { break (c, d); }
            };
            let mut b = VaraTnc::builder();
            b.host(local).control_port(NonZeroU16::new(c.local_addr().unwrap().port()).unwrap());
            both(b, c, d).await
        }
        _ => {
            let c = TcpListener::bind((local, 0)).await.unwrap();
            let d = TcpListener::bind((local, 0)).await.unwrap();
            // a tempting neighbour
            let p = c.local_addr().unwrap().port();
            let next = if p < u16::MAX { TcpListener::bind((local, p + 1)).await.ok() } else { None };
            let mut b = VaraTnc::builder();
            b.host(local).data_port(NonZeroU16::new(d.local_addr().unwrap().port()).unwrap()).control_port(NonZeroU16::new(p).unwrap());
            both(b, c, d).await?;
            if let Some(n) = next { if tokio::time::timeout(Duration::from_millis(1), n.accept()).await.is_ok() { return Err("the port after the control port is used although a data port is set".into()); } }
            Ok(())
        }
    }
}
async fn both(mut b: VaraTncBuilder, c: TcpListener, d: TcpListener) -> Result<(), String> {
    let acc = async { tokio::join!(tokio::time::timeout(Duration::from_secs(5), c.accept()), tokio::time::timeout(Duration::from_secs(5), d.accept())) };
    let t = tokio::spawn(async move { b.build().await });
    let (c1, d1) = acc.await;
    let (mut c1, mut d1) = match (c1, d1) {
        (Ok(Ok(c)), Ok(Ok(d))) => (c.0, d.0),
        _ => { t.abort(); return Err("the modem is not reached on the control and data ports it should use".into()); }
    };
    let t = match within("building", t).await? { Ok(Ok(t)) => t, Ok(Err(e)) => return Err(format!("building fails: {}", e)), Err(_) => return Err("building panics".into()) };
    // commands go to the control port, and only there
    let (a, m) = within("a command", async { tokio::join!(t.send_abort(), async {
        let mut x = [0u8; 6];
        let got = tokio::time::timeout(PATIENCE, c1.read_exact(&mut x)).await;
        let _ = c1.write_all(b"OK\r").await;
        matches!(got, Ok(Ok(_))) && &x == b"ABORT\r"
    }) }).await?;
    if !m || a.is_err() { return Err("the control port does not carry the commands".into()); }
    let mut x = [0u8; 8];
    if let Ok(Ok(n)) = tokio::time::timeout(Duration::from_millis(1), d1.read(&mut x)).await { if n > 0 { return Err("commands reach the data port".into()); } }
    Ok(())
}

// ------------------------------------------------------------------ drivers

fn sessions<F>(cx: &mut Ctx, replay: Option<String>, parallel: usize, run: fn(u64) -> F, show: fn(u64) -> String)
where F: std::future::Future<Output = Result<(), String>> + Send + 'static {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let batch = |seeds: &[u64]| -> Vec<Result<(), String>> {
        rt.block_on(async {
            let hs: Vec<_> = seeds.iter().map(|&s| tokio::spawn(run(s))).collect();
            let mut out = vec![];
            for h in hs { out.push(match h.await { Ok(r) => r, Err(e) => Err(format!("panic: {:?}", e)) }); }
            out
        })
    };
    if let Some(r) = replay {
        let s = seed_of(&r);
        for _ in 0..20 { let o = batch(&[s]).remove(0); cx.case(format!("seed={} {}", s, show(s)), true, move || o); }
        return;
    }
    let base = cx.rng.next();
    let mut k = 0u64;
    while cx.time_left() {
        let seeds: Vec<u64> = (0..parallel as u64).map(|i| base.wrapping_add(k + i)).collect();
        k += parallel as u64;
        for (s, o) in seeds.iter().zip(batch(&seeds)) {
            let s = *s;
            cx.case(format!("seed={} {}", s, show(s)), true, move || o);
        }
    }
}

pub fn run(cx: &mut Ctx, prop: &str, replay: Option<String>) {
    match prop {
        "C13" => c13(cx, replay),
        "C14" => c14(cx, replay),
        "C15" | "C16" => {
            cx.rule = "scripted control connections over loopback: commands, replies, status lines, unreadable lines and closing, cut into reads in several ways; after every read the published state and the delivered replies are compared with an independent reading of the lines complete so far; non-trivial: every session".into();
            async fn mixed(seed: u64) -> Result<(), String> { if seed % 5 == 0 { api_session(seed).await } else { control_session(script(seed)).await } }
            sessions(cx, replay, 200, mixed, |s| if s % 5 == 0 { "concurrent commands through the public interface".into() } else { describe(&script(s)) });
        }
        "C18" => {
            cx.rule = "sessions over loopback: connect, data both ways, other reports, remote disconnect or drop, then repeated reads, writes, flushes and shutdowns; non-trivial: every session".into();
            sessions(cx, replay, 32, stream_session, |_| "stream session".into());
        }
        "C19" => {
            cx.rule = "sessions over loopback: 1 to 3 connect requests, states reported before the request, before and after its reply, accepted or refused; non-trivial: every session".into();
            sessions(cx, replay, 64, connect_session, |_| "connect session".into());
        }
        "C20" => {
            cx.rule = "modems built with default, explicit and highest ports against listeners on loopback; non-trivial: every case".into();
            sessions(cx, replay, 1, ports_session, |_| "ports".into());
        }
        _ => unreachable!(),
    }
    let _ = Script { seed: 0, ops: vec![] }.seed;
}
