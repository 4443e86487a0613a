//! C17: orders to the radio
use crate::ctx::*;
use plusendi::rig::elecraft::kx3::{manage_rig_thread, Command, TransmitState};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

#[derive(Clone, Debug)]
struct Script { orders: Vec<bool>, inbound: Vec<(usize, Vec<u8>)>, buffer: usize, chunk: usize, queue: usize, burst: usize, delay: bool }

fn show(s: &Script) -> String {
    format!("orders={} buffer={} chunk={} queue={} burst={} delay={} inbound={}", s.orders.iter().map(|&t| if t { 'T' } else { 'R' }).collect::<String>(), s.buffer, s.chunk, s.queue, s.burst, s.delay as u8,
        s.inbound.iter().map(|(k, b)| format!("{}:{}", k, hex(b))).collect::<Vec<_>>().join(","))
}
fn parse(t: &str) -> Script {
    let mut s = Script { orders: vec![], inbound: vec![], buffer: 64, chunk: 64, queue: 1, burst: 1, delay: false };
    for w in t.split(' ') {
        let (k, v) = w.split_once('=').unwrap();
        match k {
            "orders" => s.orders = v.chars().map(|c| c == 'T').collect(),
            "buffer" => s.buffer = v.parse().unwrap(), "chunk" => s.chunk = v.parse().unwrap(), "queue" => s.queue = v.parse().unwrap(), "burst" => s.burst = v.parse().unwrap(),
            "delay" => s.delay = v == "1",
            _ => s.inbound = v.split(',').filter(|x| !x.is_empty()).map(|x| { let (a, b) = x.split_once(':').unwrap(); (a.parse().unwrap(), unhex(b)) }).collect(),
        }
    }
    s
}

fn check(cx: &mut Ctx, rt: &tokio::runtime::Runtime, s: Script) {
    cx.case(show(&s), s.orders.len() > 1, || rt.block_on(async {
        let want: String = s.orders.iter().map(|&t| if t { "TX;" } else { "RX;" }).collect();
        let (ours, rig) = tokio::io::duplex(s.buffer);
        let (tx, rx) = tokio::sync::mpsc::channel(s.queue);
        let task = tokio::spawn(manage_rig_thread(rx, ours));
        let (mut rd, mut wr) = tokio::io::split(rig);
        let orders = s.orders.clone();
        let burst = s.burst;
        let feeder = tokio::spawn(async move {
            for (i, t) in orders.into_iter().enumerate() {
                if tx.send(Command::SetTransmitState(if t { TransmitState::Transmit } else { TransmitState::Receive })).await.is_err() { return; }
                if i % burst == 0 { tokio::task::yield_now().await; }
            }
        });
        let inbound = s.inbound.clone();
        let talker = tokio::spawn(async move {
            for (k, b) in inbound {
                for _ in 0..k { tokio::task::yield_now().await; }
                if wr.write_all(&b).await.is_err() { break; }
            }
            wr
        });
        let mut got = vec![];
        let mut buf = vec![0u8; s.chunk];
        while got.len() < want.len() {
            match tokio::time::timeout(std::time::Duration::from_secs(5), rd.read(&mut buf)).await {
                Ok(Ok(0)) | Ok(Err(_)) => break,
                Ok(Ok(n)) => got.extend(&buf[..n]),
                Err(_) => break,
            }
            if s.delay { for _ in 0..3 { tokio::task::yield_now().await; } }
            if !want.as_bytes().starts_with(&got) { break; }
        }
        let _ = feeder.await;
        // nothing may follow; the task ends by itself once no more orders can arrive
        let mut rest = vec![];
        let ended = tokio::time::timeout(std::time::Duration::from_secs(5), async { let _ = rd.read_to_end(&mut rest).await; }).await;
        got.extend(rest);
        let wr = talker.await;
        drop(wr);
        let got = String::from_utf8_lossy(&got).into_owned();
        if got != want { return Err(format!("orders {:?} reach the rig as {:?}", want, got)); }
        if ended.is_err() { return Err("the rig task does not end after the last order".into()); }
        match task.await { Ok(Ok(())) => Ok(()), Ok(Err(e)) => Err(format!("the rig task fails: {}", e)), Err(_) => Err("the rig task panics".into()) }
    }));
}

pub fn run(cx: &mut Ctx, replay: Option<String>) {
    cx.rule = "order sequences sent through the rig task over an in-memory port with small buffers, slow reading and frames (whole and partial) arriving from the rig at the same time; non-trivial: more than one order".into();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    if let Some(r) = replay { for _ in 0..200 { check(cx, &rt, parse(&r)); } return; }
    for n in 0..6usize { for m in 0..1usize << n {
        check(cx, &rt, Script { orders: (0..n).map(|i| m >> i & 1 == 1).collect(), inbound: vec![], buffer: 64, chunk: 64, queue: 1, burst: 1, delay: false });
    } }
    while cx.time_left() {
        let n = cx.rng.below(40);
        let style = cx.rng.below(4);
        let orders = (0..n).map(|i| match style { 0 => i % 2 == 0, 1 => true, 2 => false, _ => cx.rng.chance(1, 2) }).collect();
        let mut inbound = vec![];
        for _ in 0..cx.rng.below(12) {
            let mut b = vec![];
            for _ in 0..cx.rng.below(4) {
                let k = cx.rng.range(1, 8);
                b.extend((0..k).map(|_| { let x = cx.rng.byte(); if x == b';' { b'x' } else { x } }));
                b.push(b';');
            }
            // a frame must not be empty, so partial ones never end at a lone separator
            if cx.rng.chance(1, 3) { b.extend(b"IF0"); inbound.push((cx.rng.below(6), b)); inbound.push((cx.rng.below(6), b"12;".to_vec())); }
            else if !b.is_empty() { inbound.push((cx.rng.below(6), b)); }
        }
        let s = Script { orders, inbound, buffer: *cx.rng.pick(&[1usize, 2, 3, 4, 5, 7, 16, 64]), chunk: *cx.rng.pick(&[1usize, 2, 3, 8, 64]), queue: *cx.rng.pick(&[1usize, 1, 2, 8]), burst: *cx.rng.pick(&[1usize, 2, 5, 100]), delay: cx.rng.chance(1, 2) };
        check(cx, &rt, s);
    }
}
