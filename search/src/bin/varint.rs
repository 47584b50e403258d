//! C01 against the real, private varint module, compiled here directly from /repo.
use fleece_search::*;
use fleece_search::guard::Guarded;
#[allow(dead_code)]
#[path = "/repo/src/value/varint.rs"]
mod varint;

fn enc(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop { let b = (v % 128) as u8; v /= 128; if v == 0 { o.push(b); return o; } o.push(b + 128); }
}
fn dec(s: &[u8]) -> (usize, u64) {
    let mut v: u128 = 0;
    let mut p: u128 = 1;
    for (i, b) in s.iter().take(10).enumerate() {
        v += (*b as u128 % 128) * p;
        p *= 128;
        if *b < 128 { return if v < 1 << 64 { (i + 1, v as u64) } else { (0, 0) }; }
    }
    (0, 0)
}
fn value(t: &mut Tape) -> u64 {
    match t.pick(4) {
        0 => { let k = t.pick(64); (1u64 << k).wrapping_add(t.pick(5)).wrapping_sub(2) }
        1 => { let k = t.pick(65); let v = t.raw(); if k == 0 { 0 } else { v >> (64 - k) } }
        2 => { let d = t.pick(8); u64::MAX - d }
        _ => t.raw(),
    }
}
fn round_trip(t: &mut Tape) -> Res {
    let v = value(t);
    let e = enc(v);
    t.nontrivial();
    t.note(|| format!("value {v}"));
    ensure!(varint::size_required(v) == e.len(), "size_required({v}) = {}, shortest encoding has {} bytes", varint::size_required(v), e.len());
    let slack = t.pick(3) as usize;
    let mut g = Guarded::new(&vec![0xAA; e.len() + slack], true);
    let n = varint::write(g.bytes_mut(), v);
    ensure!(n == e.len(), "write({v}) returned {n}, wrote {} bytes", e.len());
    ensure!(g.bytes()[..n] == e[..], "write({v}) produced {:02x?}, expected {:02x?}", &g.bytes()[..n], e);
    ensure!(g.bytes()[n..].iter().all(|b| *b == 0xAA), "write({v}) wrote past {n} bytes");
    let mut tail = e.clone();
    for _ in 0..t.pick(4) { let b = t.pick(256) as u8; tail.push(b); }
    let g = Guarded::new(&tail, true);
    let r = varint::read(g.bytes());
    ensure!(r == (e.len(), v), "read({tail:02x?}) = {r:?}, expected ({}, {v})", e.len());
    Ok(())
}
fn arbitrary(t: &mut Tape) -> Res {
    let n = t.pick(16) as usize;
    let mut s = vec![];
    let mode = t.pick(3);
    for _ in 0..n {
        let b = match mode { 0 => t.pick(256), 1 => 128 + t.pick(128), _ => { let c = t.pick(8); if c == 0 { t.pick(128) } else { 128 + t.pick(128) } } } as u8;
        s.push(b);
    }
    if mode == 1 && t.pick(2) == 1 { let b = t.pick(128) as u8; s.push(b); }
    if n > 1 { t.nontrivial(); }
    t.note(|| format!("bytes {s:02x?}"));
    let g = Guarded::new(&s, true);
    let r = varint::read(g.bytes());
    ensure!(r == dec(&s), "read({s:02x?}) = {r:?}, expected {:?}", dec(&s));
    Ok(())
}
fn rt_fixed(_: bool) -> Vec<Vec<u64>> {
    let mut o = vec![];
    for k in 0..64 { for d in 0..5 { o.push(vec![0, k, d, 0, 2, 0xFF, 0x01]); } }
    o
}
fn arb_fixed(_: bool) -> Vec<Vec<u64>> {
    let mut o = vec![];
    for n in 0..12u64 { for last in [0u64, 1, 2, 127] { for fill in [0u64, 1, 127] {
        let mut v = vec![n, 1]; for _ in 0..n { v.push(fill); } v.push(1); v.push(last); o.push(v);
    } } }
    o
}
fn main() {
    fleece_search::main(&[
        Family { name: "varint_round_trip", props: &["C01"], rule: "random and boundary u64 values (powers of two and neighbours), exact-size buffers against a guard page, trailing bytes", run: round_trip, fixed: rt_fixed, weight: 3 },
        Family { name: "varint_arbitrary", props: &["C01"], rule: "arbitrary byte strings of 0..16 bytes, biased to continuation bytes, compared with a reference decoder", run: arbitrary, fixed: arb_fixed, weight: 3 },
    ]);
}
