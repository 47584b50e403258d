//! C06, C07, C16: bytes this library did not produce
use fleece::{Array, Dict, Encoder, SharedKeys, Value, ValueType};
use fleece_search::guard::Guarded;
use fleece_search::tree::*;
use fleece_search::*;

fn inside(v: &Value, d: &[u8]) -> bool {
    let p = std::ptr::from_ref(v).cast::<u8>() as usize;
    let s = d.as_ptr() as usize;
    p >= s && p + v.len() <= s + d.len()
}
fn sub(x: &[u8], d: &[u8]) -> bool {
    x.is_empty() || { let p = x.as_ptr() as usize; let s = d.as_ptr() as usize; p >= s && p + x.len() <= s + d.len() }
}
/// visit everything reachable; `all` also calls every accessor on it
fn walk(v: &Value, d: &[u8], budget: &mut u64, all: bool) -> Res {
    if *budget == 0 { return Ok(()); }
    *budget -= 1;
    ensure!(inside(v, d), "a reachable value lies outside the data (at {:+}, {} bytes, of {})",
        (std::ptr::from_ref(v).cast::<u8>() as isize).wrapping_sub(d.as_ptr() as isize), v.len(), d.len());
    ensure!(v.len() >= 2, "a reachable value has {} bytes", v.len());
    ensure!(v.value_type() != ValueType::Pointer, "a pointer was returned to the user");
    ensure!(sub(v.to_data(), d), "to_data lies outside the data");
    ensure!(sub(v.to_str().as_bytes(), d), "to_str lies outside the data");
    if all {
        let _ = (v.to_bool(), v.to_short(), v.to_unsigned_short(), v.to_int(), v.to_unsigned_int());
        let _ = (v.to_float(), v.to_double(), v.is_empty(), v.is_mutable(), v.required_size());
    }
    if let Some(a) = v.as_array() {
        let n = a.len();
        let mut i = 0;
        for x in a { ensure!(i < n, "iteration yields more than {n} elements"); walk(x, d, budget, all)?; i += 1; if *budget == 0 { return Ok(()); } }
        ensure!(i == n, "iteration yields {i} of {n} elements");
        if all {
            for i in [0, 1, n / 2, n.wrapping_sub(1), n, n + 1, 2 * n, usize::MAX, usize::MAX / 2, usize::MAX / 4 + 1] {
                match a.get(i) { Some(x) => { ensure!(i < n, "get({i}) of {n} elements is not None"); walk(x, d, &mut 1, false)?; } None => ensure!(i >= n, "get({i}) of {n} elements is None") }
            }
            let _ = (a.is_wide(), a.width(), a.is_empty(), a.iter().size_hint());
        }
    }
    if let Some(c) = v.as_dict() {
        let n = c.len();
        let mut i = 0;
        let mut keys: Vec<String> = vec![];
        for (k, x) in c { ensure!(sub(k.as_bytes(), d), "a key lies outside the data"); ensure!(i < n, "iteration yields more than {n} entries"); keys.push(k.to_string()); walk(x, d, budget, all)?; i += 1; if *budget == 0 { return Ok(()); } }
        if all {
            keys.truncate(8);
            for k in ["", "a", "key", "zzzz", "user", "a long key that is not shared", "\u{10ffff}"] { keys.push(k.into()); }
            let mut sk = SharedKeys::new();
            sk.encode_and_insert("key");
            sk.encode_and_insert("user");
            for k in &keys {
                if let Some(x) = c.get(k.as_str()) { walk(x, d, &mut 1, false)?; }
                if let Some(x) = c.get_with_shared_keys(k.as_str(), &sk) { walk(x, d, &mut 1, false)?; }
                let _ = (c.contains_key(k.as_str()), c.contains_key_with_shared_keys(k.as_str(), &sk));
            }
            if let Some((k, x)) = c.first() { walk(k, d, &mut 1, false)?; walk(x, d, &mut 1, false)?; }
            let _ = (c.is_wide(), c.width(), c.is_empty(), c.iter().size_hint());
        }
    }
    Ok(())
}
fn debug_str(x: &dyn std::fmt::Debug) -> usize { format!("{x:?}").len() }
/// one document, placed against an inaccessible page on either side
fn decode(doc: &[u8], at_end: bool, all: bool) -> Result<bool, String> {
    const CAP: u64 = 30_000;
    if unfolded(doc, CAP) >= CAP { return Ok(false); } // heavily shared: a traversal takes forever (known)
    let g = Guarded::new(doc, at_end);
    let d = g.bytes();
    let v = match Value::from_bytes(d) { Ok(v) => v, Err(e) => { if all { let _ = format!("{e} {e:?}"); } return Ok(false); } };
    ensure!(inside(v, d), "the root lies outside the data");
    walk(v, d, &mut CAP.clone(), all)?;
    if all {
        debug_str(&v);
        if let Some(a) = v.as_array() { let m = a.to_mutable(); debug_str(&m); let _ = m.len(); }
        if let Some(c) = v.as_dict() { let m = c.to_mutable(); debug_str(&m); let _ = m.len(); }
        let _ = Array::from_bytes(d).map(|a| a.len());
        let _ = Dict::from_bytes(d).map(|a| a.len());
        let mut e = Encoder::new();
        let _ = e.write_fleece(v);
        let out = e.finish();
        if out.len() > 2 { let _ = Value::from_bytes(&out); }
        let o = Value::clone_from_bytes(d).map_err(|e| format!("clone_from_bytes rejects what from_bytes accepts: {e}"))?;
        ensure!(o.len() == v.len() && o.value_type() == v.value_type(), "clone_from_bytes finds another root");
    } else {
        let u = unsafe { Value::from_bytes_unchecked(d) };
        ensure!(std::ptr::addr_eq(u, v), "from_bytes_unchecked finds another root");
    }
    Ok(true)
}
fn both(t: &mut Tape, doc: &[u8], all: bool) -> Res {
    t.note(|| format!("{} bytes: {:02x?}", doc.len(), &doc[..doc.len().min(300)]));
    for at_end in [true, false] { if decode(doc, at_end, all)? { t.nontrivial(); } }
    Ok(())
}

// small grammar of headers, biased so that many documents are accepted
fn emit(t: &mut Tape, d: &mut Vec<u8>, starts: &mut Vec<usize>) {
    if d.len() % 2 != 0 { d.push(0); }
    let at = d.len();
    match t.pick(12) {
        0 => { let a = t.pick(16) as u8; let b = t.pick(256) as u8; d.extend([a, b]) }
        1 => { let n = t.pick(16) as u8; d.push(0x10 | n); let m = (n & 7) as u64 + t.pick(3); for _ in 0..m { let b = t.of(&[0u8, 0x7f, 0x80, 0xff, 1]); d.push(b); } }
        2 => { let f = t.of(&[0x20u8, 0x24, 0x28, 0x2c, 0x21]); d.push(f); d.push(0); let m = t.of(&[3u64, 4, 7, 8, 8]); for _ in 0..m { let b = t.pick(256) as u8; d.push(b); } }
        3 => { let s = t.of(&[0x30u8, 0x34, 0x38, 0x3c, 0x31, 0x3f]); d.extend([s, 0]) }
        4 | 5 => { let k = t.of(&[0x40u8, 0x50]); let n = t.pick(15) as u8; d.push(k | n); let m = (n as u64 + t.pick(2)).max(1); for _ in 0..m { let b = t.of(&[b'a', b'k', b'e', b'y', 0xc3, 0xff]); d.push(b); } }
        6 => { // long string with an arbitrary claimed length
            let k = t.of(&[0x4fu8, 0x5f]); d.push(k);
            match t.pick(4) { 0 => { let m = t.pick(40); d.push(m as u8); for _ in 0..m { d.push(b'x'); } } 1 => { let n = t.pick(11); for _ in 0..n { d.push(0xff); } let l = t.of(&[0u8, 1, 2, 127]); d.push(l); }
                2 => { let n = t.pick(10); for _ in 0..n { d.push(0x80); } let l = t.of(&[0u8, 1, 5]); d.push(l); d.push(b'q'); } _ => { let m = t.pick(256) as u8; d.push(m); } }
        }
        _ => { // collection
            let k = t.of(&[0x60u8, 0x70, 0x70]);
            let wide = t.pick(3) == 0;
            let w = if wide { 4 } else { 2 };
            let mut n = t.pick(6);
            let dict = k == 0x70;
            let claim = match t.pick(8) { 0 => n + 1, 1 => t.of(&[0x7feu64, 0x7ff, 1 << 20, 1 << 61, (1 << 62) + 1, 1 << 63, u64::MAX]), _ => n };
            if claim >= 0x7ff || t.pick(8) == 0 {
                d.push(k | 7 | if wide { 8 } else { 0 }); d.push(0xff);
                let mut m = claim; loop { let b = (m & 127) as u8; m >>= 7; if m == 0 { d.push(b); break; } d.push(b | 128); }
                if d.len() % 2 != 0 { d.push(0); }
            } else { d.push(k | if wide { 8 } else { 0 } | (claim >> 8) as u8); d.push(claim as u8); }
            if dict { n *= 2; }
            for i in 0..n {
                let at2 = d.len();
                let c = if dict && i % 2 == 0 { t.of(&[1u64, 1, 3, 3, 0, 2]) } else { t.pick(4) };
                match c {
                    1 if !starts.is_empty() => pointer(t, d, starts, wide),
                    2 => { let a = t.pick(256) as u8; let b = t.pick(256) as u8; d.extend([a, b]); }
                    3 => { let b = b'a' + (i as u8) % 26; d.extend([0x41, b]); }
                    _ => { let s = t.of(&[0x30u8, 0x38, 0x00, 0x40, 0x50, 0x00]); let b = t.pick(4) as u8; d.extend([s, b]); }
                }
                while d.len() < at2 + w { d.push(0); }
            }
        }
    }
    starts.push(at);
}
fn pointer(t: &mut Tape, d: &mut Vec<u8>, starts: &[usize], wide: bool) {
    let target = starts[t.pick(starts.len() as u64) as usize];
    let mut off = (d.len() - target) / 2;
    if t.pick(12) == 0 { off = off.wrapping_add(t.pick(5) as usize).wrapping_sub(2); }
    if t.pick(24) == 0 { off = t.pick(1 << 14) as usize; }
    let ext = if t.pick(24) == 0 { 0x40 } else { 0 };
    if wide { d.extend([0x80 | ext | (off >> 24) as u8 & 0x3f, (off >> 16) as u8, (off >> 8) as u8, off as u8]); } else { d.extend([0x80 | ext | (off >> 8) as u8 & 0x3f, off as u8]); }
}
pub fn grammar(t: &mut Tape) -> Vec<u8> {
    let mut d = vec![];
    let mut starts = vec![];
    for _ in 0..t.range(1, 8) { emit(t, &mut d, &mut starts); }
    if d.len() % 2 != 0 { d.push(0); }
    if t.pick(4) == 0 { // a chain of pointers, wide after the first
        for _ in 0..t.range(1, 4) { let at = d.len(); let w = t.pick(4) != 0; pointer(t, &mut d, &starts, w); starts.push(at); }
    }
    if t.pick(8) != 0 {
        // root points at the last value, usually
        let target = if t.pick(4) == 0 { starts[t.pick(starts.len() as u64) as usize] } else { *starts.last().unwrap() };
        let off = (d.len() - target) / 2;
        d.extend([0x80 | (off >> 8) as u8, off as u8]);
    } else { let s = starts.clone(); pointer(t, &mut d, &s, false); }
    if t.pick(40) == 0 { d.push(0); }
    d
}
fn grammar_safe(t: &mut Tape) -> Res { let d = grammar(t); both(t, &d, false) }
fn grammar_access(t: &mut Tape) -> Res { let d = grammar(t); both(t, &d, true) }
pub fn mutate(t: &mut Tape) -> Vec<u8> {
    let mut g = Gen { nodes: t.range(1, 12) as usize, big: false };
    let tree = gen_root(t, &mut g);
    let mut d = encode(&tree).unwrap_or_default();
    for _ in 0..t.range(1, 4) {
        if d.is_empty() { d.push(0); }
        let i = t.pick(d.len() as u64) as usize;
        match t.pick(8) {
            0 => d[i] ^= 1 << t.pick(8),
            1 => d[i] = t.pick(256) as u8,
            2 => d[i] = t.of(&[0u8, 0x0f, 0x4f, 0x5f, 0x67, 0x6f, 0x77, 0x7f, 0x80, 0xbf, 0xff, 0x17, 0x1f, 0x28, 0x70, 0x78]),
            3 => { d.truncate(i); if d.len() % 2 != 0 && t.pick(4) != 0 { d.push(0); } }
            4 => { let x = d[i]; d[i] = x.wrapping_add(1); }
            5 => { d.drain(..(i / 2) * 2); }
            6 => { let j = t.pick(d.len() as u64) as usize; d.swap(i, j); }
            _ => { // header surgery near the end, where the root and the top collection are
                let n = d.len(); let k = t.pick(n.min(12) as u64) as usize; d[n - 1 - k] = t.pick(256) as u8; }
        }
    }
    d
}
fn mutate_safe(t: &mut Tape) -> Res { let d = mutate(t); both(t, &d, false) }
fn mutate_access(t: &mut Tape) -> Res { let d = mutate(t); both(t, &d, true) }
fn noise(t: &mut Tape) -> Vec<u8> { let n = t.pick(40); let m = t.pick(2); (0..n).map(|_| if m == 0 { t.pick(256) as u8 } else { t.of(&[0u8, 1, 2, 0x80, 0x81, 0x60, 0x61, 0x70, 0x71, 0x4f, 0x6f, 0x7f, 0xff, 0x41, 0x67]) }).collect() }
fn noise_safe(t: &mut Tape) -> Res { let d = noise(t); both(t, &d, false) }
fn two_bytes(t: &mut Tape) -> Res {
    let a = t.pick(256) as u8;
    for b in 0..=255u8 { for at_end in [true, false] { if decode(&[a, b], at_end, true)? { t.nontrivial(); } } }
    for d in [&[][..], &[a][..]] { for at_end in [true, false] { if decode(d, at_end, true)? { return Err(format!("{} bytes were accepted", d.len())); } } }
    t.note(|| format!("every two-byte document starting with {a:#04x}"));
    Ok(())
}
fn two_fixed(_: bool) -> Vec<Vec<u64>> { (0..256).map(|i| vec![i]).collect() }
/// value V (any header byte, boundary contents) followed by the root pointer, or inside an array
fn one_value(t: &mut Tape) -> Res {
    let h = t.pick(256) as u8;
    let contents: [&[u8]; 13] = [&[0], &[1], &[0x7f], &[0xff], &[0xff, 0xff, 0xff], &[2, b'a', b'b'], &[0x80, 0x80, 0x00], &[0xff; 9], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
        &[0, 0, 0, 0, 0, 0, 0, 0x80, 0, 0], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01], &[0xff, 0xff, 0xff, 0xff, 0x0f, 0], &[3, 0x60, 0, 0x41, b'x', 0x30, 0]];
    t.note(|| format!("header byte {h:#04x} with {} boundary contents", contents.len()));
    for c in contents { for pad in 0..3usize { for kind in 0..5 {
        let mut d = vec![h];
        d.extend(c);
        d.extend(vec![0; pad]);
        if d.len() % 2 != 0 { d.push(0); }
        let n = d.len();
        match kind {
            0 => {}
            1 => { d.extend([0x60, 1]); let o = (d.len() / 2) as u8; d.extend([0x80, o]); }
            2 => { d.extend([0x68, 1]); let o = (d.len() / 2) as u8; d.extend([0x80, 0, 0, o]); }
            3 => { d.extend([0x70, 1]); let o = (d.len() / 2) as u8; d.extend([0x80, o]); let o = (d.len() / 2) as u8; d.extend([0x80, o]); }
            _ => { d.splice(0..0, [0x60 | 8, 1]); if d.len() > 6 { d.truncate(6); } }
        }
        let at = if kind == 0 || kind == 4 { 0 } else { n };
        let o = ((d.len() - at) / 2) as u8;
        d.extend([0x80, o]);
        for at_end in [true, false] {
            match decode(&d, at_end, true) { Ok(true) => t.nontrivial(), Ok(false) => {}, Err(e) => { return Err(format!("{d:02x?}: {e}")); } }
        }
    } } }
    Ok(())
}

// ------------------------------------------------------------------------------------ C16
#[derive(Debug, Clone, Copy)]
enum Num { I(i128), F(f64), B(bool), None }
fn convert(t: &mut Tape) -> Res {
    let (bytes, num): (Vec<u8>, Num) = match t.pick(10) {
        0 => { let c = t.pick(4); ([vec![0x34, 0], vec![0x38, 0], vec![0x30, 0], vec![0x3c, 0]][c as usize].clone(), match c { 0 => Num::B(false), 1 => Num::B(true), _ => Num::None }) }
        1 => { let v = t.pick(4096) as i128; (vec![(v >> 8) as u8, v as u8], Num::I(if v >= 2048 { v - 4096 } else { v })) }
        2 | 3 | 4 | 5 => {
            let n = t.range(1, 8) as usize;
            let unsigned = t.pick(2) == 1;
            let raw = match t.pick(4) { 0 => { let k = t.pick(64); (1u64 << k).wrapping_add(t.pick(3)).wrapping_sub(1) } 1 => { let k = t.pick(64); (!0u64) << k } 2 => t.raw(), _ => t.pick(5).wrapping_sub(2) };
            let raw = if n == 8 { raw } else { raw & ((1u64 << (8 * n)) - 1) };
            let mut b = vec![0x10 | if unsigned { 8 } else { 0 } | (n - 1) as u8];
            b.extend(&raw.to_le_bytes()[..n]);
            let v = if unsigned { raw as i128 } else { let s = raw as i128; if s >> (8 * n - 1) & 1 == 1 { s - (1i128 << (8 * n)) } else { s } };
            (b, Num::I(v))
        }
        6 => { let b = match t.pick(3) { 0 => (t.raw() as f32 / t.of(&[1.0f32, 3.0, 1e9, -1e9, 1e17])).to_bits(), 1 => ((t.pick(200_000) as f32 - 100_000.0) / 2.0).to_bits(), _ => t.raw() as u32 };
            let mut d = vec![t.of(&[0x20u8, 0x24]), 0]; d.extend(b.to_le_bytes()); (d, Num::F(f32::from_bits(b) as f64)) }
        7 => { let b = match t.pick(3) { 0 => (t.raw() as f64 / t.of(&[1.0f64, 3.0, 1e9, -1e9, -1.0, 2.0])).to_bits(), 1 => ((t.pick(200_000) as f64 - 100_000.0) / 2.0).to_bits(), _ => t.raw() };
            let mut d = vec![0x28, 0]; d.extend(b.to_le_bytes()); (d, Num::F(f64::from_bits(b))) }
        8 => { let n = t.pick(15) as u8; let mut d = vec![t.of(&[0x40u8, 0x50]) | n]; for _ in 0..n.max(1) { let b = t.pick(256) as u8; d.push(b); } (d, Num::None) }
        _ => { let k = t.of(&[0x60u8, 0x70, 0x68, 0x78]); (vec![k, 0], Num::None) }
    };
    let mut d = bytes.clone();
    if d.len() % 2 != 0 { d.push(0); }
    let n = d.len();
    let wide = t.pick(2) == 1;
    d.extend([0x60 | if wide { 8 } else { 0 }, 1]);
    let o = (d.len() / 2) as u8;
    d.extend(if wide { vec![0x80, 0, 0, o] } else { vec![0x80, o] });
    let r = ((d.len() - n) / 2) as u8;
    d.extend([0x80, r]);
    t.note(|| format!("value {bytes:02x?}, which is {num:?}"));
    t.nontrivial();
    let root = Value::from_bytes(&d).map_err(|e| format!("rejected: {e}"))?;
    let v = root.as_array().and_then(|a| a.get(0)).ok_or("no element")?;
    let (b, s, us, i, u, f, g) = (v.to_bool(), v.to_short(), v.to_unsigned_short(), v.to_int(), v.to_unsigned_int(), v.to_float(), v.to_double());
    match num {
        Num::None => {
            ensure!(s == 0 && us == 0 && i == 0 && u == 0 && f == 0.0 && g == 0.0, "a value that is no number reads as {s} {us} {i} {u} {f} {g}");
            ensure!(b, "a value that is no number reads as false");
        }
        Num::B(x) => {
            let w = x as u8;
            ensure!(b == x && s == w as i16 && us == w as u16 && i == w as i64 && u == w as u64 && f == w as f32 && g == w as f64, "{x} reads as {b} {s} {us} {i} {u} {f} {g}");
        }
        Num::I(x) => {
            ensure!(b == (x != 0), "{x} reads as {b}");
            if let Ok(w) = i64::try_from(x) { ensure!(i == w, "to_int of {x} is {i}"); }
            if let Ok(w) = u64::try_from(x) { ensure!(u == w, "to_unsigned_int of {x} is {u}"); }
            if let Ok(w) = i16::try_from(x) { ensure!(s == w, "to_short of {x} is {s}"); }
            if let Ok(w) = u16::try_from(x) { ensure!(us == w, "to_unsigned_short of {x} is {us}"); }
            if x.unsigned_abs() <= 1 << 53 { ensure!(g == x as f64, "to_double of {x} is {g}"); }
            if x.unsigned_abs() <= 1 << 24 { ensure!(f == x as f32, "to_float of {x} is {f}"); }
            let e = (g - x as f64).abs();
            ensure!(e <= (x as f64).abs() * 1e-15, "to_double of {x} is {g}");
        }
        Num::F(x) => {
            ensure!(g.to_bits() == x.to_bits() || (g.is_nan() && x.is_nan()), "to_double of {x} is {g}");
            ensure!(f.to_bits() == (x as f32).to_bits() || (f.is_nan() && x.is_nan()), "to_float of {x} is {f}");
            ensure!(i == x as i64, "to_int of {x} is {i}");
            ensure!(u == x as u64, "to_unsigned_int of {x} is {u}");
            ensure!(s == x as i16, "to_short of {x} is {s}");
            ensure!(us == x as u16, "to_unsigned_short of {x} is {us}");
            if x == 0.0 { ensure!(!b, "zero reads as true"); }
            if x.abs() >= 1.0 { ensure!(b, "{x} reads as false"); }
        }
    }
    let is_str = bytes[0] >> 4 == 4;
    let is_data = bytes[0] >> 4 == 5;
    if !is_str { ensure!(v.to_str().is_empty(), "to_str of no string is {:?}", v.to_str()); }
    if !is_str && !is_data { ensure!(v.to_data().is_empty(), "to_data of no string is {:02x?}", v.to_data()); }
    if is_str || is_data { let n = (bytes[0] & 15) as usize; ensure!(v.to_data() == &bytes[1..1 + n], "to_data is {:02x?}", v.to_data()); }
    if is_str { let n = (bytes[0] & 15) as usize; ensure!(v.to_str() == std::str::from_utf8(&bytes[1..1 + n]).unwrap_or(""), "to_str is {:?}", v.to_str()); }
    ensure!(v.as_array().is_some() == (bytes[0] >> 4 == 6) && v.as_dict().is_some() == (bytes[0] >> 4 == 7), "as_array / as_dict of {:#04x}", bytes[0]);
    Ok(())
}
fn convert_fixed(_: bool) -> Vec<Vec<u64>> {
    let mut o = vec![];
    for c in 0..4 { o.push(vec![0, c]); o.push(vec![9, c]); }
    for v in 0..4096 { o.push(vec![1, v]); }
    for n in 0..8 { for u in 0..2 { for k in 0..64 { for d in 0..3 { o.push(vec![2, n, u, 0, k, d]); } o.push(vec![2, n, u, 1, k]); } for d in 0..5 { o.push(vec![2, n, u, 3, d]); } } }
    o
}

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "grammar_safe", props: &["C06"], rule: "byte strings built from header fragments, claimed counts and lengths up to 2^64 and pointers, against inaccessible pages on both sides", run: grammar_safe, fixed: no_fixed, weight: 5 },
        Family { name: "mutate_safe", props: &["C06"], rule: "encoder output with 1..4 mutations, against inaccessible pages on both sides", run: mutate_safe, fixed: no_fixed, weight: 4 },
        Family { name: "noise_safe", props: &["C06"], rule: "up to 40 random bytes", run: noise_safe, fixed: no_fixed, weight: 2 },
        Family { name: "two_bytes", props: &["C06", "C07"], rule: "every document of at most two bytes (complete)", run: two_bytes, fixed: two_fixed, weight: 0 },
        Family { name: "one_value", props: &["C06", "C07"], rule: "every header byte with 13 boundary contents, as root, array element, dict entry", run: one_value, fixed: two_fixed, weight: 0 },
        Family { name: "grammar_access", props: &["C07"], rule: "as grammar_safe, with every accessor called on everything reachable", run: grammar_access, fixed: no_fixed, weight: 5 },
        Family { name: "mutate_access", props: &["C07"], rule: "as mutate_safe, with every accessor called on everything reachable", run: mutate_access, fixed: no_fixed, weight: 5 },
        Family { name: "convert", props: &["C16"], rule: "hand-made values of every kind and size, every accessor against the mathematical value", run: convert, fixed: convert_fixed, weight: 5 },
    ]
}
