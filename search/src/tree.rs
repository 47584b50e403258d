//! The tree a document stands for, independent of the code under test: model, generators, a reference
//! decoder working on raw bytes, and readers through the public API.
use crate::{ensure, Tape};
use fleece::encoder::{Encodable, NullValue, UndefinedValue};
use fleece::{Encoder, SharedKeys, Value, ValueType};

#[derive(Clone, Debug)]
pub enum Tree {
    Null,
    Undef,
    Bool(bool),
    /// the type it is written as, and the number
    Int(&'static str, i128),
    F32(u32),
    F64(u64),
    Str(String),
    Data(Vec<u8>),
    Arr(Vec<Tree>),
    Dict(Vec<(String, Tree)>),
}
pub const INT_TYPES: [(&str, i128, i128); 10] = [
    ("i8", i8::MIN as i128, i8::MAX as i128), ("i16", i16::MIN as i128, i16::MAX as i128),
    ("i32", i32::MIN as i128, i32::MAX as i128), ("i64", i64::MIN as i128, i64::MAX as i128),
    ("isize", i64::MIN as i128, i64::MAX as i128), ("u8", 0, u8::MAX as i128), ("u16", 0, u16::MAX as i128),
    ("u32", 0, u32::MAX as i128), ("u64", 0, u64::MAX as i128), ("usize", 0, u64::MAX as i128),
];

/// equality of what is read back with what was written (dicts as maps; a 32-bit NaN is any NaN)
pub fn same(a: &Tree, b: &Tree) -> bool {
    use Tree::*;
    match (a, b) {
        (Null, Null) | (Undef, Undef) => true,
        (Bool(x), Bool(y)) => x == y,
        (Int(_, x), Int(_, y)) => x == y,
        (F32(x), F32(y)) => x == y || (f32::from_bits(*x).is_nan() && f32::from_bits(*y).is_nan()),
        (F64(x), F64(y)) => x == y,
        (Str(x), Str(y)) => x == y,
        (Data(x), Data(y)) => x == y,
        (Arr(x), Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Dict(x), Dict(y)) => {
            if x.len() != y.len() { return false; }
            let mut p: Vec<_> = x.iter().collect();
            let mut q: Vec<_> = y.iter().collect();
            p.sort_by(|m, n| m.0.cmp(&n.0));
            q.sort_by(|m, n| m.0.cmp(&n.0));
            p.iter().zip(q).all(|(m, n)| m.0 == n.0 && same(&m.1, &n.1))
        }
        _ => false,
    }
}
pub fn show(t: &Tree) -> String {
    let s = match t {
        Tree::Str(s) if s.len() > 40 => format!("Str({}.. len {})", s.chars().take(8).collect::<String>(), s.len()),
        Tree::Data(s) if s.len() > 40 => format!("Data({:02x?}.. len {})", &s[..4], s.len()),
        Tree::F32(b) => format!("F32({:#x})", b),
        Tree::F64(b) => format!("F64({:#x})", b),
        Tree::Arr(v) if v.len() > 12 => format!("Arr[{}, .. {} elements]", v.iter().take(4).map(show).collect::<Vec<_>>().join(", "), v.len()),
        Tree::Arr(v) => format!("Arr[{}]", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        Tree::Dict(v) => format!("Dict{{{}{}}}", v.iter().take(12).map(|(k, x)| format!("{:?}: {}", k.chars().take(24).collect::<String>(), show(x))).collect::<Vec<_>>().join(", "),
            if v.len() > 12 { format!(", .. {} entries", v.len()) } else { String::new() }),
        t => format!("{t:?}"),
    };
    if s.len() > 1500 { format!("{}...", s.chars().take(1500).collect::<String>()) } else { s }
}
/// where two trees differ
pub fn diff(want: &Tree, got: &Tree) -> String {
    use Tree::*;
    match (want, got) {
        (Arr(x), Arr(y)) => {
            if x.len() != y.len() { return format!("array of {} elements, expected {}", y.len(), x.len()); }
            for (i, (p, q)) in x.iter().zip(y).enumerate() { if !same(p, q) { return format!("[{i}]: {}", diff(p, q)); } }
            String::new()
        }
        (Dict(x), Dict(y)) => {
            for (k, p) in x {
                match y.iter().find(|e| e.0 == *k) {
                    None => return format!("key {k:?} is missing"),
                    Some((_, q)) => if !same(p, q) { return format!("[{k:?}]: {}", diff(p, q)); },
                }
            }
            format!("dict of {} entries, expected {}", y.len(), x.len())
        }
        _ => format!("{} instead of {}", show(got), show(want)),
    }
}

// ------------------------------------------------------------------------------------ generators
pub fn gen_int(t: &mut Tape) -> Tree {
    let (ty, lo, hi) = t.of(&INT_TYPES);
    let v = match t.pick(4) {
        0 => { let k = t.pick(64); let s = if t.pick(2) == 1 { -1 } else { 1 }; s * ((1i128 << k) + t.pick(5) as i128 - 2) }
        1 => { let b = [0i128, 2047, 2048, -2048, -2049, 127, 128, 255, 256, -128, -129, lo, hi, lo + 1, hi - 1]; let d = t.pick(3) as i128 - 1; b[t.pick(15) as usize] + d }
        2 => t.pick(100) as i128 - 50,
        _ => { let k = t.pick(64); let v = (t.raw() >> k) as i128; if t.pick(2) == 1 { -v } else { v } }
    };
    Tree::Int(ty, v.clamp(lo, hi))
}
pub fn gen_float(t: &mut Tape) -> Tree {
    if t.pick(2) == 0 {
        let b = match t.pick(4) { 0 => t.of(&[0u32, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0001, 0xff80_0001, 1, 0x8000_0001, 0x7f7f_ffff]),
            1 => (t.pick(4000) as f32 - 2000.0).to_bits(), 2 => (t.pick(1000) as f32 / 8.0).to_bits(), _ => t.raw() as u32 };
        Tree::F32(b)
    } else {
        let b = match t.pick(4) { 0 => t.of(&[0u64, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, (0x7ff0 << 48) | 1, (0x7ff8 << 48) | 5, 1, (1 << 63) | 1, 0x7fef_ffff_ffff_ffff]),
            1 => (t.pick(4000) as f64 - 2000.0).to_bits(), 2 => (t.raw() as f64 / 3.0).to_bits(), _ => t.raw() };
        Tree::F64(b)
    }
}
/// lengths around every boundary of the format
pub fn gen_len(t: &mut Tape, big: bool) -> usize {
    let n = match t.pick(if big { 10 } else { 7 }) {
        0 => t.pick(3),
        1 | 2 | 3 => t.pick(20),
        4 => t.range(12, 18),
        5 => t.range(120, 135),
        6 => t.pick(300),
        7 => t.range(16370, 16400),
        8 => t.range(16000, 17000),
        _ => t.pick(40000),
    };
    n as usize
}
/// exactly n bytes of text
pub fn text(t: &mut Tape, n: usize) -> String {
    let kind = t.pick(4);
    let mut s = String::with_capacity(n);
    let seed = t.pick(1 << 20);
    let mut i = seed;
    while s.len() < n {
        let left = n - s.len();
        i = i.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = (i >> 33) as u32;
        let c = match kind {
            0 | 1 => (b'a' + (r % 26) as u8) as char,
            2 => [' ', '~', '\0', 'A', '_', '-', '0', '\n', '"'][(r % 9) as usize],
            _ => ['é', 'ß', '日', '語', '😀', 'x', '\u{7ff}', '\u{800}', '\u{ffff}'][(r % 9) as usize],
        };
        if c.len_utf8() <= left { s.push(c) } else { s.push('z') }
    }
    s
}
pub fn blob(t: &mut Tape, n: usize) -> Vec<u8> {
    let mut i = t.pick(1 << 20);
    (0..n).map(|_| { i = i.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (i >> 40) as u8 }).collect()
}
pub fn gen_scalar(t: &mut Tape, big: bool) -> Tree {
    match t.pick(10) {
        0 => t.of(&[0u8, 1, 2, 3]).into(),
        1 | 2 | 3 => gen_int(t),
        4 => gen_float(t),
        5 | 6 | 7 => { let n = gen_len(t, big); Tree::Str(text(t, n)) }
        _ => { let n = gen_len(t, big); Tree::Data(blob(t, n)) }
    }
}
impl From<u8> for Tree {
    fn from(v: u8) -> Tree { match v { 0 => Tree::Null, 1 => Tree::Undef, 2 => Tree::Bool(false), _ => Tree::Bool(true) } }
}
/// a key unlike the others, of any kind: empty, one byte, shareable, too long to be shared, not shareable
pub fn gen_key(t: &mut Tape, used: &[(String, Tree)]) -> String {
    let n = match t.pick(6) { 0 => 0, 1 => 1, 2 => t.range(2, 6), 3 => t.range(14, 18), 4 => t.pick(12), _ => t.pick(140) } as usize;
    let mut k = match t.pick(8) {
        0..=3 => { let mut s = String::new(); for _ in 0..n { s.push((b'a' + t.pick(4) as u8) as char); } s }
        4 | 5 => { let p = ["user", "name", "id", "type", "key-1", "a_b", "Zz9"]; p[t.pick(7) as usize].to_string() }
        _ => text(t, n),
    };
    let mut i = 0;
    while used.iter().any(|(x, _)| *x == k) { k = format!("{k}{i}"); i += 1; }
    k
}
pub struct Gen { pub nodes: usize, pub big: bool }
pub fn gen_tree(t: &mut Tape, depth: u32, g: &mut Gen) -> Tree {
    if g.nodes == 0 || depth == 0 { return gen_scalar(t, g.big); }
    g.nodes -= 1;
    match t.pick(6) {
        0 | 1 => gen_arr(t, depth, g),
        2 | 3 => gen_dict(t, depth, g),
        _ => gen_scalar(t, g.big),
    }
}
fn fan(t: &mut Tape) -> u64 { match t.pick(8) { 0 => 0, 1 => 1, 7 => t.pick(40), _ => t.pick(6) } }
pub fn gen_arr(t: &mut Tape, depth: u32, g: &mut Gen) -> Tree {
    let n = fan(t);
    Tree::Arr((0..n).map(|_| gen_tree(t, depth - 1, g)).collect())
}
pub fn gen_dict(t: &mut Tape, depth: u32, g: &mut Gen) -> Tree {
    let n = fan(t);
    let mut v: Vec<(String, Tree)> = vec![];
    for _ in 0..n {
        let k = gen_key(t, &v);
        let x = gen_tree(t, depth - 1, g);
        v.push((k, x));
    }
    Tree::Dict(v)
}
pub fn gen_root(t: &mut Tape, g: &mut Gen) -> Tree {
    let d = t.range(1, 4) as u32;
    if t.pick(2) == 0 { gen_arr(t, d, g) } else { gen_dict(t, d, g) }
}

// ------------------------------------------------------------------------------------ writing
/// bind the scalar `$t` as a value of its own type
#[macro_export]
macro_rules! with_scalar {
    ($t:expr, $v:ident => $e:expr) => {{
        use $crate::tree::Tree as T;
        match $t {
            T::Null => { let $v = fleece::encoder::NullValue; $e }
            T::Undef => { let $v = fleece::encoder::UndefinedValue; $e }
            T::Bool(b) => { let $v = *b; $e }
            T::Int("i8", x) => { let $v = *x as i8; $e }
            T::Int("i16", x) => { let $v = *x as i16; $e }
            T::Int("i32", x) => { let $v = *x as i32; $e }
            T::Int("isize", x) => { let $v = *x as isize; $e }
            T::Int("u8", x) => { let $v = *x as u8; $e }
            T::Int("u16", x) => { let $v = *x as u16; $e }
            T::Int("u32", x) => { let $v = *x as u32; $e }
            T::Int("u64", x) => { let $v = *x as u64; $e }
            T::Int("usize", x) => { let $v = *x as usize; $e }
            T::Int(_, x) => { let $v = *x as i64; $e }
            T::F32(b) => { let $v = f32::from_bits(*b); $e }
            T::F64(b) => { let $v = f64::from_bits(*b); $e }
            T::Str(s) => { let $v = s.as_str(); $e }
            T::Data(d) => { let $v = d.as_slice(); $e }
            T::Arr(_) | T::Dict(_) => unreachable!(),
        }
    }};
}
pub fn is_scalar(t: &Tree) -> bool { !matches!(t, Tree::Arr(_) | Tree::Dict(_)) }
pub fn write(e: &mut Encoder, t: &Tree) -> Result<(), String> {
    match t {
        Tree::Arr(v) => {
            e.begin_array(v.len()).map_err(|x| format!("begin_array: {x}"))?;
            for x in v { write(e, x)?; }
            e.end_array().map_err(|x| format!("end_array: {x}"))
        }
        Tree::Dict(v) => {
            e.begin_dict().map_err(|x| format!("begin_dict: {x}"))?;
            for (k, x) in v {
                e.write_key(k).map_err(|x| format!("write_key({k:?}): {x}"))?;
                write(e, x)?;
            }
            e.end_dict().map_err(|x| format!("end_dict: {x}"))
        }
        s => with_scalar!(s, v => e.write_value(v).map_err(|x| format!("write_value({}): {x}", show(s)))),
    }
}
pub fn encode(t: &Tree) -> Result<Vec<u8>, String> {
    let mut e = Encoder::new();
    write(&mut e, t)?;
    Ok(e.finish())
}
pub fn size_of<T: Encodable + ?Sized>(v: &T) -> usize { v.fleece_size() }
pub fn _unused() -> (NullValue, UndefinedValue) { (NullValue, UndefinedValue) }

// ------------------------------------------------------------------------------------ reference decoder
pub fn varint(s: &[u8]) -> Option<(usize, u64)> {
    let (mut v, mut p) = (0u128, 1u128);
    for (i, b) in s.iter().take(10).enumerate() {
        v += (*b as u128 % 128) * p;
        p *= 128;
        if *b < 128 { return if v < 1 << 64 { Some((i + 1, v as u64)) } else { None }; }
    }
    None
}
pub struct RefDec<'a> { pub doc: &'a [u8], pub keys: Option<&'a SharedKeys>, pub budget: usize }
impl<'a> RefDec<'a> {
    /// the tree of a whole document, whose root is in the last two bytes
    pub fn root(doc: &'a [u8], keys: Option<&'a SharedKeys>) -> Result<Tree, String> {
        let mut r = RefDec { doc, keys, budget: 3_000_000 };
        if doc.len() < 2 || doc.len() % 2 != 0 { return Err(format!("document of {} bytes", doc.len())); }
        let p = doc.len() - 2;
        if doc[p] < 0x80 && doc.len() != 2 { return Err("root is not a pointer".into()); }
        r.value(p, doc.len(), false)
    }
    fn follow(&self, mut pos: usize, mut end: usize, mut wide: bool) -> Result<(usize, usize), String> {
        while self.doc[pos] >= 0x80 {
            let w = if wide { 4 } else { 2 };
            if pos + w > end { return Err("pointer does not fit".into()); }
            if self.doc[pos] & 0x40 != 0 { return Err("external pointer".into()); }
            let mut o = (self.doc[pos] & 0x3f) as usize;
            for i in 1..w { o = o * 256 + self.doc[pos + i] as usize; }
            o *= 2;
            if o == 0 || o > pos { return Err(format!("pointer at {pos} goes back {o}")); }
            end = pos;
            pos -= o;
            wide = true;
            if end - pos < 2 { return Err("target too small".into()); }
        }
        Ok((pos, end))
    }
    pub fn value(&mut self, pos: usize, end: usize, wide: bool) -> Result<Tree, String> {
        if self.budget == 0 { return Err("too large".into()); }
        self.budget -= 1;
        if pos % 2 != 0 { return Err(format!("value at odd position {pos}")); }
        let (pos, end) = self.follow(pos, end, wide)?;
        let d = &self.doc[pos..end];
        if d.len() < 2 { return Err("value too small".into()); }
        let need = |n: usize| if n <= d.len() { Ok(()) } else { Err(format!("value at {pos} needs {n} bytes, has {}", d.len())) };
        let lo = d[0] & 0x0f;
        Ok(match d[0] >> 4 {
            0 => { let v = (lo as i32) << 8 | d[1] as i32; Tree::Int("short", if v >= 0x800 { v - 0x1000 } else { v } as i128) }
            1 => {
                let n = (lo & 7) as usize + 1;
                need(1 + n)?;
                let mut v = 0i128;
                for i in (0..n).rev() { v = v * 256 + d[1 + i] as i128; }
                if lo & 8 == 0 && d[n] >= 0x80 { v -= 1i128 << (8 * n); }
                Tree::Int("int", v)
            }
            2 if lo & 8 != 0 => { need(10)?; Tree::F64(u64::from_le_bytes(d[2..10].try_into().unwrap())) }
            2 => { need(6)?; let b = u32::from_le_bytes(d[2..6].try_into().unwrap());
                if lo & 4 != 0 { Tree::F64(f64::from(f32::from_bits(b)).to_bits()) } else { Tree::F32(b) } }
            3 => match lo { 0 => Tree::Null, 12 => Tree::Undef, 4 => Tree::Bool(false), 8 => Tree::Bool(true), _ => return Err(format!("unknown special value {lo:#x}")) },
            k @ (4 | 5) => {
                let (at, n) = if lo < 15 { (1, lo as usize) } else {
                    let (r, n) = varint(&d[1..]).ok_or("bad string length")?;
                    (1 + r, usize::try_from(n).unwrap())
                };
                need(at.checked_add(n).ok_or("string length")?)?;
                let b = d[at..at + n].to_vec();
                if k == 4 { Tree::Str(String::from_utf8(b).map_err(|_| "string is not UTF-8")?) } else { Tree::Data(b) }
            }
            k @ (6 | 7) => {
                let w = if lo & 8 != 0 { 4 } else { 2 };
                let mut n = ((lo & 7) as usize) << 8 | d[1] as usize;
                let mut at = 2;
                if n == 0x7ff {
                    let (r, m) = varint(&d[2..]).ok_or("bad count")?;
                    n = usize::try_from(m).unwrap();
                    at = 2 + r + r % 2;
                }
                let per = if k == 7 { 2 } else { 1 };
                need(n.checked_mul(per * w).and_then(|x| x.checked_add(at)).ok_or("count")?)?;
                let mut v = vec![];
                let mut i = pos + at;
                let mut kv = vec![];
                for _ in 0..n {
                    if k == 6 { v.push(self.value(i, i + w, w == 4)?); i += w; continue; }
                    let (kp, ke) = self.follow(i, i + w, w == 4)?;
                    let key = if self.doc[kp] >> 4 == 0 {
                        let id = ((self.doc[kp] & 15) as u16) << 8 | self.doc[kp + 1] as u16;
                        match self.keys.and_then(|s| s.decode(id)) { Some(s) => s.to_string(), None => return Err(format!("unknown shared key {id}")) }
                    } else {
                        match self.value(kp, ke, true)? {
                            Tree::Str(s) => s,
                            x => return Err(format!("dict key {}", show(&x))),
                        }
                    };
                    kv.push((key, self.value(i + w, i + 2 * w, w == 4)?));
                    i += 2 * w;
                }
                if k == 6 { Tree::Arr(v) } else { Tree::Dict(kv) }
            }
            _ => unreachable!(),
        })
    }
}
/// how many values a traversal of these (possibly malformed) bytes visits, up to `cap`
pub fn unfolded(doc: &[u8], cap: u64) -> u64 {
    fn go(doc: &[u8], pos: usize, end: usize, wide: bool, depth: u32, left: &mut u64) {
        if *left == 0 || depth > 400 || pos + 2 > end || end > doc.len() { return; }
        *left -= 1;
        let b = doc[pos];
        if b >= 0x80 {
            let w = if wide { 4 } else { 2 };
            if pos + w > end { return; }
            let mut o = (b & 0x3f) as usize;
            for i in 1..w { o = o * 256 + doc[pos + i] as usize; }
            o *= 2;
            if o == 0 || o > pos { return; }
            return go(doc, pos - o, pos, true, depth + 1, left);
        }
        if b >> 4 == 6 || b >> 4 == 7 {
            let w = if b & 8 != 0 { 4 } else { 2 };
            let mut n = ((b & 7) as usize) << 8 | doc[pos + 1] as usize;
            let mut at = 2;
            if n == 0x7ff { match varint(&doc[pos + 2..end]) { Some((r, m)) => { n = m.min(1 << 40) as usize; at = 2 + r + r % 2; } None => return } }
            if b >> 4 == 7 { n *= 2; }
            for i in 0..n { let p = pos + at + i * w; if p + w > end { return; } go(doc, p, p + w, w == 4, depth + 1, left); if *left == 0 { return; } }
        }
    }
    if doc.len() < 2 { return 0; }
    let mut left = cap;
    go(doc, doc.len() - 2, doc.len(), false, 0, &mut left);
    cap - left
}

// ------------------------------------------------------------------------------------ reading through the API
/// the tree seen through the public accessors
pub fn read(v: &Value) -> Result<Tree, String> {
    Ok(match v.value_type() {
        ValueType::Null => Tree::Null,
        ValueType::Undefined => Tree::Undef,
        ValueType::False => { ensure!(!v.to_bool(), "false reads as true"); Tree::Bool(false) }
        ValueType::True => { ensure!(v.to_bool(), "true reads as false"); Tree::Bool(true) }
        ValueType::Short => { ensure!(i64::from(v.to_short()) == v.to_int(), "short reads as {} and {}", v.to_short(), v.to_int()); Tree::Int("short", v.to_int() as i128) }
        ValueType::Int => Tree::Int("int", v.to_int() as i128),
        ValueType::UnsignedInt => Tree::Int("uint", v.to_unsigned_int() as i128),
        ValueType::Float => Tree::F32(v.to_float().to_bits()),
        ValueType::Double32 | ValueType::Double64 => Tree::F64(v.to_double().to_bits()),
        ValueType::String => {
            ensure!(v.to_str().as_bytes() == v.to_data(), "to_str {:?} differs from to_data {:02x?}", v.to_str(), v.to_data());
            Tree::Str(v.to_str().to_string())
        }
        ValueType::Data => { ensure!(v.to_str().is_empty(), "data reads as a string"); Tree::Data(v.to_data().to_vec()) }
        ValueType::Array => {
            let a = v.as_array().ok_or("as_array is None")?;
            ensure!(v.as_dict().is_none(), "array is a dict");
            let n = a.len();
            let mut out = vec![];
            for x in a { ensure!(out.len() < n, "iteration yields more than {n} elements"); out.push(read(x)?); }
            ensure!(out.len() == n, "array of length {n} iterates {} elements", out.len());
            Tree::Arr(out)
        }
        ValueType::Dict => {
            let d = v.as_dict().ok_or("as_dict is None")?;
            ensure!(v.as_array().is_none(), "dict is an array");
            let n = d.len();
            let mut out: Vec<(String, Tree)> = vec![];
            for (k, x) in d { ensure!(out.len() < n, "iteration yields more than {n} entries"); out.push((k.to_string(), read(x)?)); }
            ensure!(out.len() == n, "dict of length {n} iterates {} entries", out.len());
            Tree::Dict(out)
        }
        ValueType::Pointer => return Err("a pointer was returned to the user".into()),
    })
}
/// every entry found by lookup, nothing else
pub fn lookups(v: &Value, t: &Tree) -> Result<(), String> {
    match t {
        Tree::Arr(xs) => {
            let a = v.as_array().ok_or("not an array")?;
            for (i, x) in xs.iter().enumerate() {
                let e = a.get(i).ok_or_else(|| format!("get({i}) of {} elements is None", xs.len()))?;
                if is_scalar(x) { let got = read(e)?; ensure!(same(x, &got), "get({i}): {}", diff(x, &got)); } else { lookups(e, x)?; }
            }
            for i in [xs.len(), xs.len() + 1, usize::MAX] { ensure!(a.get(i).is_none(), "get({i}) of {} elements is not None", xs.len()); }
            Ok(())
        }
        Tree::Dict(xs) => {
            let d = v.as_dict().ok_or("not a dict")?;
            for (k, x) in xs {
                let e = d.get(k.as_str()).ok_or_else(|| format!("get({k:?}) is None"))?;
                ensure!(d.contains_key(k.as_str()), "contains_key({k:?}) is false");
                ensure!(std::ptr::addr_eq(e, &d[k.as_str()]), "[{k:?}] is another value than get({k:?})");
                if is_scalar(x) { let got = read(e)?; ensure!(same(x, &got), "get({k:?}): {}", diff(x, &got)); } else { lookups(e, x)?; }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
