//! C13 / C14: mutable collections against a plain list and a plain map.
use fleece::{Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value};
use fleece_search::tree::*;
use fleece_search::*;
use std::sync::Arc;

macro_rules! slot { ($r:expr) => {{
    let r = $r;
    let kinds = (r.is_value(), r.is_array(), r.is_dict());
    ensure!(kinds == (r.value().is_some(), r.array().is_some(), r.dict().is_some()), "is_value/is_array/is_dict say {kinds:?}");
    if let Some(v) = r.value() { ensure!(kinds == (true, false, false), "kinds {kinds:?}"); read(v)? }
    else if let Some(a) = r.array() { ensure!(kinds == (false, true, false), "kinds {kinds:?}"); read_arr(a)? }
    else if let Some(d) = r.dict() { ensure!(kinds == (false, false, true), "kinds {kinds:?}"); read_dict(d)? }
    else { return Err("entry of no kind".into()); }
}} }
fn addr<T: ?Sized>(x: &T) -> usize { x as *const T as *const u8 as usize }
/// what the mutable array holds, seen through every accessor
fn read_arr(a: &MutableArray) -> Result<Tree, String> {
    let n = a.len();
    ensure!(a.is_empty() == (n == 0), "is_empty() with {n} elements");
    let mut out = vec![];
    let mut it = a.iter();
    loop {
        let h = it.size_hint();
        ensure!(h == (n - out.len().min(n), Some(n - out.len().min(n))), "size hint {h:?} after {} of {n} elements", out.len());
        let Some(r) = it.next() else { break };
        let i = out.len();
        ensure!(i < n, "iteration yields more than {n} elements");
        ensure!(r.is_value() == a.get(i).is_some() && r.is_array() == a.get_array(i).is_some() && r.is_dict() == a.get_dict(i).is_some(), "element {i}: iteration and get disagree");
        if let (Some(x), Some(y)) = (r.value(), a.get(i)) { ensure!(std::ptr::addr_eq(x, y) && std::ptr::addr_eq(x, &a[i]), "element {i}: iteration and indexing find different values"); }
        out.push(slot!(r));
    }
    ensure!(out.len() == n, "iteration yields {} of {n} elements", out.len());
    if n <= 10 || n % 16 == 0 { adaptors(|| a.iter(), |r| (r.value().map(addr), r.array().map(addr), r.dict().map(addr)))?; }
    for i in [n, n + 1, usize::MAX] { ensure!(a.get(i).is_none() && a.get_array(i).is_none() && a.get_dict(i).is_none(), "get({i}) of {n} elements is not None"); }
    Ok(Tree::Arr(out))
}
fn read_dict(d: &MutableDict) -> Result<Tree, String> {
    let n = d.len();
    ensure!(d.is_empty() == (n == 0), "is_empty() with {n} entries");
    let mut out: Vec<(String, Tree)> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut it = d.iter();
    loop {
        let h = it.size_hint();
        ensure!(h == (n - out.len().min(n), Some(n - out.len().min(n))), "size hint {h:?} after {} of {n} entries", out.len());
        let Some((k, r)) = it.next() else { break };
        ensure!(out.len() < n, "iteration yields more than {n} entries");
        ensure!(seen.insert(k.to_string()), "iteration yields {k:?} twice");
        ensure!(d.contains_key(k), "contains_key({k:?}) is false");
        ensure!(r.is_value() == d.get(k).is_some() && r.is_array() == d.get_array(k).is_some() && r.is_dict() == d.get_dict(k).is_some(), "entry {k:?}: iteration and get disagree");
        if let (Some(x), Some(y)) = (r.value(), d.get(k)) { ensure!(std::ptr::addr_eq(x, y) && std::ptr::addr_eq(x, &d[k]), "entry {k:?}: iteration and lookup find different values"); }
        out.push((k.to_string(), slot!(r)));
    }
    ensure!(out.len() == n, "iteration yields {} of {n} entries", out.len());
    if n <= 10 || n % 16 == 0 { adaptors(|| d.iter(), |(k, r)| (k.to_string(), r.value().map(addr), r.array().map(addr), r.dict().map(addr)))?; }
    Ok(Tree::Dict(out))
}
fn is_arr(a: &MutableArray, want: &Tree, how: &str) -> Res {
    let got = read_arr(a).map_err(|e| format!("{how}: {e}"))?;
    ensure!(same(want, &got), "{how}: {}", diff(want, &got));
    Ok(())
}
fn is_dict(d: &MutableDict, want: &Tree, how: &str) -> Res {
    let got = read_dict(d).map_err(|e| format!("{how}: {e}"))?;
    ensure!(same(want, &got), "{how}: {}", diff(want, &got));
    Ok(())
}

struct Ctx { sk: Option<Arc<SharedKeys>>, snaps: Vec<Snap>, scopes: Vec<Arc<Scope>> }
enum Snap { A(MutableArray, Tree), D(MutableDict, Tree) }

fn small(t: &mut Tape) -> Tree {
    match t.pick(4) {
        0 => { let n = t.range(10, 20) as usize; if t.pick(2) == 0 { Tree::Str(text(t, n)) } else { Tree::Data(blob(t, n)) } }
        _ => gen_scalar(t, false),
    }
}
fn dkey(t: &mut Tape, c: &Ctx, have: &[(String, Tree)]) -> String {
    if !have.is_empty() && t.pick(3) == 0 { let i = t.pick(have.len() as u64) as usize; return have[i].0.clone(); }
    if let Some(sk) = &c.sk { if t.pick(3) == 0 && !sk.is_empty() { let i = t.pick(sk.len() as u64) as u16; return sk.decode(i).unwrap_or("").to_string(); } }
    match t.pick(6) { 0 => String::new(), 1 => t.of(&["a", "b", "é"]).to_string(), 2 => format!("k{}", t.pick(12)), 3 => format!("a long key, number {}", t.pick(6)), 4 => "x".repeat(t.range(14, 18) as usize), _ => t.of(&["user", "name", "id", "sp ace"]).to_string() }
}
fn sub(t: &mut Tape, dict: bool) -> Tree {
    let mut g = Gen { nodes: t.range(1, 6) as usize, big: false };
    let d = t.range(1, 3) as u32;
    if dict { gen_dict(t, d, &mut g) } else { gen_arr(t, d, &mut g) }
}
/// an encoded document, in a scope with its shared keys if there are any
fn doc(c: &mut Ctx, x: &Tree, t: &mut Tape) -> Result<(Vec<u8>, Option<Arc<Scope>>), String> {
    if t.pick(2) == 0 { return Ok((encode(x)?, None)); }
    let mut e = Encoder::new();
    if let Some(sk) = &c.sk { e.set_shared_keys((**sk).clone()); } else { e.set_shared_keys(SharedKeys::new()); }
    write(&mut e, x)?;
    let s = e.finish_scoped();
    c.scopes.push(s.clone());
    Ok((vec![], Some(s)))
}
fn make_arr(t: &mut Tape, c: &mut Ctx, x: &Tree) -> Result<MutableArray, String> {
    let (mut bytes, scope) = doc(c, x, t)?;
    let r = match &scope {
        Some(s) => match t.pick(3) { 0 => MutableArray::from_scope(s).ok_or("from_scope is None")?, 1 => MutableArray::try_from(&**s).map_err(|_| "try_from failed")?, _ => MutableArray::from(s.root().and_then(|r| r.to_array()).ok_or("no array")?) },
        None => { let a = Value::from_bytes(&bytes).map_err(|e| e.to_string())?.as_array().ok_or("no array")?; match t.pick(3) { 0 => MutableArray::clone_from(a), 1 => MutableArray::from(a), _ => a.to_mutable() } }
    };
    bytes.fill(0xff); // nothing may still refer to the source
    Ok(r)
}
fn make_dict(t: &mut Tape, c: &mut Ctx, x: &Tree) -> Result<MutableDict, String> {
    let (mut bytes, scope) = doc(c, x, t)?;
    let r = match &scope {
        Some(s) => match t.pick(3) { 0 => MutableDict::from_scope(s).ok_or("from_scope is None")?, 1 => MutableDict::try_from(&**s).map_err(|_| "try_from failed")?, _ => MutableDict::from(s.root().and_then(|r| r.to_dict()).ok_or("no dict")?) },
        None => { let d = Value::from_bytes(&bytes).map_err(|e| e.to_string())?.as_dict().ok_or("no dict")?; match t.pick(2) { 0 => MutableDict::clone_from(d), _ => d.to_mutable() } }
    };
    bytes.fill(0xff);
    Ok(r)
}
/// a mutable collection equal to x, made in one of many ways
fn build_arr(t: &mut Tape, c: &mut Ctx, x: &Tree) -> Result<MutableArray, String> { if matches!(x, Tree::Arr(v) if v.is_empty()) && t.pick(2) == 0 { Ok(MutableArray::new()) } else { make_arr(t, c, x) } }
fn build_dict(t: &mut Tape, c: &mut Ctx, x: &Tree) -> Result<MutableDict, String> {
    if matches!(x, Tree::Dict(v) if v.is_empty()) && t.pick(2) == 0 { return Ok(match &c.sk { Some(s) => MutableDict::new_with_shared_keys(s.clone()), None => MutableDict::new() }); }
    make_dict(t, c, x)
}
fn arr_op(t: &mut Tape, c: &mut Ctx, a: &mut MutableArray, m: &mut Vec<Tree>, depth: u32) -> Res {
    let n = m.len();
    match t.pick(14) {
        0 | 1 | 2 => { let x = small(t); t.note(|| format!("push {}", show(&x))); with_scalar!(&x, v => a.push(&v)); m.push(x); }
        3 | 4 if n > 0 => { let i = t.pick(n as u64) as usize; let x = small(t); t.note(|| format!("set {i} {}", show(&x))); with_scalar!(&x, v => a.set(i, v)); m[i] = x; }
        5 if n > 0 => { let i = t.pick(n as u64) as usize; t.note(|| format!("remove {i}")); a.remove(i); m.remove(i); }
        6 => { let i = n + t.pick(3) as usize; t.note(|| format!("remove {i} (past the end)")); a.remove(i); }
        7 if n > 0 => { let i = t.pick(n as u64) as usize; let x = if t.pick(2) == 0 { Tree::Arr(vec![]) } else { sub(t, false) }; let y = build_arr(t, c, &x)?; t.note(|| format!("set_array {i} {}", show(&x))); a.set_array(i, y); m[i] = x; }
        8 if n > 0 => { let i = t.pick(n as u64) as usize; let x = if t.pick(2) == 0 { Tree::Dict(vec![]) } else { sub(t, true) }; let y = build_dict(t, c, &x)?; t.note(|| format!("set_dict {i} {}", show(&x))); a.set_dict(i, y); m[i] = x; }
        9 | 10 => { // an encoded value, of any kind
            let k = t.pick(3);
            let x = match k { 0 => sub(t, false), 1 => sub(t, true), _ => small(t) };
            let wide = if t.pick(3) == 0 { vec![Tree::Str("w".repeat(33_000))] } else { vec![] };
            let mut els = vec![Tree::Null, x.clone(), Tree::Bool(true)];
            els.extend(wide);
            let (bytes, scope) = doc(c, &Tree::Arr(els), t)?;
            let root = scope.as_ref().map(|s| s.root().unwrap());
            let v: &Value = match &root { Some(r) => r, None => Value::from_bytes(&bytes).map_err(|e| e.to_string())? };
            let v = v.as_array().and_then(|a| a.get(1)).ok_or("no element")?;
            if n > 0 && t.pick(2) == 0 { let i = t.pick(n as u64) as usize; t.note(|| format!("set_fleece {i} {}", show(&x))); a.set_fleece(i, v); m[i] = x; }
            else { t.note(|| format!("push_fleece {}", show(&x))); a.push_fleece(v); m.push(x); }
            drop(root);
            let mut bytes = bytes; bytes.fill(0xff);
        }
        11 if depth < 4 => { let i = m.iter().position(|x| matches!(x, Tree::Arr(_))); if let Some(i) = i { let y = a.get_array_mut(i).ok_or("get_array_mut is None")?; let Tree::Arr(my) = &mut m[i] else { unreachable!() }; t.note(|| format!("in array {i}:")); arr_op(t, c, y, my, depth + 1)?; } }
        12 if depth < 4 => { let i = m.iter().position(|x| matches!(x, Tree::Dict(_))); if let Some(i) = i { let y = a.get_dict_mut(i).ok_or("get_dict_mut is None")?; let Tree::Dict(my) = &mut m[i] else { unreachable!() }; t.note(|| format!("in dict {i}:")); dict_op(t, c, y, my, depth + 1)?; } }
        13 if c.snaps.len() < 4 => { t.note(|| "clone".into()); let y = a.clone(); // swap so that both the copy and the original are changed later
            let old = if t.pick(2) == 0 { std::mem::replace(a, y) } else { y }; c.snaps.push(Snap::A(old, Tree::Arr(m.clone()))); }
        _ => { for i in 0..n { let s = is_scalar(&m[i]); ensure!(a.get(i).is_some() == s, "get({i})"); ensure!(a.get_array_mut(i).is_some() == matches!(m[i], Tree::Arr(_)), "get_array_mut({i})"); ensure!(a.get_dict_mut(i).is_some() == matches!(m[i], Tree::Dict(_)), "get_dict_mut({i})"); } }
    }
    Ok(())
}
fn dict_op(t: &mut Tape, c: &mut Ctx, d: &mut MutableDict, m: &mut Vec<(String, Tree)>, depth: u32) -> Res {
    fn put(m: &mut Vec<(String, Tree)>, k: &str, x: Tree) { match m.iter_mut().find(|e| e.0 == k) { Some(e) => e.1 = x, None => m.push((k.to_string(), x)) } }
    let k = dkey(t, c, m);
    match t.pick(12) {
        0 | 1 | 2 | 3 => { let x = small(t); t.note(|| format!("insert {k:?} {}", show(&x))); with_scalar!(&x, v => d.insert(&k, v)); put(m, &k, x); }
        4 | 5 => { t.note(|| format!("remove {k:?}")); d.remove(&k); m.retain(|e| e.0 != k); }
        6 => { let x = if t.pick(2) == 0 { Tree::Arr(vec![]) } else { sub(t, false) }; let y = build_arr(t, c, &x)?; t.note(|| format!("insert_array {k:?} {}", show(&x))); d.insert_array(&k, y); put(m, &k, x); }
        7 => { let x = if t.pick(2) == 0 { Tree::Dict(vec![]) } else { sub(t, true) }; let y = build_dict(t, c, &x)?; t.note(|| format!("insert_dict {k:?} {}", show(&x))); d.insert_dict(&k, y); put(m, &k, x); }
        8 if depth < 4 => { if let Some(i) = m.iter().position(|x| matches!(x.1, Tree::Arr(_))) { let k = m[i].0.clone(); let y = d.get_array_mut(&k).ok_or("get_array_mut is None")?; let Tree::Arr(my) = &mut m[i].1 else { unreachable!() }; t.note(|| format!("in array {k:?}:")); arr_op(t, c, y, my, depth + 1)?; } }
        9 if depth < 4 => { if let Some(i) = m.iter().position(|x| matches!(x.1, Tree::Dict(_))) { let k = m[i].0.clone(); let y = d.get_dict_mut(&k).ok_or("get_dict_mut is None")?; let Tree::Dict(my) = &mut m[i].1 else { unreachable!() }; t.note(|| format!("in dict {k:?}:")); dict_op(t, c, y, my, depth + 1)?; } }
        10 if c.snaps.len() < 4 => { t.note(|| "clone".into()); let y = d.clone(); let old = if t.pick(2) == 0 { std::mem::replace(d, y) } else { y }; c.snaps.push(Snap::D(old, Tree::Dict(m.clone()))); }
        _ => { let have = m.iter().find(|e| e.0 == k).map(|e| &e.1);
            ensure!(d.contains_key(&k) == have.is_some(), "contains_key({k:?}) is {}", have.is_none());
            ensure!(d.get(&k).is_some() == have.is_some_and(is_scalar), "get({k:?})");
            ensure!(d.get_array(&k).is_some() == matches!(have, Some(Tree::Arr(_))) && d.get_array_mut(&k).is_some() == matches!(have, Some(Tree::Arr(_))), "get_array({k:?})");
            ensure!(d.get_dict(&k).is_some() == matches!(have, Some(Tree::Dict(_))) && d.get_dict_mut(&k).is_some() == matches!(have, Some(Tree::Dict(_))), "get_dict({k:?})"); }
    }
    Ok(())
}
fn keys(t: &mut Tape) -> Option<Arc<SharedKeys>> {
    if t.pick(2) == 0 { return None; }
    let mut s = SharedKeys::new();
    for _ in 0..t.pick(8) { let k = t.of(&["user", "name", "id", "a", "b", "k1", "k2", "k5", "xxxxxxxxxxxxxxxx", ""]); s.encode_and_insert(k); }
    Some(Arc::new(s))
}
fn snaps(c: &Ctx) -> Res {
    for s in &c.snaps { match s { Snap::A(a, m) => is_arr(a, m, "a copy made earlier")?, Snap::D(d, m) => is_dict(d, m, "a copy made earlier")? } }
    Ok(())
}
fn arr_ops(t: &mut Tape) -> Res {
    let mut c = Ctx { sk: keys(t), snaps: vec![], scopes: vec![] };
    let start = if t.pick(2) == 0 { Tree::Arr(vec![]) } else { sub(t, false) };
    t.note(|| format!("start from {}", show(&start)));
    let mut a = build_arr(t, &mut c, &start)?;
    is_arr(&a, &start, "at the start")?;
    let Tree::Arr(mut m) = start else { unreachable!() };
    let n = t.pick(20);
    for _ in 0..n {
        arr_op(t, &mut c, &mut a, &mut m, 0)?;
        if t.pick(3) == 0 { is_arr(&a, &Tree::Arr(m.clone()), "after an operation")?; }
    }
    if n > 2 { t.nontrivial(); }
    is_arr(&a, &Tree::Arr(m), "at the end")?;
    snaps(&c)?;
    drop(a);
    snaps(&c)
}
fn dict_ops(t: &mut Tape) -> Res {
    let mut c = Ctx { sk: keys(t), snaps: vec![], scopes: vec![] };
    let start = if t.pick(2) == 0 { Tree::Dict(vec![]) } else { sub(t, true) };
    t.note(|| format!("shared keys {:?}, start from {}", c.sk.as_ref().map(|s| s.iter().map(|k| k.0.to_string()).collect::<Vec<_>>()), show(&start)));
    let mut d = build_dict(t, &mut c, &start)?;
    is_dict(&d, &start, "at the start")?;
    let Tree::Dict(mut m) = start else { unreachable!() };
    let n = t.pick(20);
    for _ in 0..n {
        dict_op(t, &mut c, &mut d, &mut m, 0)?;
        if t.pick(3) == 0 { is_dict(&d, &Tree::Dict(m.clone()), "after an operation")?; }
    }
    if n > 2 { t.nontrivial(); }
    for _ in 0..6 { let k = dkey(t, &c, &m); let w = m.iter().any(|e| e.0 == k); ensure!(d.contains_key(&k) == w, "contains_key({k:?}) is {}", !w); }
    is_dict(&d, &Tree::Dict(m), "at the end")?;
    snaps(&c)?;
    drop(d);
    snaps(&c)
}
/// every length of string and data around the inline capacity, pushed, set, inserted, copied
fn slot_sizes(t: &mut Tape) -> Res {
    let n = t.pick(40) as usize;
    let data = t.pick(2) == 1;
    let x = if data { Tree::Data(blob(t, n)) } else { Tree::Str("s".repeat(n)) };
    t.note(|| show(&x));
    t.nontrivial();
    let mut a = MutableArray::new();
    a.push(&1i8);
    with_scalar!(&x, v => a.push(&v));
    with_scalar!(&x, v => a.set(0, v));
    let want = Tree::Arr(vec![x.clone(), x.clone()]);
    is_arr(&a, &want, "pushed and set")?;
    let b = a.clone();
    a.set(1, 5u64);
    a.remove(0);
    is_arr(&b, &want, "a copy")?;
    let mut d = MutableDict::new();
    with_scalar!(&x, v => d.insert("k", v));
    let e = d.clone();
    d.insert("k", 1i64);
    is_dict(&e, &Tree::Dict(vec![("k".into(), x.clone())]), "a copy")?;
    let enc = encode(&want)?;
    let v = Value::from_bytes(&enc).map_err(|e| e.to_string())?;
    let mut f = MutableArray::clone_from(v.as_array().ok_or("array")?);
    is_arr(&f, &want, "from an encoded array")?;
    f.push_fleece(v.as_array().unwrap().get(0).ok_or("element")?);
    let w3 = Tree::Arr(vec![x.clone(), x.clone(), x]);
    is_arr(&f, &w3, "with an encoded element pushed")
}
fn sizes_fixed(_: bool) -> Vec<Vec<u64>> { (0..40).flat_map(|n| [vec![n, 0], vec![n, 1]]).collect() }
/// every number of every boundary through a slot
fn slot_numbers(t: &mut Tape) -> Res {
    let x = if t.pick(4) == 0 { gen_float(t) } else { gen_int(t) };
    t.note(|| show(&x));
    t.nontrivial();
    let mut a = MutableArray::new();
    with_scalar!(&x, v => a.push(&v));
    let enc = encode(&Tree::Arr(vec![x.clone()]))?;
    let v = Value::from_bytes(&enc).map_err(|e| e.to_string())?.as_array().ok_or("array")?;
    a.push_fleece(v.get(0).ok_or("element")?);
    a.push(&false);
    with_scalar!(&x, v => a.set(2, v));
    let mut d = MutableDict::new();
    with_scalar!(&x, v => d.insert("k", v));
    is_dict(&d, &Tree::Dict(vec![("k".into(), x.clone())]), "inserted")?;
    is_arr(&a.clone(), &Tree::Arr(vec![x.clone(), x.clone(), x]), "pushed, copied from an encoded value and set")
}
/// many elements, long values and deep nesting, pushed, copied from an encoded collection, and cloned
fn many(t: &mut Tape) -> Res {
    let n = match t.pick(12) { 0 => t.range(2044, 2051), 1 => t.range(65530, 65540), 2 => t.range(250, 260), 3 => t.pick(20_000), _ => t.pick(600) } as usize;
    let kind = t.pick(5);
    let x = match t.pick(6) { 0 => { let l = t.of(&[255u64, 256, 2048, 16383, 16384, 65535, 65536, 70_000]); Tree::Str("y".repeat((l + t.pick(2)) as usize)) } 1 => Tree::Data(vec![9; 70_000]), _ => small(t) };
    t.note(|| format!("{n} elements, kind {kind}, and one {}", show(&x)));
    t.nontrivial();
    let el = |i: usize| if i % 3 == 0 { Tree::Int("i64", i as i128 * 77 - 1000) } else if i % 3 == 1 { Tree::Int("u16", (i % 2048) as i128) } else { Tree::Str(format!("{i}")) };
    match kind {
        0 | 1 => {
            let mut v: Vec<Tree> = (0..n).map(el).collect();
            v.push(x);
            let mut a = MutableArray::new();
            for e in &v { with_scalar!(e, v => a.push(&v)); }
            let want = Tree::Arr(v.clone());
            is_arr(&a, &want, "pushed")?;
            let enc = encode(&want)?;
            let mut c = MutableArray::clone_from(Value::from_bytes(&enc).map_err(|e| e.to_string())?.as_array().ok_or("array")?);
            is_arr(&c, &want, "from an encoded array")?;
            let i = t.pick(v.len() as u64) as usize;
            c.remove(i); v.remove(i);
            is_arr(&c.clone(), &Tree::Arr(v), &format!("copied after remove({i})"))?;
            is_arr(&a.clone(), &want, "copied")
        }
        2 | 3 => {
            let mut v: Vec<(String, Tree)> = (0..n).map(|i| (match i % 3 { 0 => format!("k{i}"), 1 => format!("a long key number {i}"), _ => format!("{i}") }, el(i))).collect();
            v.push(("x".into(), x));
            let mut d = if t.pick(2) == 0 { MutableDict::new() } else { let mut sk = SharedKeys::new(); for (k, _) in v.iter().step_by(2) { sk.encode_and_insert(k); } MutableDict::new_with_shared_keys(Arc::new(sk)) };
            for (k, e) in &v { with_scalar!(e, v => d.insert(k, v)); }
            let want = Tree::Dict(v.clone());
            is_dict(&d, &want, "inserted")?;
            let enc = encode(&want)?;
            let mut c = MutableDict::clone_from(Value::from_bytes(&enc).map_err(|e| e.to_string())?.as_dict().ok_or("dict")?);
            is_dict(&c, &want, "from an encoded dict")?;
            let i = t.pick(v.len() as u64) as usize;
            c.remove(&v[i].0);
            let k = v.remove(i).0;
            is_dict(&c.clone(), &Tree::Dict(v), &format!("copied after remove({k:?})"))?;
            is_dict(&d.clone(), &want, "copied")
        }
        _ => {
            // a chain of collections, each holding the next one
            let depth = n.min(80);
            let mut want = Tree::Arr(vec![x]);
            for i in 0..depth { want = if i % 2 == 0 { Tree::Dict(vec![(format!("key {i}"), want), ("z".into(), el(i))]) } else { Tree::Arr(vec![el(i), want]) }; }
            let want = Tree::Arr(vec![want]);
            let enc = encode(&want)?;
            let c = MutableArray::clone_from(Value::from_bytes(&enc).map_err(|e| e.to_string())?.as_array().ok_or("array")?);
            is_arr(&c, &want, "from an encoded array")?;
            is_arr(&c.clone(), &want, "copied")
        }
    }
}
fn many_fixed(_: bool) -> Vec<Vec<u64>> {
    let mut o = vec![];
    for kind in 0..5 { o.push(vec![0, 4, kind, 5, 0, 0, 0]); o.push(vec![2, 6, kind, 0, 5, 0, 1, 1]); o.push(vec![2, 6, kind, 1, 1]); }
    o.push(vec![1, 7, 0, 1]); o.push(vec![1, 7, 2, 1, 1]);
    o
}
pub fn families() -> Vec<Family> {
    vec![
        Family { name: "mutable_many", props: &["C13", "C14"], rule: "mutable arrays and dicts of up to 65540 entries, values of up to 70000 bytes, nesting up to 80", run: many, fixed: many_fixed, weight: 1 },
        Family { name: "arr_ops", props: &["C13"], rule: "up to 20 operations on a mutable array and the collections nested in it, from empty, encoded or scoped starts, with copies", run: arr_ops, fixed: no_fixed, weight: 6 },
        Family { name: "dict_ops", props: &["C14"], rule: "up to 20 operations on a mutable dict and the collections nested in it, with and without shared keys, from empty, encoded or scoped starts, with copies", run: dict_ops, fixed: no_fixed, weight: 6 },
        Family { name: "slot_sizes", props: &["C13", "C14"], rule: "strings and data of every length from 0 to 39 in slots (complete)", run: slot_sizes, fixed: sizes_fixed, weight: 0 },
        Family { name: "slot_numbers", props: &["C13", "C14"], rule: "boundary and random numbers of every type in slots", run: slot_numbers, fixed: no_fixed, weight: 2 },
    ]
}
