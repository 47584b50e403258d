//! C09 dict lookup, C10 shared keys numbering, C11 persistence of shared keys.
use fleece::{Encoder, Scope, SharedKeys, Value, ValueType};
use fleece_search::tree::*;
use fleece_search::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;

fn shareable(k: &str) -> bool { k.len() <= 16 && k.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-') }

/// a key from a space small enough for look-alikes to be frequent
fn near_key(t: &mut Tape) -> String {
    match t.pick(10) {
        0 => String::new(),
        1 => t.of(&["a", "b", "é", "-", "~", "\0", "0"]).to_string(),
        2 | 3 => { let n = t.range(1, 4); (0..n).map(|_| t.of(&['a', 'b', 'A', '_', '-'])).collect() }
        4 => { let n = t.range(13, 19); (0..n).map(|i| if i + 2 < n { 'k' } else { t.of(&['k', 'l', ' ']) }).collect() }
        5 => { let n = t.range(1, 6); (0..n).map(|_| t.of(&['a', ' ', 'é', '日', '\u{7f}', '\0', '.'])).collect() }
        6 | 7 => format!("key{}", t.pick(60)),
        8 => format!("a rather long key number {}", t.pick(30)),
        _ => { let n = t.range(120, 132) as usize; let c = t.of(&['p', 'q']); let mut s = "p".repeat(n); s.push(c); s }
    }
}
fn check_dict(v: &Value, want: &[(String, i64)], absent: &[String], sk: Option<&SharedKeys>, how: &str) -> Res {
    let d = v.as_dict().ok_or_else(|| format!("{how}: not a dict"))?;
    let find = |k: &str| match sk { Some(s) => d.get_with_shared_keys(k, s), None => d.get(k) };
    let has = |k: &str| match sk { Some(s) => d.contains_key_with_shared_keys(k, s), None => d.contains_key(k) };
    for (k, x) in want {
        let e = find(k).ok_or_else(|| format!("{how}: key {k:?}, which was written, is not found"))?;
        ensure!(e.to_int() == *x, "{how}: key {k:?} finds {} instead of {x}", e.to_int());
        ensure!(has(k), "{how}: contains({k:?}) is false");
    }
    for k in absent {
        ensure!(find(k).is_none(), "{how}: key {k:?}, which was not written, finds {}", find(k).unwrap().to_int());
        ensure!(!has(k), "{how}: contains({k:?}) is true");
    }
    ensure!(d.len() == want.len() && d.is_empty() == want.is_empty(), "{how}: length {} instead of {}", d.len(), want.len());
    Ok(())
}
fn check_iter(v: &Value, want: &[(String, i64)], how: &str) -> Res {
    let d = v.as_dict().ok_or("not a dict")?;
    let mut got: Vec<(String, i64)> = vec![];
    let mut it = d.iter();
    loop {
        let h = it.size_hint();
        ensure!(h == (want.len() - got.len(), Some(want.len() - got.len())), "{how}: size hint {h:?} after {} of {} entries", got.len(), want.len());
        let Some((k, x)) = it.next() else { break };
        ensure!(got.len() < want.len(), "{how}: iteration yields more than {} entries", want.len());
        got.push((k.to_string(), x.to_int()));
    }
    got.sort();
    let mut w = want.to_vec();
    w.sort();
    ensure!(got == w, "{how}: iteration yields {} entries other than the {} written", got.len(), w.len());
    if let Some((_, x)) = d.first() { ensure!(w.iter().any(|(_, y)| *y == x.to_int()), "{how}: first() is no entry"); } else { ensure!(w.is_empty(), "{how}: first() is None"); }
    Ok(())
}
fn lookup(t: &mut Tape) -> Res {
    let n = match t.pick(12) { 0 => 0, 1 => 1, 2 => 2, 11 => t.range(30, 200), _ => t.pick(24) } as usize;
    let mut keys: Vec<String> = vec![];
    let mut seen = HashSet::new();
    for _ in 0..n { let k = near_key(t); if seen.insert(k.clone()) { keys.push(k); } }
    lookup_with(t, keys, seen)
}
fn lookup_sized(t: &mut Tape) -> Res {
    let n = t.pick(2600) as usize;
    let style = t.pick(4);
    let mut keys: Vec<String> = (0..n).map(|i| match style { 0 => format!("{i}"), 1 => format!("the key with the number {i}"), 2 if i % 2 == 0 => format!("{i}"), 2 => format!("number {i} and more"), _ => format!("{:05}", i * 7919 % 100_003) }).collect();
    let step = t.of(&[1usize, 7, 101, 2503]);
    let m = keys.len();
    if m > 0 && step > 1 { let gcd1 = (1..).map(|s| step + s - 1).find(|s| { let (mut a, mut b) = (*s, m); while b > 0 { (a, b) = (b, a % b); } a == 1 }).unwrap(); keys = (0..m).map(|i| keys[i * gcd1 % m].clone()).collect(); }
    let seen = keys.iter().cloned().collect();
    lookup_with(t, keys, seen)
}
fn lookup_with(t: &mut Tape, keys: Vec<String>, seen: HashSet<String>) -> Res {
    let want: Vec<(String, i64)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), if i % 3 == 0 { i as i64 } else { i as i64 * 100_003 - 7 })).collect();
    let mut absent: Vec<String> = vec![];
    for k in keys.iter().take(40) {
        absent.push(format!("{k}a"));
        absent.push(format!("a{k}"));
        absent.push(format!("{k}\0"));
        let mut s = k.clone(); s.pop(); absent.push(s);
        absent.push(k.to_uppercase());
        if k.len() == 1 || k.len() > 16 { absent.push(k.chars().take(16).collect()); }
    }
    for _ in 0..6 { absent.push(near_key(t)); }
    absent.push(String::new());
    absent.push("x".repeat(17));
    absent.retain(|k| !seen.contains(k));
    // shared keys which exist before the dict is written
    let full = t.pick(30) == 0;
    let mut sk = SharedKeys::new();
    let pre = if full { t.range(2030, 2048) } else { t.pick(5) };
    for i in 0..pre {
        let k = if i % 3 == 0 && !absent.is_empty() { absent[i as usize % absent.len()].clone() } else if !keys.is_empty() && i % 3 == 1 { keys[i as usize % keys.len()].clone() } else { format!("pre{i}") };
        sk.encode_and_insert(&k);
    }
    let filler = if t.pick(4) == 0 { t.range(16200, 16400) as usize } else { 0 };
    let nested = t.pick(3) == 0;
    let empty = SharedKeys::new();
    t.note(|| format!("{} keys {:?}.. {} shared keys beforehand, filler {filler}, nested {nested}", keys.len(), keys.iter().take(12).collect::<Vec<_>>(), pre));
    if keys.len() > 1 { t.nontrivial(); }
    let build = |e: &mut Encoder| -> Result<(), String> {
        let er = |x: fleece::encoder::EncodeError| x.to_string();
        if nested { e.begin_array(1).map_err(er)?; }
        e.begin_dict().map_err(er)?;
        for (i, (k, x)) in want.iter().enumerate() {
            e.write_key(k).map_err(er)?;
            e.write_value(*x).map_err(er)?;
            if i == 0 && filler > 0 { /* values far away: written below through a nested array */ }
        }
        e.end_dict().map_err(er)?;
        if nested { e.write_value("z".repeat(filler).as_str()).map_err(er)?; e.end_array().map_err(er)?; }
        Ok(())
    };
    let dict = |v: &Value| -> Result<*const Value, String> { if nested { let a = v.as_array().ok_or("not an array")?; let e: *const Value = a.get(0).ok_or("no element")?; Ok(e) } else { Ok(v as *const Value) } };
    // 1. no shared keys at all
    let mut e = Encoder::new();
    if filler > 0 && !nested { e = Encoder::new_to_vec(vec![7; 2]); }
    build(&mut e)?;
    let doc = e.finish();
    let v = Value::from_bytes(&doc).map_err(|e| e.to_string())?;
    let d = unsafe { &*dict(v)? };
    check_dict(d, &want, &absent, None, "written without shared keys")?;
    check_iter(d, &want, "written without shared keys")?;
    check_dict(d, &want, &absent, Some(&empty), "written without shared keys, empty ones passed")?;
    check_dict(d, &want, &absent, Some(&sk), "written without shared keys, some passed")?;
    // 2. the same document in a scope that has shared keys
    let scope = Scope::new(doc.clone(), Some(Arc::new(sk.clone())));
    {
        let root = scope.root().ok_or("scope has no root")?;
        let d = unsafe { &*dict(&root)? };
        check_dict(d, &want, &absent, None, "written without shared keys, in a scope that has some")?;
        check_iter(d, &want, "written without shared keys, in a scope that has some")?;
    }
    drop(scope);
    // 3. written with shared keys
    let mut e = Encoder::new();
    e.set_shared_keys(sk);
    build(&mut e)?;
    let scope = e.finish_scoped();
    let keys_now = scope.shared_keys().cloned().ok_or("no shared keys")?;
    let root = scope.root().ok_or("scope has no root")?;
    let d = unsafe { &*dict(&root)? };
    check_dict(d, &want, &absent, None, "written with shared keys")?;
    check_iter(d, &want, "written with shared keys")?;
    check_dict(d, &want, &absent, Some(&keys_now), "written with shared keys, passed explicitly")?;
    scope.remove();
    // outside any scope, passed explicitly
    let copy = scope.data().ok_or("no data")?.to_vec();
    let v = Value::from_bytes(&copy).map_err(|e| e.to_string())?;
    let d = unsafe { &*dict(v)? };
    check_dict(d, &want, &absent, Some(&keys_now), "written with shared keys, outside the scope")?;
    Ok(())
}
fn sized_fixed(_: bool) -> Vec<Vec<u64>> {
    let mut o = vec![];
    for n in [0u64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1022, 1023, 1024, 1025, 2045, 2046, 2047, 2048, 2049, 2050, 2599] { for s in 0..4 { for k in 0..4 { o.push(vec![n, s, k]); } } }
    o
}

// ------------------------------------------------------------------------------------ C10
fn same_numbering(sk: &SharedKeys, want: &[String], how: &str) -> Res {
    ensure!(sk.len() as usize == want.len() && sk.is_empty() == want.is_empty(), "{how}: {} keys instead of {}", sk.len(), want.len());
    for (i, k) in want.iter().enumerate() {
        ensure!(sk.encode(k) == Some(i as u16), "{how}: {k:?} has number {:?} instead of {i}", sk.encode(k));
        ensure!(sk.decode(i as u16) == Some(k.as_str()), "{how}: number {i} is {:?} instead of {k:?}", sk.decode(i as u16));
    }
    for i in [want.len(), want.len() + 1, 2048, 4095, 65535] { if i >= want.len() { ensure!(sk.decode(i as u16).is_none(), "{how}: number {i} of {} is {:?}", want.len(), sk.decode(i as u16)); } }
    let got: Vec<(String, u16)> = sk.iter().map(|(k, i)| (k.to_string(), i)).collect();
    let exp: Vec<(String, u16)> = want.iter().enumerate().map(|(i, k)| (k.clone(), i as u16)).collect();
    let mut g = got.clone();
    g.sort_by_key(|x| x.1);
    ensure!(g == exp, "{how}: iteration yields {} entries other than the {} inserted", got.len(), exp.len());
    for k in [0, 1, got.len() / 2, got.len().saturating_sub(1), got.len()] {
        let (mut it, mut at) = (sk.iter(), k);
        for x in [it.nth(k), it.next(), it.nth(1)] {
            ensure!(x.map(|(k, i)| (k.to_string(), i)) == got.get(at).cloned(), "{how}: nth({k}) and the calls after it yield {x:?}");
            at = if at == k { k + 1 } else { at + 2 };
        }
    }
    ensure!(sk.iter().count() == got.len(), "{how}: count() is {}", sk.iter().count());
    Ok(())
}
fn insert(sk: &mut SharedKeys, model: &mut Vec<String>, index: &mut BTreeMap<String, u16>, k: &str) -> Res {
    let before = index.get(k).copied();
    ensure!(sk.encode(k) == before, "{k:?} has number {:?} instead of {before:?}", sk.encode(k));
    let can = shareable(k) && model.len() < 2048;
    ensure!(sk.can_add(k) == can, "can_add({k:?}) with {} keys is {}", model.len(), !can);
    let want = before.or(if can { Some(model.len() as u16) } else { None });
    let got = sk.encode_and_insert(k);
    ensure!(got == want, "inserting {k:?} with {} keys yields {got:?} instead of {want:?}", model.len());
    if before.is_none() && can { index.insert(k.to_string(), model.len() as u16); model.push(k.to_string()); }
    ensure!(sk.len() as usize == model.len(), "{} keys instead of {} after inserting {k:?}", sk.len(), model.len());
    Ok(())
}
fn insertions(t: &mut Tape) -> Res {
    let mut sk = SharedKeys::new();
    let mut model = vec![];
    let mut index = BTreeMap::new();
    let n = t.pick(40);
    let mut clones: Vec<(SharedKeys, Vec<String>)> = vec![];
    let big = t.pick(60) == 0;
    if big { let m = t.range(2030, 2048); for i in 0..m { insert(&mut sk, &mut model, &mut index, &format!("f{i}"))?; } }
    for _ in 0..n {
        let k = match t.pick(12) {
            0 => { let n = t.range(14, 19); let c = t.of(&['x', 'y']); (0..n).map(|i| if i + 1 == n { c } else { 'q' }).collect() }
            1 => { let c = t.of(&['é', 'ß', '日', '٣', 'Ⅷ', '😀', '\u{301}']); let n = t.pick(10); (0..n).map(|_| c).collect() }
            2 => { let c = t.of(&[' ', '.', '\0', '/', '~', '+', '\u{ff}', '\n']); let mut s: String = "ab".into(); let at = t.pick(3) as usize; s.insert(at, c); s }
            _ => near_key(t),
        };
        t.note(|| format!("insert {k:?}"));
        insert(&mut sk, &mut model, &mut index, &k)?;
        if t.pick(20) == 0 { clones.push((sk.clone(), model.clone())); }
        if let Some(last) = model.last() { let x = format!("{last}0"); if !index.contains_key(&x) { ensure!(sk.encode(&x).is_none(), "{x:?} was never inserted but has number {:?}", sk.encode(&x)); } }
    }
    if model.len() > 3 { t.nontrivial(); }
    same_numbering(&sk, &model, "after the insertions")?;
    for (c, m) in clones { same_numbering(&c, &m, "a clone made earlier")?; }
    Ok(())
}
fn fill(t: &mut Tape) -> Res {
    let style = t.pick(6);
    let mut sk = SharedKeys::new();
    let mut model = vec![];
    let mut index = BTreeMap::new();
    t.note(|| format!("fill to the limit, style {style}"));
    t.nontrivial();
    for i in 0..2060u32 {
        let k = match style { 0 => format!("{i}"), 1 => format!("abcdefghijkl{i:04}"), 2 => format!("{i:016}"), 3 => format!("é{i}"), 4 => format!("{i:x}_-"), _ => format!("{}{i}", if i % 5 == 4 { "not shareable " } else { "k" }) };
        insert(&mut sk, &mut model, &mut index, &k)?;
        if i % 97 == 0 { let k = model.first().cloned().unwrap_or_default(); insert(&mut sk, &mut model, &mut index, &k)?; }
    }
    same_numbering(&sk, &model, "after filling up")?;
    same_numbering(&sk.clone(), &model, "a clone")
}
fn fill_fixed(_: bool) -> Vec<Vec<u64>> { (0..6).map(|i| vec![i]).collect() }

// ------------------------------------------------------------------------------------ C11
fn state(t: &mut Tape) -> Res {
    let mut sk = SharedKeys::new();
    let mut model = vec![];
    let mut index = BTreeMap::new();
    let n = match t.pick(40) { 0 => t.of(&[2046u64, 2047, 2048, 1023, 1024]), 1 => t.range(100, 2048), _ => t.pick(30) };
    let style = t.pick(4);
    for i in 0..n {
        let k = match style { 0 => format!("{i}"), 1 => format!("abcdefghijkl{i:04}"), 2 if n <= 30 => near_key(t), _ => format!("é{i}") };
        if shareable(&k) { insert(&mut sk, &mut model, &mut index, &k)?; }
    }
    t.note(|| format!("{} keys, {:?}..", model.len(), model.iter().take(8).collect::<Vec<_>>()));
    if model.len() > 1 { t.nontrivial(); }
    // a document written with these keys
    let mut e = Encoder::new();
    e.set_shared_keys(sk.clone());
    let doc = Tree::Dict(model.iter().take(60).enumerate().map(|(i, k)| (k.clone(), Tree::Int("i64", i as i128 * 9999))).collect());
    write(&mut e, &doc)?;
    let doc_bytes = e.finish();
    let bytes = sk.get_state_bytes();
    let mut loaded = SharedKeys::from_state_bytes(&bytes).ok_or("the state is refused")?;
    same_numbering(&loaded, &model, "loaded from the state bytes")?;
    // nested in another document
    let mut e = Encoder::new();
    let er = |x: fleece::encoder::EncodeError| x.to_string();
    e.begin_dict().map_err(er)?;
    e.write_key("a").map_err(er)?;
    e.write_value("before").map_err(er)?;
    e.write_key("keys").map_err(er)?;
    sk.write_state(&mut e).ok_or("write_state failed")?;
    e.end_dict().map_err(er)?;
    let outer = e.finish();
    let v = Value::from_bytes(&outer).map_err(|e| e.to_string())?;
    let v = v.as_dict().and_then(|d| d.get("keys")).ok_or("no state in the dict")?;
    let l2 = SharedKeys::from_state_value(v).ok_or("the nested state is refused")?;
    same_numbering(&l2, &model, "loaded from a nested value")?;
    // the document remains readable, and the numbering continues
    let scope = Scope::new(doc_bytes, Some(Arc::new(loaded.clone())));
    let root = scope.root().ok_or("no root")?;
    let got = read(&root)?;
    ensure!(same(&doc, &got), "a document written before reads differently: {}", diff(&doc, &got));
    lookups(&root, &doc)?;
    for k in ["one_more", "and-another"] { insert(&mut loaded, &mut model, &mut index, k)?; }
    same_numbering(&loaded, &model, "after further insertions")
}
fn state_fixed(_: bool) -> Vec<Vec<u64>> {
    let mut o = vec![];
    for i in 0..5 { for s in 0..4 { o.push(vec![0, i, s]); } }
    for n in 0..30 { for s in 0..4 { o.push(vec![2, n, s]); } }
    o
}
fn check_state(d: &[u8], t: &mut Tape) -> Res {
    t.note(|| format!("state {d:02x?}"));
    if unfolded(d, 20_000) >= 20_000 { t.skip(); return Ok(()); }
    let got = SharedKeys::from_state_bytes(d);
    let v = Value::from_bytes(d);
    let want: Option<Vec<String>> = match v {
        Err(_) => None,
        Ok(v) => match v.as_array() {
            None => None,
            Some(a) => {
                t.nontrivial();
                let mut m: Vec<String> = vec![];
                let mut ok = true;
                for x in a { if x.value_type() != ValueType::String || !shareable(x.to_str()) { ok = false; break; } let s = x.to_str().to_string(); if !m.contains(&s) { m.push(s); } }
                if ok && m.len() <= 2048 { Some(m) } else { None }
            }
        },
    };
    match (got, want) {
        (None, None) => Ok(()),
        (Some(s), Some(m)) => same_numbering(&s, &m, "loaded"),
        (Some(s), None) => Err(format!("state which is no array of keys was accepted, as {} keys", s.len())),
        (None, Some(m)) => Err(format!("an array of {} keys was refused", m.len())),
    }
}
fn state_any(t: &mut Tape) -> Res {
    let d = match t.pick(4) {
        0 => crate::fam_bytes::grammar(t),
        1 => { // an array of mostly strings, through the encoder
            let n = t.pick(12);
            let mut v = vec![];
            for _ in 0..n { v.push(if t.pick(8) == 0 { gen_scalar(t, false) } else { Tree::Str(near_key(t)) }); }
            if t.pick(6) == 0 { v.push(Tree::Arr(vec![])); }
            encode(&Tree::Arr(v))?
        }
        2 => { let mut d = SharedKeys::new(); for _ in 0..t.pick(6) { let k = near_key(t); d.encode_and_insert(&k); } let mut b = d.get_state_bytes().to_vec(); for _ in 0..t.range(1, 3) { let i = t.pick(b.len() as u64) as usize; b[i] = t.pick(256) as u8; } b }
        _ => crate::fam_bytes::mutate(t),
    };
    check_state(&d, t)
}
fn state_two(t: &mut Tape) -> Res {
    let a = t.pick(256) as u8;
    for b in 0..=255u8 { for d in [&[a, b][..], &[0x60, 1, a, b, 0x80, 2], &[0x60, 1, a, b, 0x80, 3]] { let log = t.log.len(); check_state(d, t)?; t.log.truncate(log); } }
    t.note(|| format!("every state of a two-byte value starting with {a:#04x}, alone and in an array"));
    Ok(())
}
fn two(_: bool) -> Vec<Vec<u64>> { (0..256).map(|i| vec![i]).collect() }

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "lookup", props: &["C09"], rule: "dicts of up to 200 look-alike keys of all kinds, written without, read with, and written with shared keys; all written keys and look-alikes of them are looked up", run: lookup, fixed: no_fixed, weight: 8 },
        Family { name: "lookup_sized", props: &["C09"], rule: "dicts of 0 to 2600 keys in several orders", run: lookup_sized, fixed: sized_fixed, weight: 1 },
        Family { name: "insertions", props: &["C10"], rule: "up to 40 insertions of look-alike strings against a list, sometimes close to the limit", run: insertions, fixed: no_fixed, weight: 8 },
        Family { name: "fill", props: &["C10"], rule: "2060 insertions of keys in six styles", run: fill, fixed: fill_fixed, weight: 0 },
        Family { name: "state", props: &["C11"], rule: "shared keys of 0 to 2048 strings, persisted, reloaded and continued; documents written before are read", run: state, fixed: state_fixed, weight: 4 },
        Family { name: "state_any", props: &["C11"], rule: "arbitrary and mutated bytes as state, against the array of strings they stand for", run: state_any, fixed: no_fixed, weight: 5 },
        Family { name: "state_two", props: &["C11"], rule: "every two-byte value as state, alone and as the element of an array (complete)", run: state_two, fixed: two, weight: 0 },
    ]
}
