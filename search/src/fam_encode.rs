//! C01..C05, C08: documents made by the encoder
use fleece::{Encoder, Scope, SharedKeys, Value, ValueType};
use fleece_search::tree::*;
use fleece_search::*;
use std::sync::Arc;

/// decode a finished document in every way and compare with the tree written
pub fn check_doc(doc: &[u8], want: &Tree, keys: Option<&SharedKeys>) -> Res {
    ensure!(doc.len() % 2 == 0, "finished document has {} bytes", doc.len());
    let r = RefDec::root(doc, keys).map_err(|e| format!("the finished document does not decode by the format: {e}"))?;
    ensure!(same(want, &r), "the finished document stands for another tree: {}", diff(want, &r));
    let v = Value::from_bytes(doc).map_err(|e| format!("the finished document is rejected: {e}"))?;
    if keys.is_none() {
        let got = read(v)?;
        ensure!(same(want, &got), "reads back differently: {}", diff(want, &got));
        lookups(v, want)?;
    }
    let u = unsafe { Value::from_bytes_unchecked(doc) };
    ensure!(std::ptr::addr_eq(u, v), "from_bytes_unchecked finds another root");
    Ok(())
}
pub fn check_scope(scope: &Arc<Scope>, want: &Tree) -> Res {
    let data = scope.data().ok_or("scope has no data")?;
    let keys = scope.shared_keys().cloned();
    check_doc(&data, want, keys.as_deref())?;
    let root = scope.root().ok_or("scope has no root")?;
    let got = read(&root)?;
    ensure!(same(want, &got), "reads back differently: {}", diff(want, &got));
    lookups(&root, want)
}

/// a value written as an option is written as itself, an absent one as null
fn optional(x: &Tree) -> Res {
    let write = |k: u32| -> Result<Vec<u8>, String> {
        let mut e = Encoder::new();
        let er = |x: fleece::encoder::EncodeError| x.to_string();
        e.begin_array(2).map_err(er)?;
        match k {
            0 => { with_scalar!(x, v => e.write_value(v).map_err(er)?); e.write_value(fleece::encoder::NullValue).map_err(er)?; }
            1 => { with_scalar!(x, v => e.write_value(Some(v)).map_err(er)?); e.write_value(None::<u32>).map_err(er)?; }
            _ => { with_scalar!(x, v => { let mut o = Some(Some(v)); e.write_value(o).map_err(er)?; o = Some(None); e.write_value(o).map_err(er)?; }); }
        }
        e.end_array().map_err(er)?;
        Ok(e.finish())
    };
    let plain = write(0)?;
    for k in 1..3 { let d = write(k)?; ensure!(d == plain, "as an option it is written as {:02x?} instead of {:02x?}", &d[..d.len().min(40)], &plain[..plain.len().min(40)]); }
    let v = Value::from_bytes(&plain).map_err(|e| e.to_string())?.as_array().ok_or("not an array")?;
    ensure!(v.len() == 2 && v[1].value_type() == ValueType::Null && same(x, &read(&v[0])?), "as an option in an array of two it reads as {v:?}");
    Ok(())
}
/// one value surrounded by filler that decides the element width
fn placed(t: &mut Tape, x: Tree) -> Res {
    let shape = t.pick(6);
    let filler = match t.pick(3) { 0 => 0, 1 => t.range(16300, 16400), _ => t.range(20000, 40000) } as usize;
    let mut els = vec![];
    if shape & 1 == 1 { els.push(Tree::Str(text(t, filler))); }
    els.push(x.clone());
    if shape & 2 == 2 { els.push(Tree::Data(blob(t, filler))); els.push(x.clone()); }
    let doc = if shape < 4 { Tree::Arr(els) } else {
        Tree::Dict(els.into_iter().enumerate().map(|(i, e)| ([ "k", "key-is-long-enough", "", "ab"][i % 4].to_string() + &"x".repeat(i / 4), e)).collect())
    };
    t.note(|| show(&doc));
    t.nontrivial();
    let d = encode(&doc)?;
    check_doc(&d, &doc, None)
}
fn number(t: &mut Tape) -> Res {
    let x = match t.pick(6) { 0 => t.of(&[0u8, 1, 2, 3]).into(), 1 => gen_float(t), _ => gen_int(t) };
    optional(&x)?;
    placed(t, x)
}
fn number_fixed(_: bool) -> Vec<Vec<u64>> {
    // every integer type around every power of two, narrow and wide
    let mut o = vec![];
    for ty in 0..10u64 { for k in 0..64u64 { for s in 0..2u64 { for d in 0..5u64 {
        o.push(vec![5, ty, 0, k, s, d, if (k + d) % 2 == 0 { 2 } else { 3 }, if k % 4 == 1 { 2 } else { 0 }, 77]);
    } } } }
    for ty in 0..10u64 { for b in 0..15u64 { for d in 0..3u64 { o.push(vec![5, ty, 1, b, d, 0, 0]); } } }
    for c in 0..4u64 { for shape in 0..6u64 { for w in [0u64, 2] { o.push(vec![0, c, shape, w, 0]); } } }
    for k in 0..2u64 { for c in 0..9u64 { for shape in 0..6u64 { o.push(vec![1, k, 0, c, shape, shape % 3, 0]); } } }
    o
}
fn all_shorts(t: &mut Tape) -> Res {
    // every 16-bit integer as each type that can hold it
    let lo = t.pick(256) as i128 * 256 - 32768;
    let mut v = vec![];
    for x in lo..lo + 256 {
        for (ty, a, b) in INT_TYPES { if a <= x && x <= b { v.push(Tree::Int(ty, x)); } }
    }
    t.nontrivial();
    let doc = Tree::Arr(v);
    t.note(|| format!("all integers from {lo} to {}", lo + 255));
    check_doc(&encode(&doc)?, &doc, None)
}
fn all_shorts_fixed(_: bool) -> Vec<Vec<u64>> { (0..256).map(|i| vec![i]).collect() }

fn string(t: &mut Tape) -> Res {
    let n = match t.pick(3) { 0 => t.pick(300) as usize, _ => gen_len(t, true) };
    let as_key = t.pick(3);
    let x = if t.pick(2) == 0 { Tree::Str(text(t, n)) } else { Tree::Data(blob(t, n)) };
    if as_key == 0 {
        let k = text(t, n);
        let doc = Tree::Dict(vec![(k, x), ("zz-other".into(), Tree::Bool(true))]);
        t.note(|| show(&doc));
        t.nontrivial();
        return check_doc(&encode(&doc)?, &doc, None);
    }
    optional(&x)?;
    placed(t, x)
}
fn string_fixed(thorough: bool) -> Vec<Vec<u64>> {
    let mut o = vec![];
    for n in 0..300u64 { for kind in 0..2u64 { for key in 0..2u64 {
        o.push(vec![0, n, key, kind, n % 4, n, n % 6, 0, 0]);
    } } }
    // around the sizes where the length prefix grows (offset by 16370 in gen_len)
    for d in 0..31u64 { for kind in 0..2u64 { for key in 0..2u64 { o.push(vec![1, 7, d, key, kind, 1, d, d % 6, 0, 0]); } } }
    let _ = thorough;
    o
}
fn string_large(t: &mut Tape) -> Res {
    let n = match t.pick(4) { 0 => (1 << 21) - 2 + t.pick(5), 1 => 65534 + t.pick(5), 2 => t.pick(200_000), _ => t.pick(3_000_000) } as usize;
    let x = if t.pick(2) == 0 { Tree::Str("s".repeat(n)) } else { Tree::Data(vec![7; n]) };
    let doc = Tree::Arr(vec![Tree::Int("i16", 5), x, Tree::Null]);
    t.note(|| show(&doc));
    t.nontrivial();
    check_doc(&encode(&doc)?, &doc, None)
}
fn string_large_fixed(_: bool) -> Vec<Vec<u64>> { let mut o = vec![]; for m in 0..2 { for d in 0..5 { for k in 0..2 { o.push(vec![m, d, k]); } } } o }

/// random trees through every way of finishing
fn document(t: &mut Tape) -> Res {
    let mut g = Gen { nodes: t.range(1, 60) as usize, big: t.pick(8) == 0 };
    let tree = gen_root(t, &mut g);
    t.note(|| show(&tree));
    if !matches!(&tree, Tree::Arr(v) if v.is_empty()) { t.nontrivial(); }
    match t.pick(7) {
        0 | 1 => check_doc(&encode(&tree)?, &tree, None),
        2 => {
            let n = t.pick(40) as usize;
            t.note(|| format!("appended to a prefix of {n} bytes"));
            let prefix = blob(t, n);
            let mut e = Encoder::new_to_vec(prefix.clone());
            write(&mut e, &tree)?;
            let d = e.finish();
            ensure!(d[..n] == prefix[..], "the prefix of {n} bytes was changed");
            check_doc(&d, &tree, None)
        }
        3 => {
            let mut e = Encoder::new();
            let mut sk = SharedKeys::new();
            for _ in 0..t.pick(4) { let k = gen_key(t, &[]); sk.encode_and_insert(&k); }
            e.set_shared_keys(sk);
            t.note(|| "with shared keys".into());
            write(&mut e, &tree)?;
            check_scope(&e.finish_scoped(), &tree)
        }
        4 => {
            let mut e = Encoder::new();
            write(&mut e, &tree)?;
            let v = e.finish_value();
            let got = read(&v)?;
            ensure!(same(&tree, &got), "finish_value reads back differently: {}", diff(&tree, &got));
            let c = v.clone();
            drop(v);
            let got = read(&c)?;
            ensure!(same(&tree, &got), "a clone reads back differently: {}", diff(&tree, &got));
            Ok(())
        }
        5 => {
            // copy the whole document as a value, from a document with or without shared keys
            let mut e = Encoder::new();
            if t.pick(2) == 0 { e.set_shared_keys(SharedKeys::new()); }
            write(&mut e, &tree)?;
            let src = e.finish_scoped();
            let root = src.root().ok_or("no root")?;
            let mut e2 = Encoder::new();
            if t.pick(2) == 0 { e2.set_shared_keys(SharedKeys::new()); }
            t.note(|| "copied with write_fleece, twice".into());
            e2.begin_array(2).map_err(|e| e.to_string())?;
            e2.write_fleece(&root).map_err(|e| format!("write_fleece: {e}"))?;
            e2.write_fleece(&root).map_err(|e| format!("write_fleece: {e}"))?;
            e2.end_array().map_err(|e| e.to_string())?;
            let want = Tree::Arr(vec![tree.clone(), tree]);
            check_scope(&e2.finish_scoped(), &want)
        }
        _ => {
            // left open: finish closes everything
            let mut e = Encoder::new();
            let n = t.pick(4);
            for i in 0..n {
                e.begin_array(1).map_err(|e| e.to_string())?;
                e.write_value(i as i64).map_err(|e| e.to_string())?;
            }
            write(&mut e, &tree)?;
            let mut want = tree;
            for i in (0..n).rev() { want = Tree::Arr(vec![Tree::Int("i64", i as i128), want]); }
            t.note(|| format!("inside {n} arrays that are left open"));
            check_doc(&e.finish(), &want, None)
        }
    }
}

/// a pointer of every kind at exactly the distance where narrow pointers end
fn boundary(t: &mut Tape) -> Res {
    let shape = t.pick(12);
    let len = t.range(16330, 16400) as usize;
    let lead = t.pick(4) as usize;
    let pad = |n: usize| Tree::Data(vec![0x5A; n]);
    let s = |x: &str| Tree::Str(x.to_string());
    let short = |n: usize| -> Vec<Tree> { (0..n).map(|i| Tree::Int("u16", (i % 2000) as i128)).collect() };
    let tree = match shape {
        // the far element is first: its pointer must reach back over the filler
        0 => Tree::Arr(vec![s("far away value"), pad(len), s("near")]),
        1 => { let mut v = short(lead); v.push(s("far away value")); v.push(pad(len)); v.push(Tree::Bool(true)); Tree::Arr(v) }
        2 => Tree::Dict(vec![("k".into(), s("far away value")), ("z".into(), pad(len))]),
        3 => Tree::Dict(vec![("a long key indeed".into(), Tree::Null), ("z".into(), pad(len)), ("another long key".into(), s("xyzzy"))]),
        4 => Tree::Dict(vec![("zz long key indeed".into(), s("value one")), ("y".into(), pad(len)), ("aa another long key".into(), Tree::Int("u64", 1 << 40))]),
        // distance made by many small elements
        5 => { let mut v = vec![s("far away value")]; v.extend(short((len / 2).saturating_sub(t.pick(40) as usize))); Tree::Arr(v) }
        6 => { let mut v = short((len / 2).saturating_sub(t.pick(40) as usize)); v.push(s("near value")); v.insert(0, s("far away value")); Tree::Arr(v) }
        // nested collections as pointer targets
        7 => Tree::Arr(vec![Tree::Arr(vec![s("inner value"), Tree::Null]), pad(len), Tree::Arr(vec![])]),
        8 => Tree::Arr(vec![Tree::Dict(vec![("kk".into(), s("inner value"))]), pad(len), Tree::Dict(vec![("q".into(), Tree::Arr(vec![Tree::Int("i32", -70000)]))])]),
        // the collection itself far from the root pointer
        9 => Tree::Arr(short(len / 2 - t.pick(30) as usize)),
        10 => { let n = len / 8 + 2; Tree::Dict((0..n).map(|i| (format!("{:04}", i), Tree::Int("u16", (i % 2000) as i128))).collect()) }
        _ => { let mut v: Vec<(String, Tree)> = (0..(len / 16)).map(|i| (format!("key{:05}", i), Tree::Bool(i % 2 == 0))).collect(); v.push(("a".into(), s("value"))); v.reverse(); Tree::Dict(v) }
    };
    let pre = if t.pick(2) == 1 { t.pick(3) } else { 0 } as usize;
    t.note(|| format!("shape {shape}, filler {len}, prefix {pre}"));
    t.nontrivial();
    if t.pick(4) == 3 {
        let mut e = Encoder::new();
        e.set_shared_keys(SharedKeys::new());
        write(&mut e, &tree)?;
        return check_scope(&e.finish_scoped(), &tree);
    }
    let mut e = Encoder::new_to_vec(vec![1; pre]);
    write(&mut e, &tree)?;
    check_doc(&e.finish(), &tree, None)
}
fn boundary_fixed(thorough: bool) -> Vec<Vec<u64>> {
    let mut o = vec![];
    for shape in 0..5u64 { for l in 0..71u64 { o.push(vec![shape, l, l % 4, 0, 0]); } }
    for shape in 7..9u64 { for l in 0..71u64 { o.push(vec![shape, l, 0, 0, 0]); } }
    for shape in [5u64, 6, 9] { for d in 0..40u64 { o.push(vec![shape, 60, 0, d, 0, 0]); } }
    for shape in [10u64, 11] { for l in 0..71u64 { if thorough || l % 8 == 0 { o.push(vec![shape, l, 0, 0, 0]); } } }
    o
}
/// element counts where the header changes form, arrays and dicts, both widths
fn counts(t: &mut Tape) -> Res {
    let n = match t.pick(24) { 0 => t.pick(4), 1 => t.range(2044, 2051), 2 => t.range(1020, 1030), 3 => t.range(4090, 4100), 4 => t.range(16380, 16390), 5 => t.range(65530, 65540), 6 => t.range(32760, 32770), 7 => t.pick(150_000), _ => t.pick(5000) } as usize;
    let kind = t.pick(4);
    let wide = t.pick(2) == 1;
    let sk = t.pick(3) == 0;
    t.note(|| format!("{n} entries, kind {kind}, wide {wide}, shared keys {sk}"));
    t.nontrivial();
    let el = |i: usize| match kind { 0 | 2 => Tree::Int("u16", (i % 2048) as i128), _ => if i % 5 == 0 { Tree::Str(format!("value {i}")) } else { Tree::Int("i64", i as i128 - 7) } };
    let mut tree = if kind < 2 { Tree::Arr((0..n).map(el).collect()) } else {
        Tree::Dict((0..n).map(|i| (match i % 3 { 0 => format!("k{i}"), 1 => format!("a long key number {i}"), _ => format!("{i}") }, el(i))).collect())
    };
    if wide { let f = Tree::Data(vec![3; 33000]); match &mut tree { Tree::Arr(v) => { v.insert(0, Tree::Str("far".into())); v.insert(1, f); } Tree::Dict(v) => { v.insert(0, ("far".into(), Tree::Str("far".into()))); v.insert(1, ("f".into(), f)); } _ => {} } }
    let mut e = Encoder::new();
    if sk { e.set_shared_keys(SharedKeys::new()); }
    write(&mut e, &tree)?;
    let s = e.finish_scoped();
    check_scope(&s, &tree)?;
    if t.pick(4) == 3 {
        t.note(|| "copied with write_fleece".into());
        let root = s.root().ok_or("no root")?;
        let mut e = Encoder::new();
        if t.pick(2) == 1 { e.set_shared_keys(SharedKeys::new()); }
        e.write_fleece(&root).map_err(|e| format!("write_fleece: {e}"))?;
        return check_scope(&e.finish_scoped(), &tree);
    }
    Ok(())
}
fn counts_fixed(thorough: bool) -> Vec<Vec<u64>> {
    let mut o = vec![];
    for kind in 0..4u64 { for wide in 0..2u64 { for sk in 0..2u64 {
        for n in 0..4u64 { o.push(vec![0, n, kind, wide, sk]); }
        for n in 0..8u64 { o.push(vec![1, n, kind, wide, sk]); }
        for n in 0..11u64 { if thorough || n % 3 == 0 { o.push(vec![2, n, kind, wide, sk]); } }
        for n in 0..11u64 { if thorough || n % 5 == 0 { o.push(vec![3, n, kind, wide, sk]); } }
        for n in 0..11u64 { if thorough || n == 4 { o.push(vec![4, n, kind, wide, sk]); } }
    } } }
    for kind in 0..4u64 { for wide in 0..2u64 {
        o.push(vec![1, 5, kind, wide, 0, 3, 1]);
        for n in 4..8u64 { if thorough || n == 7 && wide == 0 { o.push(vec![5, n, kind, wide, 0, 3, 0]); } }
        if thorough { o.push(vec![6, 9, kind, wide, 0, 3, 0]); o.push(vec![7, 140_000, kind, wide, 1, 3, 0]); }
    } }
    o
}

// ------------------------------------------------------------------------------------ protocol
enum Frame { Arr(Vec<Tree>), Dict(Vec<(String, Tree)>, Option<String>) }
fn put(stack: &mut [Frame], x: Tree) {
    match stack.last_mut().unwrap() { Frame::Arr(v) => v.push(x), Frame::Dict(v, k) => { let k = k.take().unwrap(); v.push((k, x)); } }
}
fn accepts_value(stack: &[Frame]) -> bool { match stack.last() { None => false, Some(Frame::Arr(_)) => true, Some(Frame::Dict(_, k)) => k.is_some() } }
fn accepts_collection(stack: &[Frame], closed: bool) -> bool { !closed && match stack.last() { None | Some(Frame::Arr(_)) => true, Some(Frame::Dict(_, k)) => k.is_some() } }
/// the call on the encoder under test; if the protocol accepts it, on the undisturbed one too
macro_rules! both { ($w:expr, $e:expr, $f:expr, $m:ident($($a:expr),*)) => {{
    let r = $e.$m($($a),*).is_ok();
    if $w && r { let _ = $f.$m($($a),*); }
    r
}}; }
fn protocol(t: &mut Tape) -> Res {
    let (mut e, mut e2) = (Encoder::new(), Encoder::new());
    let sk = t.pick(4) == 0;
    if sk { e.set_shared_keys(SharedKeys::new()); e2.set_shared_keys(SharedKeys::new()); }
    let mut stack: Vec<Frame> = vec![];
    let mut root: Option<Tree> = None;
    let mut ops = vec![];
    let n = t.range(1, 24);
    let copied = encode(&Tree::Arr(vec![Tree::Int("i8", 1), Tree::Str("two words".into()), Tree::Dict(vec![("in".into(), Tree::Null)])]))?;
    let copied = Value::from_bytes(&copied).map_err(|e| e.to_string())?;
    let mut uniq = 0;
    for _ in 0..n {
        let closed = root.is_some();
        // three times in four an accepted call, so that documents get built
        let mut op = t.pick(10);
        if t.pick(4) != 0 {
            op = match stack.last() {
                None => if op % 2 == 0 { 0 } else { 1 },
                Some(Frame::Arr(_)) => [0, 1, 2, 5, 6, 7, 5, 6, 8, 2][op as usize],
                Some(Frame::Dict(_, Some(_))) => [0, 1, 5, 5, 6, 7, 5, 6, 8, 6][op as usize],
                Some(Frame::Dict(_, None)) => [4, 4, 9, 4, 9, 4, 3, 4, 9, 3][op as usize],
            };
        }
        let (got, want, name): (bool, bool, String) = match op {
            0 => { let w = accepts_collection(&stack, closed); if w { stack.push(Frame::Arr(vec![])); } (both!(w, e, e2, begin_array(t.pick(3) as usize)), w, "begin_array".into()) }
            1 => { let w = accepts_collection(&stack, closed); if w { stack.push(Frame::Dict(vec![], None)); } (both!(w, e, e2, begin_dict()), w, "begin_dict".into()) }
            2 => {
                let w = matches!(stack.last(), Some(Frame::Arr(_)));
                if w { let Some(Frame::Arr(v)) = stack.pop() else { unreachable!() }; if stack.is_empty() { root = Some(Tree::Arr(v)); } else { put(&mut stack, Tree::Arr(v)); } }
                (both!(w, e, e2, end_array()), w, "end_array".into())
            }
            3 => {
                let w = matches!(stack.last(), Some(Frame::Dict(_, None)));
                if w { let Some(Frame::Dict(v, _)) = stack.pop() else { unreachable!() }; if stack.is_empty() { root = Some(Tree::Dict(v)); } else { put(&mut stack, Tree::Dict(v)); } }
                (both!(w, e, e2, end_dict()), w, "end_dict".into())
            }
            4 | 9 => {
                uniq += 1;
                let k = match t.pick(4) { 0 => { let c = (b'a' + (uniq % 26) as u8) as char; c.to_string() } 1 => format!("k{uniq}"), 2 => format!("long key, never shared {uniq}"), _ => format!("ü{uniq}") };
                let dup = matches!(stack.last(), Some(Frame::Dict(v, _)) if v.iter().any(|(x, _)| *x == k));
                if dup { continue; }
                let w = matches!(stack.last(), Some(Frame::Dict(_, None)));
                if w { if let Some(Frame::Dict(_, p)) = stack.last_mut() { *p = Some(k.clone()); } }
                (both!(w, e, e2, write_key(&k)), w, format!("write_key({k:?})"))
            }
            5 | 6 => {
                let x = if op == 5 { t.of(&[0u8, 1, 2, 3]).into() } else { gen_scalar(t, false) };
                let w = accepts_value(&stack);
                if w { put(&mut stack, x.clone()); }
                ({ let r = with_scalar!(&x, v => e.write_value(v).is_ok()); if w && r { with_scalar!(&x, v => { let _ = e2.write_value(v); }); } r }, w, format!("write_value({})", show(&x)))
            }
            7 => {
                let x = Tree::Int("u64", 1 << 33);
                let w = accepts_value(&stack);
                if w { put(&mut stack, x.clone()); }
                let d = encode(&Tree::Arr(vec![x]))?;
                let a = Value::from_bytes(&d).map_err(|e| e.to_string())?.as_array().ok_or("array")?;
                let v = a.get(0).ok_or("element")?;
                (both!(w, e, e2, write_fleece(v)), w, "write_fleece(integer)".into())
            }
            _ => {
                let w = accepts_collection(&stack, closed);
                let x = read(copied)?;
                if w { if stack.is_empty() { root = Some(x); } else { put(&mut stack, x); } }
                (both!(w, e, e2, write_fleece(copied)), w, "write_fleece(array)".into())
            }
        };
        ops.push(format!("{name}{}", if want { "" } else { " (must be rejected)" }));
        t.note(|| ops.last().unwrap().clone());
        ensure!(got == want, "{name} was {}, the protocol {} it", if got { "accepted" } else { "rejected" }, if want { "accepts" } else { "rejects" });
    }
    let mut want = root;
    while let Some(f) = stack.pop() {
        let x = match f { Frame::Arr(v) => Tree::Arr(v), Frame::Dict(v, _) => Tree::Dict(v) };
        if stack.is_empty() { want = Some(x); } else { put(&mut stack, x); }
    }
    let Some(want) = want else { return Ok(()); };
    t.note(|| format!("finish: expected {}", show(&want)));
    if ops.iter().any(|o| o.ends_with("rejected)")) && ops.len() > 3 { t.nontrivial(); }
    let (s, s2) = (e.finish_scoped(), e2.finish_scoped());
    ensure!(s.data().as_deref() == s2.data().as_deref(), "the document differs from the one made by the accepted calls alone");
    if let (Some(a), Some(b)) = (s.shared_keys(), s2.shared_keys()) { ensure!(a.iter().eq(b.iter()), "rejected calls changed the shared keys"); }
    check_scope(&s, &want)
}
/// every short sequence of calls
fn protocol_all(t: &mut Tape) -> Res {
    let mut idx = t.pick(8u64.pow(6));
    let (mut e, mut e2) = (Encoder::new(), Encoder::new());
    let mut stack: Vec<Frame> = vec![];
    let mut root: Option<Tree> = None;
    t.nontrivial();
    for i in 0..6 {
        let op = idx % 8;
        idx /= 8;
        let closed = root.is_some();
        let (got, want, name) = match op {
            0 => { let w = accepts_collection(&stack, closed); if w { stack.push(Frame::Arr(vec![])); } (both!(w, e, e2, begin_array(0)), w, "begin_array") }
            1 => { let w = accepts_collection(&stack, closed); if w { stack.push(Frame::Dict(vec![], None)); } (both!(w, e, e2, begin_dict()), w, "begin_dict") }
            2 => { let w = matches!(stack.last(), Some(Frame::Arr(_)));
                if w { let Some(Frame::Arr(v)) = stack.pop() else { unreachable!() }; if stack.is_empty() { root = Some(Tree::Arr(v)); } else { put(&mut stack, Tree::Arr(v)); } }
                (both!(w, e, e2, end_array()), w, "end_array") }
            3 => { let w = matches!(stack.last(), Some(Frame::Dict(_, None)));
                if w { let Some(Frame::Dict(v, _)) = stack.pop() else { unreachable!() }; if stack.is_empty() { root = Some(Tree::Dict(v)); } else { put(&mut stack, Tree::Dict(v)); } }
                (both!(w, e, e2, end_dict()), w, "end_dict") }
            4 | 5 => { let k = if op == 4 { format!("{i}") } else { format!("a long key {i}") };
                let w = matches!(stack.last(), Some(Frame::Dict(_, None)));
                if w { if let Some(Frame::Dict(_, p)) = stack.last_mut() { *p = Some(k.clone()); } }
                (both!(w, e, e2, write_key(&k)), w, "write_key") }
            6 => { let w = accepts_value(&stack); if w { put(&mut stack, Tree::Int("i64", i)); } (both!(w, e, e2, write_value(i as i64)), w, "write_value(small)") }
            _ => { let w = accepts_value(&stack); if w { put(&mut stack, Tree::Str("some text".into())); } (both!(w, e, e2, write_value("some text")), w, "write_value(large)") }
        };
        t.note(|| format!("{name}{}", if want { "" } else { " (must be rejected)" }));
        ensure!(got == want, "{name} was {}, the protocol {} it", if got { "accepted" } else { "rejected" }, if want { "accepts" } else { "rejects" });
    }
    let mut want = root;
    while let Some(f) = stack.pop() {
        let x = match f { Frame::Arr(v) => Tree::Arr(v), Frame::Dict(v, _) => Tree::Dict(v) };
        if stack.is_empty() { want = Some(x); } else { put(&mut stack, x); }
    }
    let Some(want) = want else { return Ok(()); };
    let (d, d2) = (e.finish(), e2.finish());
    ensure!(d == d2, "the document differs from the one made by the accepted calls alone");
    check_doc(&d, &want, None)
}
fn protocol_all_fixed(_: bool) -> Vec<Vec<u64>> { (0..8u64.pow(6)).map(|i| vec![i]).collect() }

// ------------------------------------------------------------------------------------ C08
/// length, index and iteration of one array and its size hints
pub fn agree(a: &fleece::Array, limit: usize) -> Res {
    let n = a.len();
    ensure!(a.is_empty() == (n == 0), "is_empty() with {n} elements");
    let mut it = a.iter();
    let mut i = 0usize;
    loop {
        let h = it.size_hint();
        ensure!(h == (n - i.min(n), Some(n - i.min(n))), "size_hint {h:?} with {} of {n} left", n - i.min(n));
        let Some(x) = it.next() else { break };
        ensure!(i < n, "iteration yields more than {n} elements");
        let g = a.get(i).ok_or_else(|| format!("get({i}) of {n} elements is None"))?;
        ensure!(std::ptr::addr_eq(g, x), "element {i} of {n}: iteration and indexing find different values");
        ensure!(std::ptr::addr_eq(&a[i], x), "element {i} of {n}: index operator finds another value");
        i += 1;
        if i > limit { return Ok(()); }
    }
    ensure!(i == n, "iteration yields {i} of {n} elements");
    ensure!(it.next().is_none() && it.size_hint() == (0, Some(0)), "iterator continues after its end");
    adaptors(|| a.iter(), |x| x as *const Value as *const u8)?;
    for j in [n, n + 1, n + 2, 2 * n + 2, usize::MAX, usize::MAX / 2 + 1, 1 << 62] {
        if j >= n { ensure!(a.get(j).is_none(), "get({j}) of {n} elements is not None"); }
    }
    Ok(())
}
fn agree_dict(d: &fleece::Dict) -> Res {
    let n = d.len();
    ensure!(d.is_empty() == (n == 0), "is_empty() with {n} entries");
    let mut it = d.iter();
    let mut i = 0;
    loop {
        let h = it.size_hint();
        ensure!(h == (n - i, Some(n - i)), "dict size_hint {h:?} with {} of {n} left", n - i);
        let Some((k, x)) = it.next() else { break };
        ensure!(i < n, "iteration yields more than {n} entries");
        if i == 0 { let f = d.first().ok_or("first() is None")?; ensure!(std::ptr::addr_eq(f.1, x), "first() is another entry"); }
        let _ = k;
        i += 1;
    }
    ensure!(i == n, "iteration yields {i} of {n} entries");
    ensure!(n > 0 || d.first().is_none(), "first() of an empty dict");
    adaptors(|| d.iter(), |x| (x.0.to_string(), x.1 as *const Value as *const u8))?;
    Ok(())
}
fn array_agree(t: &mut Tape) -> Res {
    let n = match t.pick(6) { 0 => t.pick(6), 1 => t.range(2044, 2051), 2 => t.pick(40), 3 => t.range(4090, 4100), 4 => t.range(16382, 16388), _ => t.pick(3000) } as usize;
    let wide = t.pick(2) == 1;
    let dict = t.pick(3) == 0;
    let mix = t.pick(3);
    t.note(|| format!("{n} entries, wide {wide}, dict {dict}, mix {mix}"));
    t.nontrivial();
    let el = |i: usize| match (mix, i % 4) { (0, _) => Tree::Bool(i % 2 == 0), (1, 0) => Tree::Str(format!("element {i}")), (1, _) => Tree::Int("i32", i as i128), (_, 1) => Tree::Arr(vec![Tree::Int("u8", (i % 256) as i128)]), (_, _) => Tree::Data(vec![1; i % 9]) };
    let far = || Tree::Str("far".into());
    let fill = || Tree::Data(vec![3; 33000]);
    if dict {
        let mut v: Vec<(String, Tree)> = vec![];
        if wide { v.push(("far".into(), far())); v.push(("f".into(), fill())); }
        v.extend((0..n).map(|i| (if i % 2 == 0 { format!("k{i}") } else { format!("{i} long key of a dict") }, el(i))));
        let d = encode(&Tree::Dict(v))?;
        let d = Value::from_bytes(&d).map_err(|e| e.to_string())?.as_dict().ok_or("not a dict")?;
        return agree_dict(d);
    }
    let mut v = vec![];
    if wide { v.push(far()); v.push(fill()); }
    v.extend((0..n).map(el));
    let want = v.len();
    let d = encode(&Tree::Arr(v))?;
    let a = Value::from_bytes(&d).map_err(|e| e.to_string())?.as_array().ok_or("not an array")?;
    ensure!(a.len() == want, "length {} instead of {want}", a.len());
    ensure!(a.is_wide() == (a.width() == 4), "is_wide and width disagree");
    agree(a, usize::MAX)?;
    let m = a.to_mutable();
    ensure!(m.len() == want, "mutable copy has {} elements instead of {want}", m.len());
    Ok(())
}
fn array_agree_fixed(_: bool) -> Vec<Vec<u64>> {
    let mut o = vec![];
    for w in 0..2u64 { for d in 0..2u64 { for m in 0..3u64 {
        for n in 0..6 { o.push(vec![0, n, w, d, m]); }
        for n in 0..8 { o.push(vec![1, n, w, d, m]); }
        for n in [0u64, 3, 6] { o.push(vec![4, n, w, d, m]); }
    } } }
    o
}
/// arrays that the encoder would not write: large counts in small headers, wide without need
fn array_made(t: &mut Tape) -> Res {
    let varint = t.pick(3) == 0;
    let n = if varint { match t.pick(4) { 0 => t.pick(6), 1 => t.range(125, 130), 2 => t.range(2045, 2050), _ => t.pick(300) } } else { t.pick(30) } as usize;
    let wide = t.pick(2) == 1;
    let w = if wide { 4 } else { 2 };
    let mut d: Vec<u8> = vec![0x43, b'a', b'b', b'c'];
    let start = d.len();
    if varint || n >= 0x7ff {
        d.push(0x60 | if wide { 8 } else { 0 } | 7); d.push(0xff);
        let mut m = n; loop { let b = (m % 128) as u8; m /= 128; if m == 0 { d.push(b); break; } d.push(b + 128); }
        // overlong forms are valid too
        if t.pick(3) == 0 && n < 128 { let l = d.len() - 1; d[l] += 128; d.push(0); }
        if d.len() % 2 != 0 { d.push(0); }
    } else { d.push(0x60 | if wide { 8 } else { 0 }); d.push(n as u8); }
    for i in 0..n {
        if i % 3 == 1 {
            let off = d.len() / 2;
            if wide { d.extend([0x80, (off >> 16) as u8, (off >> 8) as u8, off as u8]); } else { d.extend([0x80 | (off >> 8) as u8, off as u8]); }
        } else { d.extend([(i >> 8) as u8 & 7, i as u8]); if wide { d.extend([0, 0]); } }
    }
    let off = (d.len() - start) / 2;
    d.extend([0x80 | (off >> 8) as u8, off as u8]);
    t.note(|| format!("{n} elements, width {w}, varint {varint}: {:02x?}", &d[..d.len().min(60)]));
    t.nontrivial();
    let v = Value::from_bytes(&d).map_err(|e| format!("a valid array was rejected: {e}"))?;
    let a = v.as_array().ok_or("not an array")?;
    ensure!(a.len() == n, "length {} instead of {n}", a.len());
    agree(a, usize::MAX)?;
    for i in 0..n {
        let e = &a[i];
        if i % 3 == 1 { ensure!(e.value_type() == ValueType::String && e.to_str() == "abc", "element {i} is {:?}", e.value_type()); }
        else { ensure!(e.to_int() == (i & 0x7ff) as i64, "element {i} reads {}", e.to_int()); }
    }
    Ok(())
}

/// the ready-made values
fn constants(t: &mut Tape) -> Res {
    let b = t.pick(2) == 1;
    let (v, n, u) = (Value::bool(b), Value::null(), Value::undefined());
    ensure!(v.value_type() == if b { ValueType::True } else { ValueType::False } && v.to_bool() == b && v.to_int() == b as i64 && v.len() == 2, "bool({b}) is {v:?}");
    ensure!(n.value_type() == ValueType::Null && n.len() == 2 && n.to_int() == 0 && n.to_str().is_empty(), "null() is {n:?}");
    ensure!(u.value_type() == ValueType::Undefined && u.len() == 2 && u.to_int() == 0 && u.to_data().is_empty(), "undefined() is {u:?}");
    for x in [v, n, u] {
        let mut e = Encoder::new();
        e.begin_array(1).map_err(|e| format!("{e:?}"))?;
        e.write_fleece(x).map_err(|e| format!("{e:?}"))?;
        e.end_array().map_err(|e| format!("{e:?}"))?;
        let d = e.finish();
        let y = fleece::Array::from_bytes(&d).map_err(|e| format!("{e:?}"))?;
        ensure!(y.len() == 1 && y[0].value_type() == x.value_type(), "{x:?} is copied as {y:?}");
    }
    agree(fleece::Array::empty(), 10)?;
    agree(&fleece::alloced::AllocedArray::empty(), 10)?;
    agree_dict(fleece::Dict::empty())?;
    agree_dict(&fleece::alloced::AllocedDict::empty())?;
    ensure!(fleece::Dict::empty().get("a").is_none() && fleece::alloced::AllocedDict::empty().get("").is_none(), "an empty dict finds a key");
    Ok(())
}
fn constants_fixed(_: bool) -> Vec<Vec<u64>> { vec![vec![0], vec![1]] }

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "constants", props: &["C02", "C08"], rule: "the ready-made null, undefined, booleans, empty array and empty dict (complete)", run: constants, fixed: constants_fixed, weight: 0 },
        Family { name: "number", props: &["C02"], rule: "numbers and constants of every width at and around powers of two and type limits, inside arrays and dicts of both element widths", run: number, fixed: number_fixed, weight: 5 },
        Family { name: "all_shorts", props: &["C02"], rule: "every 16-bit integer written as every integer type that can hold it (complete)", run: all_shorts, fixed: all_shorts_fixed, weight: 0 },
        Family { name: "string", props: &["C01", "C03"], rule: "strings and data of every length 0..300 and around 16384, as element, key and value, narrow and wide", run: string, fixed: string_fixed, weight: 5 },
        Family { name: "string_large", props: &["C01", "C03"], rule: "strings and data around 65536 and 2^21 bytes", run: string_large, fixed: string_large_fixed, weight: 0 },
        Family { name: "document", props: &["C04", "C02", "C03"], rule: "random trees of up to 60 collections, written plainly, after a prefix, with shared keys, as an owned value, or copied", run: document, fixed: no_fixed, weight: 6 },
        Family { name: "boundary", props: &["C04"], rule: "12 document shapes with every pointer distance around the narrow limit of 16383 bytes", run: boundary, fixed: boundary_fixed, weight: 2 },
        Family { name: "counts", props: &["C04", "C08", "C09"], rule: "arrays and dicts of element counts around 1024, 2047, 4096, 16384, 32768, 65536 and up to 150000, both widths, with and without shared keys, some copied with write_fleece", run: counts, fixed: counts_fixed, weight: 1 },
        Family { name: "protocol", props: &["C05"], rule: "random call sequences of up to 24 calls, about a quarter of them ones the protocol rejects", run: protocol, fixed: no_fixed, weight: 4 },
        Family { name: "protocol_all", props: &["C05"], rule: "every sequence of 6 calls out of 8 kinds (complete)", run: protocol_all, fixed: protocol_all_fixed, weight: 0 },
        Family { name: "array_agree", props: &["C08"], rule: "encoder-made arrays and dicts of counts around the header boundaries, both widths", run: array_agree, fixed: array_agree_fixed, weight: 2 },
        Family { name: "array_made", props: &["C08"], rule: "hand-made valid arrays: varint counts for small arrays, overlong counts, wide without need, pointers at every third element", run: array_made, fixed: no_fixed, weight: 3 },
    ]
}
