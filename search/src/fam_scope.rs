//! C12: scopes against a list of live registered ranges, owned values against their contents.
use fleece::alloced::{AllocedArray, AllocedDict, AllocedValue};
use fleece::{Array, Dict, Encoder, Scope, SharedKeys, Value};
use fleece_search::tree::*;
use fleece_search::*;
use std::sync::Arc;

struct S { scope: Option<Arc<Scope>>, start: usize, len: usize, tree: Option<Tree>, bytes: Vec<u8>, keys: Option<Arc<SharedKeys>>, registered: bool, hold: Option<Arc<[u8]>> }
enum Own { V(AllocedValue), A(AllocedArray), D(AllocedDict) }
struct O { own: Own, tree: Tree, keys: Option<Arc<SharedKeys>> }

/// the tree found by indexing and by lookup with these shared keys
fn keyed(v: &Value, x: &Tree, k: &SharedKeys) -> Res {
    match x {
        Tree::Arr(xs) => { let a = v.as_array().ok_or("an owned array is no array")?; keyed_arr(a, xs, k) }
        Tree::Dict(xs) => { let d = v.as_dict().ok_or("an owned dict is no dict")?; keyed_dict(d, xs, k) }
        x => { let got = read(v)?; ensure!(same(x, &got), "an owned value reads differently: {}", diff(x, &got)); Ok(()) }
    }
}
fn keyed_arr(a: &Array, xs: &[Tree], k: &SharedKeys) -> Res {
    ensure!(a.len() == xs.len(), "an owned array has {} elements instead of {}", a.len(), xs.len());
    for (i, x) in xs.iter().enumerate() { keyed(a.get(i).ok_or_else(|| format!("element {i} of an owned array is missing"))?, x, k)?; }
    Ok(())
}
fn keyed_dict(d: &Dict, xs: &[(String, Tree)], k: &SharedKeys) -> Res {
    ensure!(d.len() == xs.len(), "an owned dict has {} entries instead of {}", d.len(), xs.len());
    for (key, x) in xs { keyed(d.get_with_shared_keys(key.as_str(), k).ok_or_else(|| format!("key {key:?} of an owned dict is missing"))?, x, k)?; }
    Ok(())
}
fn check_own(o: &O) -> Res {
    let none = SharedKeys::new();
    let k = o.keys.as_deref().unwrap_or(&none);
    match (&o.own, &o.tree) {
        (Own::V(v), x) => { keyed(v, x, k)?; if o.keys.is_none() { let got = read(v)?; ensure!(same(x, &got), "an owned value reads differently: {}", diff(x, &got)); lookups(v, x)?; } Ok(()) }
        (Own::A(a), Tree::Arr(xs)) => keyed_arr(a, xs, k),
        (Own::D(d), Tree::Dict(xs)) => keyed_dict(d, xs, k),
        _ => Err("an owned collection of the wrong kind".into()),
    }
}
fn check(ss: &[S], t: &mut Tape) -> Res {
    for (i, s) in ss.iter().enumerate() {
        if s.len == 0 { continue; }
        let live = s.scope.is_some() && s.registered;
        // while the data is dead its memory may have been given to another scope
        let mut spots = vec![s.start, s.start + s.len - 1, s.start + s.len / 2];
        spots.push(s.start + t.pick(s.len as u64) as usize);
        for p in spots {
            let owner = ss.iter().position(|x| x.scope.is_some() && x.registered && x.start <= p && p < x.start + x.len);
            let f = Scope::containing(p as *const u8);
            match owner {
                Some(j) => {
                    let f = f.ok_or_else(|| format!("no scope is found inside the data of live scope {j}"))?;
                    ensure!(Arc::ptr_eq(&f, ss[j].scope.as_ref().unwrap()), "another scope than {j} is found inside its data");
                    let k = Scope::find_shared_keys(p as *const u8);
                    ensure!(k.is_some() == ss[j].keys.is_some(), "shared keys of scope {j}");
                    if let (Some(a), Some(b)) = (k, &ss[j].keys) { ensure!(Arc::ptr_eq(&a, b), "find_shared_keys finds those of another scope than {j}"); }
                }
                None => {
                    ensure!(f.is_none(), "a scope is found inside the data of scope {i}, which is {}", if live { "live" } else if s.scope.is_some() { "removed" } else { "dropped" });
                    ensure!(Scope::find_shared_keys(p as *const u8).is_none(), "shared keys are found there too");
                }
            }
        }
        for p in [s.start.wrapping_sub(1), s.start + s.len] {
            let owner = ss.iter().any(|x| x.scope.is_some() && x.registered && x.start <= p && p < x.start + x.len);
            if !owner { ensure!(Scope::containing(p as *const u8).is_none(), "a scope is found outside the data of every live scope (next to scope {i})"); }
        }
    }
    for (i, s) in ss.iter().enumerate() {
        let Some(sc) = &s.scope else { continue };
        let d = sc.data().ok_or_else(|| format!("scope {i} lost its data"))?;
        ensure!(&d[..] == &s.bytes[..], "the data of scope {i} changed");
        ensure!(sc.range() == Some(s.start..s.start + s.len), "range of scope {i} is {:?}", sc.range());
        ensure!(sc.root().is_some() == s.tree.is_some(), "root of scope {i}");
        ensure!(sc.shared_keys().is_some() == s.keys.is_some(), "shared keys of scope {i}");
        if let Some(x) = &s.tree {
            let r = sc.root().unwrap();
            if s.registered || s.keys.is_none() { let got = read(&r)?; ensure!(same(x, &got), "scope {i} reads differently: {}", diff(x, &got)); if s.registered { lookups(&r, x)?; } }
        }
    }
    ensure!(Scope::containing(std::ptr::null()).is_none(), "a scope is found at address 0");
    let here = 5u8;
    ensure!(Scope::containing(&here).is_none(), "a scope is found on the stack");
    Ok(())
}
fn histories(t: &mut Tape) -> Res {
    let mut ss: Vec<S> = vec![];
    let mut owned: Vec<O> = vec![];
    let n = t.range(1, 24);
    for _ in 0..n {
        match t.pick(12) {
            0..=3 => {
                let (bytes, tree): (Vec<u8>, Option<Tree>);
                let mut keys = None;
                match t.pick(6) {
                    0 => { bytes = vec![]; tree = None; }
                    1 => { let k = t.range(1, 9) as usize; bytes = vec![0xff; k]; tree = None; }
                    k => {
                        let mut g = Gen { nodes: t.range(1, 5) as usize, big: false };
                        let x = gen_root(t, &mut g);
                        let mut e = Encoder::new();
                        let sk = k > 3;
                        if sk { e.set_shared_keys(SharedKeys::new()); }
                        write(&mut e, &x)?;
                        if sk {
                            let s = e.finish_scoped();
                            let d = s.data().ok_or("no data")?;
                            let keys = s.shared_keys().cloned();
                            t.note(|| format!("finish_scoped: scope {} of {} bytes", ss.len(), d.len()));
                            ss.push(S { start: d.as_ptr() as usize, len: d.len(), tree: Some(x), bytes: d.to_vec(), keys, registered: true, hold: None, scope: Some(s) });
                            check(&ss, t)?;
                            continue;
                        }
                        bytes = e.finish();
                        tree = Some(x);
                    }
                }
                if t.pick(3) == 0 { keys = Some(Arc::new(SharedKeys::new())); }
                let s = Scope::new(bytes.clone(), keys.clone());
                let d = s.data().ok_or("no data")?;
                t.note(|| format!("Scope::new: scope {} of {} bytes", ss.len(), bytes.len()));
                ss.push(S { start: d.as_ptr() as usize, len: d.len(), tree, bytes, keys, registered: true, hold: None, scope: Some(s) });
            }
            4 | 5 if !ss.is_empty() => { let i = t.pick(ss.len() as u64) as usize; if let Some(s) = &ss[i].scope { t.note(|| format!("remove scope {i}")); s.remove(); ss[i].registered = false; } }
            6 | 7 if !ss.is_empty() => { let i = t.pick(ss.len() as u64) as usize; t.note(|| format!("drop scope {i}")); if t.pick(3) == 0 { ss[i].hold = ss[i].scope.as_ref().and_then(|s| s.data()); } ss[i].scope = None; ss[i].registered = false; }
            8 if !ss.is_empty() => { let i = t.pick(ss.len() as u64) as usize; if let Some(s) = &ss[i].scope { if let (Some(r), Some(x)) = (s.root(), ss[i].tree.clone()) {
                t.note(|| format!("own the root of scope {i}"));
                let keys = ss[i].keys.clone();
                let own = match t.pick(2) { 0 => Own::V(r), _ => if let Some(a) = r.clone().to_array() { ensure!(matches!(x, Tree::Arr(_)) && r.to_dict().is_none(), "to_array of a dict"); Own::A(a) } else { let d = r.to_dict().ok_or("neither array nor dict")?; ensure!(matches!(x, Tree::Dict(_)), "to_dict of an array"); Own::D(d) } };
                owned.push(O { own, tree: x, keys });
            } } }
            9 => {
                let mut g = Gen { nodes: t.range(1, 6) as usize, big: false };
                let x = gen_root(t, &mut g);
                let mut b = encode(&x)?;
                t.note(|| "clone_from_bytes".into());
                let own = match t.pick(3) {
                    0 => Own::V(if b.len() % 4 == 0 { unsafe { Value::clone_from_bytes_unchecked(&b) } } else { Value::clone_from_bytes(&b).map_err(|e| e.to_string())? }),
                    1 => { let mut e = Encoder::new(); write(&mut e, &x)?; Own::V(e.finish_value()) }
                    _ => if matches!(x, Tree::Arr(_)) { ensure!(Dict::clone_from_bytes(&b).is_err(), "an array cloned as a dict"); Own::A(Array::clone_from_bytes(&b).map_err(|e| e.to_string())?) } else { ensure!(Array::clone_from_bytes(&b).is_err(), "a dict cloned as an array"); Own::D(Dict::clone_from_bytes(&b).map_err(|e| e.to_string())?) },
                };
                b.fill(0xff);
                drop(b);
                owned.push(O { own, tree: x, keys: None });
            }
            10 if !owned.is_empty() => { let i = t.pick(owned.len() as u64) as usize; t.note(|| format!("clone owned {i}")); let o = &owned[i]; let own = match &o.own { Own::V(v) => Own::V(v.clone()), Own::A(v) => Own::A(v.clone()), Own::D(v) => Own::D(v.clone()) }; let (tree, keys) = (o.tree.clone(), o.keys.clone()); owned.push(O { own, tree, keys }); }
            11 if !owned.is_empty() => { let i = t.pick(owned.len() as u64) as usize; t.note(|| format!("drop owned {i}")); owned.swap_remove(i); }
            _ => {}
        }
        check(&ss, t)?;
        for o in &owned { check_own(o)?; }
    }
    if n > 4 { t.nontrivial(); }
    for s in &mut ss { s.scope = None; s.registered = false; }
    check(&ss, t)?;
    for o in &owned { check_own(o)?; }
    let (a, d) = (AllocedArray::empty(), AllocedDict::empty());
    ensure!(a.is_empty() && d.is_empty() && a.len() == 0 && d.len() == 0 && a.get(0).is_none() && d.get("a").is_none(), "the empty owned collections are not empty");
    Ok(())
}
/// several threads, each with scopes of its own, which look up their own addresses and those of the others
fn threads(t: &mut Tape) -> Res {
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    let n = t.range(2, 6) as usize;
    let rounds = [50usize, 400, 1500][t.pick(3) as usize];
    let spread = [1usize, 3, 40][t.pick(3) as usize];
    let keep = [0usize, 1, 6][t.pick(3) as usize];
    let seed = t.pick(1 << 30);
    t.note(|| format!("{n} threads, {rounds} rounds each, scopes of {spread} different sizes, at most {} per thread", keep + 1));
    t.nontrivial();
    let seen: Vec<AtomicUsize> = (0..n * 4).map(|_| AtomicUsize::new(0)).collect();
    let work = |me: usize| -> Res {
        let mut r = seed.wrapping_mul(0x9E3779B97F4A7C15) + me as u64 + 1;
        let mut rnd = move |k: usize| { r ^= r << 13; r ^= r >> 7; r ^= r << 17; (r >> 11) as usize % k };
        let mut mine: Vec<(Arc<Scope>, usize, usize, bool, bool)> = vec![];
        for round in 0..rounds {
            if mine.len() <= keep {
                let len = 16 + 8 * rnd(spread);
                let keys = (rnd(2) == 0).then(|| Arc::new(SharedKeys::new()));
                let has = keys.is_some();
                let s = Scope::new(vec![0xffu8; len], keys);
                let start = s.data().ok_or("a live scope has no data")?.as_ptr() as usize;
                seen[me * 4 + round % 4].store(start + rnd(len), Relaxed);
                mine.push((s, start, len, true, has));
            }
            for (s, start, len, registered, has) in &mine {
                let p = start + [0, len - 1, rnd(*len)][rnd(3)];
                let f = Scope::containing(p as *const u8);
                if *registered {
                    let f = f.ok_or("with other threads at work, no scope is found inside the data of a live one")?;
                    ensure!(Arc::ptr_eq(&f, s), "with other threads at work, another scope is found inside the data of a live one");
                    ensure!(Scope::find_shared_keys(p as *const u8).is_some() == *has, "with other threads at work, other shared keys are found than the scope's");
                } else { ensure!(f.is_none(), "with other threads at work, a scope is found inside the data of a removed one"); }
            }
            let p = seen[rnd(n * 4)].load(Relaxed);
            if p != 0 {
                if let Some(f) = Scope::containing(p as *const u8) {
                    let d = f.range().ok_or("a scope that was found has no data")?;
                    ensure!(d.contains(&p), "with other threads at work, the scope found at an address does not contain it");
                }
                let _ = Scope::find_shared_keys(p as *const u8);
            }
            let i = rnd(mine.len());
            match rnd(6) { 0 => { mine[i].0.remove(); mine[i].3 = false; } 1..=3 => { mine.swap_remove(i); } _ => {} }
        }
        Ok(())
    };
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|i| { let w = &work; s.spawn(move || w(i)) }).collect();
        let mut res = Ok(());
        for h in hs { match h.join() { Ok(Ok(())) => {} Ok(e) => res = e, Err(_) => res = Err("a thread panicked".into()) } }
        res
    })
}
fn threads_fixed(_: bool) -> Vec<Vec<u64>> { (0..81).map(|i| vec![i % 4, 1 + (i & 1), i / 4 % 3, i / 12 % 3, i * 77]).collect() }

type Job = Box<dyn FnOnce() -> Res + Send>;
/// run a job on the given one of eight threads, and wait for it
fn on(thread: usize, job: Job) -> Res {
    use std::sync::mpsc::*;
    static POOL: std::sync::OnceLock<Vec<std::sync::Mutex<(Sender<Job>, Receiver<Res>)>>> = std::sync::OnceLock::new();
    let pool = POOL.get_or_init(|| (0..8).map(|_| {
        let (tx, jobs) = channel::<Job>();
        let (done, rx) = channel();
        std::thread::spawn(move || for j in jobs {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)).unwrap_or_else(|_| Err("panicked".into()));
            if done.send(r).is_err() { break; }
        });
        std::sync::Mutex::new((tx, rx))
    }).collect());
    let p = pool[thread].lock().unwrap_or_else(|e| e.into_inner());
    p.0.send(job).map_err(|_| "a thread is gone")?;
    p.1.recv().map_err(|_| "a thread is gone")?
}
/// one history whose steps run on different threads, one after another
fn handoff(t: &mut Tape) -> Res {
    struct S { scope: Arc<Scope>, start: usize, len: usize, keys: bool, registered: bool }
    let all: Arc<std::sync::Mutex<Vec<S>>> = Arc::default();
    let mut live = 0;
    let steps = t.range(2, 12);
    for _ in 0..steps {
        let (th, op, which, n, keys) = (t.pick(8) as usize, if live == 0 { 0 } else { t.pick(6) }, t.pick(live.max(1)) as usize, t.range(1, 40), t.pick(2) == 1);
        t.note(|| format!("thread {th}: {}", ["create", "create", "look up", "look up", "remove", "drop"][op as usize]));
        let a = all.clone();
        match op { 0 | 1 => live += 1, 5 => live -= 1, _ => {} }
        on(th, Box::new(move || {
            let mut a = a.lock().unwrap();
            match op {
                0 | 1 => {
                    let mut e = Encoder::new();
                    if keys { e.set_shared_keys(SharedKeys::new()); }
                    e.begin_array(1).map_err(|e| format!("{e:?}"))?;
                    e.write_value("x".repeat(n as usize * 5).as_str()).map_err(|e| format!("{e:?}"))?;
                    e.end_array().map_err(|e| format!("{e:?}"))?;
                    let scope = e.finish_scoped();
                    let r = scope.range().ok_or("a live scope has no data")?;
                    a.push(S { scope, start: r.start, len: r.len(), keys, registered: true });
                }
                4 => { a[which].scope.remove(); a[which].registered = false; }
                5 => { a.swap_remove(which); }
                _ => {}
            }
            Ok(())
        }))?;
        t.nontrivial();
        // every thread sees the same
        for th in [th, t.pick(8) as usize, t.pick(8) as usize] {
            let a = all.clone();
            on(th, Box::new(move || {
                for s in a.lock().unwrap().iter() {
                    for p in [s.start, s.start + s.len / 2, s.start + s.len - 1] {
                        let f = Scope::containing(p as *const u8);
                        ensure!(f.is_some() || !s.registered, "thread {th} finds no scope inside the data of a live one");
                        if let Some(f) = f {
                            ensure!(s.registered, "thread {th} finds a scope inside the data of a removed one");
                            ensure!(Arc::ptr_eq(&f, &s.scope), "thread {th} finds another scope inside the data of a live one");
                            ensure!(Scope::find_shared_keys(p as *const u8).is_some() == s.keys, "thread {th} finds other shared keys than the scope's");
                        }
                    }
                }
                Ok(())
            })).map_err(|e| e.to_string())?;
        }
    }
    Ok(())
}
pub fn families() -> Vec<Family> {
    vec![Family { name: "scope_histories", props: &["C12"], rule: "up to 24 creations, removals, drops, lookups and clones of scopes (also of empty and invalid data) and owned values", run: histories, fixed: no_fixed, weight: 6 },
        Family { name: "scope_threads", props: &["C12"], rule: "2 to 5 threads which create, look up, remove and drop scopes of their own, and look up the addresses of the others' (the schedule is the system's: not exhaustive)", run: threads, fixed: threads_fixed, weight: 1 },
        Family { name: "scope_handoff", props: &["C12"], rule: "up to 12 creations, removals and drops of scopes, each step on one of 8 threads, with lookups on three of them after every step", run: handoff, fixed: no_fixed, weight: 3 }]
}
