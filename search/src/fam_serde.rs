//! C15: values of derived types through to_bytes / from_bytes.
use fleece_search::tree::{gen_len, text};
use fleece_search::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

trait Any: Sized { fn any(t: &mut Tape, depth: u32) -> Self; }
macro_rules! ints { ($($x:ty),*) => { $(impl Any for $x { fn any(t: &mut Tape, _: u32) -> Self {
    match t.pick(5) { 0 => <$x>::MIN, 1 => <$x>::MAX, 2 => t.pick(100) as $x, 3 => { let k = t.pick(<$x>::BITS as u64); (t.raw() as $x) >> k } _ => { let k = t.pick(<$x>::BITS as u64); ((1 as $x) << k).wrapping_add(t.pick(3) as $x).wrapping_sub(1) } }
} })* } }
ints!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
#[derive(Serialize, Deserialize, Debug, Clone)] struct F4(f32);
#[derive(Serialize, Deserialize, Debug, Clone)] struct F8(f64);
impl PartialEq for F4 { fn eq(&self, o: &F4) -> bool { self.0.to_bits() == o.0.to_bits() || self.0.is_nan() && o.0.is_nan() } }
impl PartialEq for F8 { fn eq(&self, o: &F8) -> bool { self.0.to_bits() == o.0.to_bits() || self.0.is_nan() && o.0.is_nan() } }
impl Any for F4 { fn any(t: &mut Tape, d: u32) -> Self { F4(f32::any(t, d)) } }
impl Any for F8 { fn any(t: &mut Tape, d: u32) -> Self { F8(f64::any(t, d)) } }
impl Any for f32 { fn any(t: &mut Tape, _: u32) -> Self { match t.pick(4) { 0 => t.of(&[0.0, -0.0, 1.5, -2.25, f32::INFINITY, f32::MIN, f32::MIN_POSITIVE]), 1 => t.pick(5000) as f32 - 2500.0, _ => { let x = f32::from_bits(t.raw() as u32); if x.is_nan() { 0.5 } else { x } } } } }
impl Any for f64 { fn any(t: &mut Tape, _: u32) -> Self { match t.pick(4) { 0 => t.of(&[0.0, -0.0, 1.5, -2.25, f64::NEG_INFINITY, f64::MAX, 0.1, 1e300]), 1 => t.pick(5000) as f64 - 2500.0, _ => { let x = f64::from_bits(t.raw()); if x.is_nan() { 0.5 } else { x } } } } }
impl Any for bool { fn any(t: &mut Tape, _: u32) -> Self { t.pick(2) == 1 } }
impl Any for char { fn any(t: &mut Tape, _: u32) -> Self { t.of(&['a', '\0', 'é', '日', '😀', '\u{7f}', '\u{10ffff}', '~']) } }
impl Any for () { fn any(_: &mut Tape, _: u32) -> Self {} }
impl Any for String { fn any(t: &mut Tape, _: u32) -> Self { let n = if t.pick(60) == 0 { 17_000 } else { gen_len(t, false) }; text(t, n) } }
impl<T: Any> Any for Box<T> { fn any(t: &mut Tape, d: u32) -> Self { Box::new(T::any(t, d)) } }
impl<T: Any> Any for Option<T> { fn any(t: &mut Tape, d: u32) -> Self { if t.pick(3) == 0 { None } else { Some(T::any(t, d)) } } }
impl<T: Any> Any for Vec<T> { fn any(t: &mut Tape, d: u32) -> Self { let n = if d == 0 { t.pick(2) } else { t.pick(5) }; (0..n).map(|_| T::any(t, d.saturating_sub(1))).collect() } }
impl<T: Any, const N: usize> Any for [T; N] { fn any(t: &mut Tape, d: u32) -> Self { std::array::from_fn(|_| T::any(t, d)) } }
impl<A: Any, B: Any> Any for (A, B) { fn any(t: &mut Tape, d: u32) -> Self { (A::any(t, d), B::any(t, d)) } }
impl<A: Any> Any for (A,) { fn any(t: &mut Tape, d: u32) -> Self { (A::any(t, d),) } }
impl<A: Any, B: Any, C: Any> Any for (A, B, C) { fn any(t: &mut Tape, d: u32) -> Self { (A::any(t, d), B::any(t, d), C::any(t, d)) } }
fn key(t: &mut Tape) -> String { let n = match t.pick(5) { 0 => 0, 1 => 1, 2 => t.range(14, 18), _ => t.pick(9) } as usize; match t.pick(3) { 0 => text(t, n), _ => (0..n).map(|_| (b'a' + t.pick(5) as u8) as char).collect() } }
impl<V: Any> Any for BTreeMap<String, V> { fn any(t: &mut Tape, d: u32) -> Self { let n = if d == 0 { t.pick(2) } else { t.pick(6) }; (0..n).map(|_| (key(t), V::any(t, d.saturating_sub(1)))).collect() } }
impl<V: Any> Any for HashMap<String, V> { fn any(t: &mut Tape, d: u32) -> Self { let n = t.pick(4); (0..n).map(|_| (key(t), V::any(t, d.saturating_sub(1)))).collect() } }
impl<V: Any> Any for BTreeMap<char, V> { fn any(t: &mut Tape, d: u32) -> Self { let n = t.pick(4); (0..n).map(|_| (char::any(t, d), V::any(t, d.saturating_sub(1)))).collect() } }

/// serialized with serialize_bytes
#[derive(Debug, Clone, PartialEq)] struct Bytes(Vec<u8>);
impl Serialize for Bytes { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
struct BV;
impl<'de> serde::de::Visitor<'de> for BV { type Value = Bytes;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("bytes") }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Bytes, E> { Ok(Bytes(v.to_vec())) }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Bytes, E> { Ok(Bytes(v)) } }
impl<'de> Deserialize<'de> for Bytes { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { d.deserialize_byte_buf(BV) } }
impl Any for Bytes { fn any(t: &mut Tape, _: u32) -> Self { let n = gen_len(t, false); Bytes((0..n).map(|i| (i * 37) as u8).collect()) } }

macro_rules! record { ($n:ident { $($f:ident : $t:ty),* $(,)? }) => {
    #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)] struct $n { $($f: $t),* }
    impl Any for $n { fn any(t: &mut Tape, d: u32) -> Self { let _ = (&t, d); $n { $($f: <$t>::any(t, d.saturating_sub(1))),* } } }
} }
macro_rules! tuple { ($n:ident ( $($t:ty),* )) => {
    #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)] struct $n($($t),*);
    impl Any for $n { fn any(t: &mut Tape, d: u32) -> Self { let _ = (&t, d); $n($(<$t>::any(t, d.saturating_sub(1))),*) } }
} }
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)] struct Unit;
impl Any for Unit { fn any(_: &mut Tape, _: u32) -> Self { Unit } }
record!(Empty {});
tuple!(EmptyTuple());
tuple!(Newtype(String));
tuple!(NewInt(i64));
tuple!(NewVec(Vec<u16>));
tuple!(Pair(i32, String));
tuple!(Triple(Option<i64>, Pair, Newtype));
record!(Ints { a: i8, b: i16, c: i32, d: i64, e: isize, f: u8, g: u16, h: u32, i: u64, j: usize, a_field_with_a_long_name: i64 });
record!(Floats { single: F4, double: F8, plain4: f32, plain8: f64 });
record!(Misc { flag: bool, letter: char, text: String, nothing: (), unit: Unit, bytes: Bytes, opt: Option<String>, opt_num: Option<u64>, list: Vec<String>, arr: [i16; 3], tup: (i64, String, bool), one: (u8,), map: BTreeMap<String, i64>, hash: HashMap<String, Vec<u32>>, chars: BTreeMap<char, bool> });
record!(Deep { opts: Vec<Option<i32>>, pairs: Vec<(String, F8)>, newtypes: Vec<Newtype>, en: Vec<Shape>, nested: BTreeMap<String, BTreeMap<String, Option<Shape>>>, units: Vec<()>, unit_structs: Vec<Unit>, empties: (Empty, EmptyTuple), opt_vec: Option<Vec<NewVec>>, opt_pair: Option<Pair>, boxed: Option<Box<Shape>>, by: Vec<Bytes> });
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Shape { Unit, Other, New(String), NewNum(u64), NewOpt(Option<i32>), NewUnit(()), NewVec(Vec<i8>), NewRec(Ints), NewEnum(Box<Shape>), Zero(), Two(i64, String), Three(bool, Option<u8>, Vec<Shape>), NoFields {}, Rec { x: i32, y: Option<String> }, Long { a_rather_long_field_name: F8, s: Vec<Shape>, m: BTreeMap<String, u8> } }
impl Any for Shape { fn any(t: &mut Tape, d: u32) -> Self {
    let e = d.saturating_sub(1);
    match t.pick(if d == 0 { 9 } else { 15 }) {
        0 => Shape::Unit, 1 => Shape::New(String::any(t, e)), 2 => Shape::NewNum(u64::any(t, e)), 3 => Shape::NewOpt(Any::any(t, e)), 4 => Shape::NewUnit(()), 5 => Shape::Zero(), 6 => Shape::Two(Any::any(t, e), Any::any(t, e)), 7 => Shape::NoFields {}, 8 => Shape::Rec { x: Any::any(t, e), y: Any::any(t, e) },
        9 => Shape::Other, 10 => Shape::NewVec(Any::any(t, e)), 11 => Shape::NewRec(Any::any(t, e)), 12 => Shape::NewEnum(Any::any(t, e)), 13 => Shape::Three(Any::any(t, e), Any::any(t, e), Any::any(t, e)), _ => Shape::Long { a_rather_long_field_name: Any::any(t, e), s: Any::any(t, e), m: Any::any(t, e) },
    }
} }
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Generic<T> { before: String, value: T, after: Vec<T> }
impl<T: Any> Any for Generic<T> { fn any(t: &mut Tape, d: u32) -> Self { Generic { before: String::any(t, d), value: T::any(t, d.saturating_sub(1)), after: Vec::any(t, d.saturating_sub(1)) } } }

fn trip<T: Any + Serialize + DeserializeOwned + PartialEq + Debug>(t: &mut Tape) -> Res {
    let x = T::any(t, 3);
    let name = std::any::type_name::<T>();
    t.note(|| { let s = format!("{x:?}"); format!("{name}: {}", s.chars().take(1200).collect::<String>()) });
    t.nontrivial();
    let b = fleece::to_bytes(&x).map_err(|e| format!("to_bytes: {e}"))?;
    let y: T = fleece::from_bytes(&b).map_err(|e| format!("from_bytes: {e}"))?;
    ensure!(x == y, "comes back as {}", format!("{y:?}").chars().take(1200).collect::<String>());
    let s = fleece::to_bytes_with_shared_keys(&x).map_err(|e| format!("to_bytes_with_shared_keys: {e}"))?;
    let data = s.data().ok_or("no data")?;
    let y: T = fleece::from_bytes(&data).map_err(|e| format!("from_bytes with shared keys: {e}"))?;
    ensure!(x == y, "with shared keys it comes back as {}", format!("{y:?}").chars().take(1200).collect::<String>());
    Ok(())
}
type T0 = fn(&mut Tape) -> Res;
const TRIPS: &[T0] = &[
    trip::<Ints>, trip::<Floats>, trip::<Misc>, trip::<Deep>, trip::<Shape>, trip::<Vec<Shape>>, trip::<Empty>, trip::<EmptyTuple>, trip::<Pair>, trip::<Triple>,
    trip::<NewVec>, trip::<Vec<i64>>, trip::<Vec<u64>>, trip::<Vec<F8>>, trip::<Vec<F4>>, trip::<Vec<String>>, trip::<Vec<Vec<Option<String>>>>, trip::<(i32, String)>, trip::<(Unit, (), bool)>,
    trip::<BTreeMap<String, i64>>, trip::<HashMap<String, Shape>>, trip::<BTreeMap<char, String>>, trip::<BTreeMap<String, Option<Pair>>>, trip::<Vec<(char, Bytes)>>, trip::<[u32; 5]>, trip::<(Option<Vec<i32>>,)>,
    trip::<Generic<Shape>>, trip::<Generic<Option<Newtype>>>, trip::<Generic<(Unit, Bytes)>>, trip::<Generic<F8>>, trip::<Generic<BTreeMap<String, Ints>>>, trip::<Vec<Unit>>, trip::<Vec<()>>, trip::<Box<Deep>>, trip::<Generic<char>>, trip::<Generic<Vec<Empty>>>, trip::<Vec<NewInt>>,
];
fn some<T: Any + Serialize + DeserializeOwned + PartialEq + Debug>(_: &mut Tape) -> Res { Ok(()) }
fn round_trip(t: &mut Tape) -> Res { let _ = some::<Ints>; let f = TRIPS[t.pick(TRIPS.len() as u64) as usize]; f(t) }
fn trip_fixed(_: bool) -> Vec<Vec<u64>> { (0..TRIPS.len() as u64).map(|i| vec![i]).collect() }
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug)]
enum Nest { Leaf(i64), Many(Vec<Nest>), Pair(u8, Box<Nest>), Named { inner: Option<Box<Nest>>, name: String }, Map(BTreeMap<String, Nest>) }
/// sequences and maps of every size across the count prefix and width boundaries
fn sizes(t: &mut Tape) -> Res {
    let n = match t.pick(3) { 0 => t.pick(30), 1 => t.of(&[2045u64, 2046, 2047, 2048, 5000, 16384, 65535, 65536]), _ => t.pick(3000) } as usize;
    let w = t.pick(12) as usize;
    t.note(|| format!("{n} entries, strings of {w} bytes"));
    t.nontrivial();
    let v: Vec<String> = (0..n).map(|i| format!("{i:0w$}")).collect();
    let m: BTreeMap<String, u32> = v.iter().enumerate().map(|(i, k)| (k.clone(), i as u32 * 1001)).collect();
    let b = fleece::to_bytes(&v).map_err(|e| e.to_string())?;
    ensure!(fleece::from_bytes::<Vec<String>>(&b).map_err(|e| e.to_string())? == v, "a vector comes back differently");
    let b = fleece::to_bytes(&m).map_err(|e| e.to_string())?;
    ensure!(fleece::from_bytes::<BTreeMap<String, u32>>(&b).map_err(|e| e.to_string())? == m, "a map comes back differently");
    let deep = { let mut x = Nest::Leaf(n as i64); for i in 0..n.min(60) { x = match i % 4 { 0 => Nest::Many(vec![x]), 1 => Nest::Pair(i as u8, Box::new(x)), 2 => Nest::Named { inner: Some(Box::new(x)), name: v[i].clone() }, _ => Nest::Map(BTreeMap::from([(v[i].clone(), x)])) } } x };
    let deep = Nest::Many(vec![deep]);
    let b = fleece::to_bytes(&deep).map_err(|e| e.to_string())?;
    ensure!(fleece::from_bytes::<Nest>(&b).map_err(|e| e.to_string())? == deep, "a deeply nested enum comes back differently");
    let s = fleece::to_bytes_with_shared_keys(&m).map_err(|e| e.to_string())?;
    let d = s.data().ok_or("no data")?;
    ensure!(fleece::from_bytes::<BTreeMap<String, u32>>(&d).map_err(|e| e.to_string())? == m, "a map with shared keys comes back differently");
    Ok(())
}
fn sizes_fixed(_: bool) -> Vec<Vec<u64>> { vec![vec![1, 2, 0], vec![1, 3, 3], vec![1, 7, 1]] }
pub fn families() -> Vec<Family> {
    vec![
        Family { name: "round_trip", props: &["C15"], rule: "values of 37 types covering every shape in the grammar, with and without shared keys", run: round_trip, fixed: trip_fixed, weight: 10 },
        Family { name: "serde_sizes", props: &["C15"], rule: "sequences and maps of up to 65536 entries", run: sizes, fixed: sizes_fixed, weight: 1 },
    ]
}
