//! C22, C23: how data becomes a value.

use super::scale::near;
use crate::check::{Ctx, Prop};
use crate::gen;
use crate::model::eval::Kind;
use crate::obs::{self, guard, res, Boom, Res};
use crate::rng::Rng;
use crate::val::{dump, map, s, same, Map, Value};
use serde::ser::{Error as _, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------------------
// C22
// ---------------------------------------------------------------------------

/// Everything the serde data model can express.
#[derive(Debug, Clone)]
pub enum Data {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// Through `collect_str`.
    Shown(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Data>),
    Unit,
    UnitStruct,
    UnitVariant(&'static str),
    NewtypeStruct(Box<Data>),
    NewtypeVariant(&'static str, Box<Data>),
    Seq(bool, Vec<Data>),
    Tuple(Vec<Data>),
    TupleStruct(Vec<Data>),
    TupleVariant(&'static str, Vec<Data>),
    /// Whether entries are given as key and value separately.
    Map(bool, Vec<(Data, Data)>),
    Struct(Vec<(&'static str, Option<Data>)>),
    StructVariant(&'static str, Vec<(&'static str, Option<Data>)>),
    Fail(String),
}

impl serde::Serialize for Data {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match self {
            Data::Bool(x) => z.serialize_bool(*x),
            Data::I8(x) => z.serialize_i8(*x),
            Data::I16(x) => z.serialize_i16(*x),
            Data::I32(x) => z.serialize_i32(*x),
            Data::I64(x) => z.serialize_i64(*x),
            Data::I128(x) => z.serialize_i128(*x),
            Data::U8(x) => z.serialize_u8(*x),
            Data::U16(x) => z.serialize_u16(*x),
            Data::U32(x) => z.serialize_u32(*x),
            Data::U64(x) => z.serialize_u64(*x),
            Data::U128(x) => z.serialize_u128(*x),
            Data::F32(x) => z.serialize_f32(*x),
            Data::F64(x) => z.serialize_f64(*x),
            Data::Char(x) => z.serialize_char(*x),
            Data::Str(x) => z.serialize_str(x),
            Data::Shown(x) => z.collect_str(&format_args!("{x}")),
            Data::Bytes(x) => z.serialize_bytes(x),
            Data::None => z.serialize_none(),
            Data::Some(x) => z.serialize_some(&**x),
            Data::Unit => z.serialize_unit(),
            Data::UnitStruct => z.serialize_unit_struct(type_name(3)),
            Data::UnitVariant(n) => z.serialize_unit_variant(type_name(0), variant_index(3), n),
            Data::NewtypeStruct(x) => z.serialize_newtype_struct(type_name(2), &**x),
            Data::NewtypeVariant(n, x) => z.serialize_newtype_variant(type_name(0), variant_index(1), n, &**x),
            Data::Seq(hint, l) => {
                let mut q = z.serialize_seq(hint.then_some(l.len()))?;
                for x in l {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Data::Tuple(l) => {
                let mut q = z.serialize_tuple(l.len())?;
                for x in l {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Data::TupleStruct(l) => {
                let mut q = z.serialize_tuple_struct(type_name(4), l.len())?;
                for x in l {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Data::TupleVariant(n, l) => {
                let mut q = z.serialize_tuple_variant(type_name(0), variant_index(2), n, l.len())?;
                for x in l {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Data::Map(split, m) => {
                let mut q = z.serialize_map(if *split { None } else { Some(m.len()) })?;
                for (k, x) in m {
                    if *split {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?;
                    } else {
                        q.serialize_entry(k, x)?;
                    }
                }
                q.end()
            }
            Data::Struct(m) => {
                let mut q = z.serialize_struct(type_name(1), m.iter().filter(|x| x.1.is_some()).count())?;
                for (k, x) in m {
                    match x {
                        Some(x) => q.serialize_field(k, x)?,
                        None => q.skip_field(k)?,
                    }
                }
                q.end()
            }
            Data::StructVariant(n, m) => {
                let mut q = z.serialize_struct_variant(type_name(0), variant_index(0), n, m.iter().filter(|x| x.1.is_some()).count())?;
                for (k, x) in m {
                    match x {
                        Some(x) => q.serialize_field(k, x)?,
                        None => q.skip_field(k)?,
                    }
                }
                q.end()
            }
            Data::Fail(m) => Err(S::Error::custom(m)),
        }
    }
}

#[derive(Debug, PartialEq)]
enum Bad {
    /// The serializer's own message.
    Custom(String),
    TooLarge,
    Key,
    /// 128-bit integers that would fit: unspecified, an error or the exact value.
    Wide,
}

fn expect(d: &Data) -> Result<Value, Bad> {
    let list = |l: &[Data]| l.iter().map(expect).collect::<Result<Vec<_>, _>>().map(Value::List);
    let fields = |m: &[(&'static str, Option<Data>)]| -> Result<Value, Bad> {
        let mut out = Map::new();
        for (k, x) in m {
            if let Some(x) = x {
                out.insert(k.to_string(), expect(x)?);
            }
        }
        Ok(Value::Map(out))
    };
    let int = |i: i128| i64::try_from(i).map(Value::Integer).map_err(|_| Bad::TooLarge);
    let one = |n: &str, v: Value| map([(n, v)]);
    Ok(match d {
        Data::Bool(x) => Value::Bool(*x),
        Data::I8(x) => int(*x as i128)?,
        Data::I16(x) => int(*x as i128)?,
        Data::I32(x) => int(*x as i128)?,
        Data::I64(x) => int(*x as i128)?,
        Data::U8(x) => int(*x as i128)?,
        Data::U16(x) => int(*x as i128)?,
        Data::U32(x) => int(*x as i128)?,
        Data::U64(x) => int(*x as i128)?,
        Data::I128(x) => return Err(if i64::try_from(*x).is_ok() { Bad::Wide } else { Bad::TooLarge }),
        Data::U128(x) => return Err(if i64::try_from(*x).is_ok() { Bad::Wide } else { Bad::TooLarge }),
        Data::F32(x) => Value::Float(*x as f64),
        Data::F64(x) => Value::Float(*x),
        Data::Char(c) => s(c.to_string()),
        Data::Str(x) | Data::Shown(x) => s(x.as_str()),
        Data::Bytes(b) => Value::List(b.iter().map(|b| Value::Integer(*b as i64)).collect()),
        Data::None | Data::Unit | Data::UnitStruct => Value::None,
        Data::Some(x) | Data::NewtypeStruct(x) => expect(x)?,
        Data::UnitVariant(n) => s(*n),
        Data::NewtypeVariant(n, x) => one(n, expect(x)?),
        Data::Seq(_, l) | Data::Tuple(l) | Data::TupleStruct(l) => list(l)?,
        Data::TupleVariant(n, l) => one(n, list(l)?),
        Data::Map(_, m) => {
            let mut out = Map::new();
            for (k, x) in m {
                let k = key(k)?;
                out.insert(k, expect(x)?);
            }
            Value::Map(out)
        }
        Data::Struct(m) => fields(m)?,
        Data::StructVariant(n, m) => one(n, fields(m)?),
        Data::Fail(m) => return Err(Bad::Custom(m.clone())),
    })
}

fn key(d: &Data) -> Result<String, Bad> {
    Ok(match d {
        Data::Str(x) | Data::Shown(x) => x.clone(),
        Data::Char(c) => c.to_string(),
        Data::I8(x) => x.to_string(),
        Data::I16(x) => x.to_string(),
        Data::I32(x) => x.to_string(),
        Data::I64(x) => x.to_string(),
        Data::U8(x) => x.to_string(),
        Data::U16(x) => x.to_string(),
        Data::U32(x) => x.to_string(),
        Data::U64(x) => x.to_string(),
        Data::I128(_) | Data::U128(_) => return Err(Bad::Wide),
        Data::UnitVariant(n) => n.to_string(),
        Data::NewtypeStruct(x) => key(x)?,
        Data::Fail(m) => return Err(Bad::Custom(m.clone())),
        _ => return Err(Bad::Key),
    })
}

const STATICS: &[&str] = &["", "a", "Name", "name", "été", "0", "with space", "r#type", "\u{1F600}", "a.b", "zz"];

/// Names that some data formats treat in their own way.
const WELL_KNOWN: &[&str] = &[
    "None", "Some", "Ok", "Err", "Null", "null", "nil", "none", "true", "false", "True", "NaN", "Infinity", "undefined", "Default", "Unknown", "Other", "Self", "type", "len",
    "value", "index", "first", "last", "loop", "String", "Value", "List", "Map", "Integer", "Bool", "Float", "Option", "Result", "Range", "Duration", "SystemTime", "start", "end",
    "secs", "nanos", "$serde_json::private::Number", "$__toml_private_datetime", "__Spanned", "Wrapping", "Reverse", "Bound", "Unbounded", "Included", "V4", "V6", "_",
];

fn static_name(r: &mut Rng) -> &'static str {
    match r.below(8) {
        0 | 1 => r.pick(WELL_KNOWN),
        2 => super::registry::intern(crate::dict::word(r)),
        _ => r.pick(STATICS),
    }
}

thread_local! {
    static SALT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// The name of a type, and the number of a variant: neither shows in the value.
fn type_name(i: usize) -> &'static str {
    let n = SALT.get();
    match n % 4 {
        0 => ["Enum", "Struct", "New", "Unit", "TupleStruct"][i],
        1 => STATICS[(n / 4 + i) % STATICS.len()],
        _ => WELL_KNOWN[(n / 4 + i * 7) % WELL_KNOWN.len()],
    }
}

fn variant_index(i: u32) -> u32 {
    match SALT.get() % 5 {
        0 => 0,
        1 => u32::MAX - i,
        2 => SALT.get() as u32,
        _ => i,
    }
}

fn leaf(r: &mut Rng, bad: usize) -> Data {
    let i = gen::int(r);
    let u = r.u64();
    if r.pct(bad) {
        return match r.below(6) {
            0 => Data::U64(*r.pick(&[1 << 63, u64::MAX, (1 << 63) + 1, u | 1 << 63])),
            1 => Data::I128((i as i128).wrapping_mul(*r.pick(&[1, 1 << 40, -(1 << 70)]))),
            2 => Data::U128((u as u128).wrapping_mul(*r.pick(&[1, 2, 1 << 64]))),
            _ => Data::Fail(gen::string(r)),
        };
    }
    match r.below(21) {
        0 => Data::Bool(r.bool()),
        1 => Data::I8(i as i8),
        2 => Data::I16(i as i16),
        3 => Data::I32(i as i32),
        4 => Data::I64(i),
        5 => Data::U8(i as u8),
        6 => Data::U16(i as u16),
        7 => Data::U32(i as u32),
        8 => Data::U64(*r.pick(&[u >> 1, i as u64 >> 1, i64::MAX as u64, 0, u32::MAX as u64 + 1])),
        9 => Data::F32(*r.pick(&[0.0, -0.0, 0.1, 1.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NAN, 1e-45, 16777217.0, f32::from_bits(u as u32)])),
        10 | 11 => Data::F64(gen::float(r)),
        12 => Data::Char(gen::any_char(r)),
        13 | 14 => Data::Str(gen::string(r)),
        15 => Data::Shown(gen::string(r)),
        16 => Data::Bytes((0..r.below(6)).map(|_| r.u64() as u8).collect()),
        17 => Data::None,
        18 => Data::Unit,
        19 => Data::UnitStruct,
        _ => Data::UnitVariant(static_name(r)),
    }
}

fn key_data(r: &mut Rng, bad: usize) -> Data {
    if r.pct(bad) {
        return data(r, 1, 0);
    }
    match r.below(9) {
        0 => Data::Char(gen::any_char(r)),
        1 => Data::I64(gen::int(r)),
        2 => Data::U64(r.u64()),
        3 => Data::UnitVariant(static_name(r)),
        4 => Data::NewtypeStruct(Box::new(key_data(r, bad))),
        5 => match r.below(6) {
            0 => Data::I8(r.u64() as i8),
            1 => Data::I16(r.u64() as i16),
            2 => Data::I32(r.u64() as i32),
            3 => Data::U8(r.u64() as u8),
            4 => Data::U16(r.u64() as u16),
            _ => Data::U32(r.u64() as u32),
        },
        6 => Data::Shown(gen::string(r)),
        _ => Data::Str(if r.bool() { gen::key(r) } else { r.pick(&["a", "b", "0", "1", "-1"]).to_string() }),
    }
}

/// Many distinct names for fields.
fn many_names() -> &'static [&'static str] {
    static N: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    N.get_or_init(|| (0..3000).map(|i| &*format!("f{i}{}", "_".repeat(i % 70)).leak()).collect())
}

/// Very long in one way.
fn wide(r: &mut Rng) -> Data {
    let n = near(r, 10_000);
    let odd = r.below(n);
    let item = |r: &mut Rng, i: usize| match (i == odd, i % 3) {
        (true, _) => data(r, 1, 0),
        (_, 0) => Data::I64(i as i64),
        (_, 1) => Data::None,
        _ => Data::U8(i as u8),
    };
    let names = many_names();
    let shift = r.below(40);
    let fields = |r: &mut Rng| (0..n.min(2_900)).map(|i| (names[i + shift], if r.one_in(9) { None } else { Some(item(r, i)) })).collect();
    match r.below(11) {
        0 | 1 => Data::Seq(r.bool(), (0..n).map(|i| item(r, i)).collect()),
        2 => Data::Tuple((0..n).map(|i| item(r, i)).collect()),
        3 => Data::TupleStruct((0..n).map(|i| item(r, i)).collect()),
        4 => Data::TupleVariant("a", (0..n).map(|i| item(r, i)).collect()),
        5 => Data::Map(r.bool(), (0..n).map(|i| (Data::I64((i as i64) << (shift % 20)), item(r, i))).collect()),
        6 => Data::Struct(fields(r)),
        7 => Data::StructVariant("b", fields(r)),
        8 => Data::Bytes((0..n).map(|_| r.u64() as u8).collect()),
        9 => Data::Str("é\n".repeat(n)),
        _ => Data::Map(true, vec![(Data::Str("k".repeat(n)), Data::Shown("x".repeat(n)))]),
    }
}

fn data(r: &mut Rng, depth: usize, bad: usize) -> Data {
    if depth == 0 || r.pct(35) {
        return leaf(r, bad);
    }
    let n = if r.one_in(20) { r.range(5, 40) } else { r.below(4) };
    let sub = |r: &mut Rng| data(r, depth - 1, bad);
    let name = static_name(r);
    let fields = |r: &mut Rng| -> Vec<(&'static str, Option<Data>)> {
        (0..n)
            .map(|_| {
                let k = static_name(r);
                let skip = r.one_in(8);
                (k, if skip { None } else { Some(data(r, depth - 1, bad)) })
            })
            .collect()
    };
    match r.below(13) {
        0 => Data::Some(Box::new(sub(r))),
        1 => Data::NewtypeStruct(Box::new(sub(r))),
        2 => Data::NewtypeVariant(name, Box::new(sub(r))),
        3 | 4 => Data::Seq(r.bool(), (0..n).map(|_| sub(r)).collect()),
        5 => Data::Tuple((0..n).map(|_| sub(r)).collect()),
        6 => Data::TupleStruct((0..n).map(|_| sub(r)).collect()),
        7 => Data::TupleVariant(name, (0..n).map(|_| sub(r)).collect()),
        8..=10 => Data::Map(r.bool(), (0..n).map(|_| (key_data(r, bad), sub(r))).collect()),
        11 => Data::Struct(fields(r)),
        _ => Data::StructVariant(name, fields(r)),
    }
}

fn shape_of(d: &Data) -> &'static str {
    match d {
        Data::Bool(_) => "bool",
        Data::I8(_) => "i8",
        Data::I16(_) => "i16",
        Data::I32(_) => "i32",
        Data::I64(_) => "i64",
        Data::I128(_) => "i128",
        Data::U8(_) => "u8",
        Data::U16(_) => "u16",
        Data::U32(_) => "u32",
        Data::U64(_) => "u64",
        Data::U128(_) => "u128",
        Data::F32(_) => "f32",
        Data::F64(_) => "f64",
        Data::Char(_) => "char",
        Data::Str(_) => "str",
        Data::Shown(_) => "collect_str",
        Data::Bytes(_) => "bytes",
        Data::None => "none",
        Data::Some(_) => "some",
        Data::Unit => "unit",
        Data::UnitStruct => "unit struct",
        Data::UnitVariant(_) => "unit variant",
        Data::NewtypeStruct(_) => "newtype struct",
        Data::NewtypeVariant(..) => "newtype variant",
        Data::Seq(..) => "seq",
        Data::Tuple(_) => "tuple",
        Data::TupleStruct(_) => "tuple struct",
        Data::TupleVariant(..) => "tuple variant",
        Data::Map(..) => "map",
        Data::Struct(_) => "struct",
        Data::StructVariant(..) => "struct variant",
        Data::Fail(_) => "fail",
    }
}

// ---------------------------------------------------------------------------
// What a value says of itself when it is serialized
// ---------------------------------------------------------------------------

/// Records every call a serializer receives, with the declared lengths.
#[derive(Default)]
struct Tape(Vec<String>);

#[derive(Debug)]
struct TapeErr(String);
impl std::fmt::Display for TapeErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for TapeErr {}
impl serde::ser::Error for TapeErr {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        TapeErr(m.to_string())
    }
}

macro_rules! tape_no {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<(), TapeErr> { Err(TapeErr(stringify!($f).into())) })* };
}

impl<'a> Serializer for &'a mut Tape {
    type Ok = ();
    type Error = TapeErr;
    type SerializeSeq = &'a mut Tape;
    type SerializeTuple = serde::ser::Impossible<(), TapeErr>;
    type SerializeTupleStruct = serde::ser::Impossible<(), TapeErr>;
    type SerializeTupleVariant = serde::ser::Impossible<(), TapeErr>;
    type SerializeMap = &'a mut Tape;
    type SerializeStruct = serde::ser::Impossible<(), TapeErr>;
    type SerializeStructVariant = serde::ser::Impossible<(), TapeErr>;

    tape_no! {
        serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_u8(u8); serialize_u16(u16); serialize_u32(u32);
        serialize_u64(u64); serialize_f32(f32); serialize_char(char); serialize_bytes(&[u8]);
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_bool(self, v: bool) -> Result<(), TapeErr> {
        self.0.push(format!("bool {v}"));
        Ok(())
    }
    fn serialize_i64(self, v: i64) -> Result<(), TapeErr> {
        self.0.push(format!("int {v}"));
        Ok(())
    }
    fn serialize_f64(self, v: f64) -> Result<(), TapeErr> {
        self.0.push(format!("float {:x}", v.to_bits()));
        Ok(())
    }
    fn serialize_str(self, v: &str) -> Result<(), TapeErr> {
        self.0.push(format!("str {v:?}"));
        Ok(())
    }
    fn serialize_none(self) -> Result<(), TapeErr> {
        self.0.push("none".into());
        Ok(())
    }
    fn serialize_unit(self) -> Result<(), TapeErr> {
        self.0.push("none".into());
        Ok(())
    }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<(), TapeErr> {
        Err(TapeErr("some".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<(), TapeErr> {
        Err(TapeErr("newtype".into()))
    }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), TapeErr> {
        Err(TapeErr("newtype variant".into()))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, TapeErr> {
        self.0.push(format!("seq {n:?}"));
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, TapeErr> {
        self.0.push(format!("map {n:?}"));
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, TapeErr> {
        Err(TapeErr("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, TapeErr> {
        Err(TapeErr("tuple struct".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, TapeErr> {
        Err(TapeErr("tuple variant".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, TapeErr> {
        Err(TapeErr("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, TapeErr> {
        Err(TapeErr("struct variant".into()))
    }
}
impl SerializeSeq for &mut Tape {
    type Ok = ();
    type Error = TapeErr;
    fn serialize_element<T: ?Sized + serde::Serialize>(&mut self, x: &T) -> Result<(), TapeErr> {
        x.serialize(&mut **self)
    }
    fn end(self) -> Result<(), TapeErr> {
        self.0.push("end".into());
        Ok(())
    }
}
impl SerializeMap for &mut Tape {
    type Ok = ();
    type Error = TapeErr;
    fn serialize_key<T: ?Sized + serde::Serialize>(&mut self, x: &T) -> Result<(), TapeErr> {
        x.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + serde::Serialize>(&mut self, x: &T) -> Result<(), TapeErr> {
        x.serialize(&mut **self)
    }
    fn end(self) -> Result<(), TapeErr> {
        self.0.push("end".into());
        Ok(())
    }
}

/// What serializing a value must say, where a length may be left undeclared.
fn tape_of(v: &Value, out: &mut Vec<String>) {
    let last = match v {
        Value::None => "none".into(),
        Value::Bool(b) => format!("bool {b}"),
        Value::Integer(i) => format!("int {i}"),
        Value::Float(f) => format!("float {:x}", f.to_bits()),
        Value::String(s) => format!("str {s:?}"),
        Value::List(l) => {
            out.push(format!("seq {:?}", Some(l.len())));
            l.iter().for_each(|x| tape_of(x, out));
            "end".into()
        }
        Value::Map(m) => {
            out.push(format!("map {:?}", Some(m.len())));
            for (k, x) in m {
                out.push(format!("str {k:?}"));
                tape_of(x, out);
            }
            "end".into()
        }
    };
    out.push(last);
}

fn check_tape(v: &Value) -> Result<(), String> {
    let mut want = vec![];
    tape_of(v, &mut want);
    let mut t = Tape::default();
    let r = match guard(|| serde::Serialize::serialize(v, &mut t)) {
        Err(b) => return Err(format!("serializing a value panicked: {b:?}\n  {}", dump(v))),
        Ok(r) => r,
    };
    if let Err(e) = r {
        return Err(format!("a value serializes as something else: {}\n  {}", e.0, dump(v)));
    }
    let same = t.0.len() == want.len() && t.0.iter().zip(&want).all(|(a, b)| a == b || ((b.starts_with("seq") || b.starts_with("map")) && a[4..] == *"None" && a[..4] == b[..4]));
    if !same {
        return Err(format!("serializing a value says {:?}\nexpected {want:?}", t.0));
    }
    Ok(())
}

fn c22(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let depth = *r.pick(&[0, 1, 2, 3, 4, 5]);
    let bad = *r.pick(&[0, 0, 0, 2, 10, 30]);
    SALT.set(r.u64() as usize);
    let mut d = data(r, depth, bad);
    if r.one_in(500) {
        d = wide(r);
        ctx.count("very long");
    }
    if r.one_in(60) {
        // Deep.
        for i in 0..r.range(20, 200) {
            d = match i % 4 {
                0 => Data::Seq(true, vec![d]),
                1 => Data::Some(Box::new(d)),
                2 => Data::NewtypeVariant("a", Box::new(d)),
                _ => Data::Map(true, vec![(Data::Char('k'), d)]),
            };
        }
    }
    let want = expect(&d);
    let desc = || {
        let mut t = format!("{d:?}");
        if t.len() > 3000 {
            t = t.chars().take(3000).collect();
        }
        format!("  data: {t}")
    };
    if ctx.verbose {
        println!("{}\nwant {want:?}", desc());
    }
    let (got, v) = res(guard(|| upon::to_value(&d)));
    match (&want, &got) {
        (_, Res::Boom(b)) => return Err(format!("panic {b:?}\n{}", desc())),
        (Ok(w), Res::Ok) => {
            let v = v.unwrap();
            if !same(w, &v) {
                return Err(format!("expected {}\nobserved {}\n{}", dump(w), dump(&v), desc()));
            }
            ctx.count("values compared");
            ctx.count(&format!("converted a {}", shape_of(&d)));
            check_tape(&v)?;
            ctx.count("serialized to a recording serializer");
            // Again.
            let (r2, v2) = res(guard(|| upon::to_value(&v)));
            if !r2.ok() || !v2.as_ref().is_some_and(|x| same(x, &v)) {
                return Err(format!("converting the value again gives {} {:?}\n{}", r2.brief(), v2.map(|v| dump(&v)), desc()));
            }
            // What rendering sees.
            if r.one_in(4) {
                let wrapped = Data::Struct(vec![("root", Some(d.clone()))]);
                let mut e = upon::Engine::new();
                e.add_formatter("dump", |f: &mut upon::fmt::Formatter<'_>, v: &Value| {
                    f.write_str(&dump(v))?;
                    Ok(())
                });
                let (rr, out) = res(guard(|| e.compile("{{ root | dump }}").unwrap().render(&e, &wrapped).to_string()));
                if !rr.ok() || out.as_deref() != Some(&dump(w)) {
                    return Err(format!("rendering shows {} {out:?}\nexpected {}\n{}", rr.brief(), dump(w), desc()));
                }
                ctx.count("seen through rendering");
            }
        }
        (Ok(w), Res::Err(e)) => return Err(format!("expected {}, observed {}\n{}", dump(w), e.plain, desc())),
        (Err(Bad::Wide), Res::Ok) => {
            // Must then be exact; the exact value is found by treating it as 64 bits wide.
            let v = v.unwrap();
            let n = narrow(&d);
            if expect(&n).ok().is_none_or(|w| !same(&w, &v)) {
                return Err(format!("a 128-bit integer was altered: {}\n{}", dump(&v), desc()));
            }
        }
        (Err(b), Res::Ok) => return Err(format!("{b:?} must be an error, observed {}\n{}", dump(&v.unwrap()), desc())),
        (Err(b), Res::Err(e)) => {
            if e.kind != Some(Kind::Serialize) || e.source.is_some() {
                return Err(format!("expected a serialize error for {b:?}, observed {:?}\n{}", e.plain, desc()));
            }
            if let Bad::Custom(m) = b {
                if e.reason.as_ref() != Some(m) {
                    return Err(format!("expected the reason {m:?}, observed {:?}\n{}", e.reason, desc()));
                }
            }
            ctx.count(match b {
                Bad::Custom(_) => "failing serializers",
                Bad::TooLarge => "integers too large",
                Bad::Key => "keys refused",
                Bad::Wide => "128-bit integers",
            });
        }
    }
    ctx.case(&format!("{d:?}"), true);
    Ok(())
}

fn narrow(d: &Data) -> Data {
    let f = |l: &[Data]| l.iter().map(narrow).collect();
    let g = |m: &[(&'static str, Option<Data>)]| m.iter().map(|(k, x)| (*k, x.as_ref().map(narrow))).collect();
    match d {
        Data::I128(x) => match i64::try_from(*x) {
            Ok(i) => Data::I64(i),
            Err(_) => d.clone(),
        },
        Data::U128(x) => match u64::try_from(*x) {
            Ok(i) => Data::U64(i),
            Err(_) => d.clone(),
        },
        Data::Some(x) => Data::Some(Box::new(narrow(x))),
        Data::NewtypeStruct(x) => Data::NewtypeStruct(Box::new(narrow(x))),
        Data::NewtypeVariant(n, x) => Data::NewtypeVariant(n, Box::new(narrow(x))),
        Data::Seq(h, l) => Data::Seq(*h, f(l)),
        Data::Tuple(l) => Data::Tuple(f(l)),
        Data::TupleStruct(l) => Data::TupleStruct(f(l)),
        Data::TupleVariant(n, l) => Data::TupleVariant(n, f(l)),
        Data::Map(h, m) => Data::Map(*h, m.iter().map(|(k, x)| (narrow(k), narrow(x))).collect()),
        Data::Struct(m) => Data::Struct(g(m)),
        Data::StructVariant(n, m) => Data::StructVariant(n, g(m)),
        d => d.clone(),
    }
}

// ---------------------------------------------------------------------------
// C23
// ---------------------------------------------------------------------------

/// The same data as a value made by conversion, what it must be, and, where it makes sense, a
/// value made by serialization.
struct Made {
    what: &'static str,
    got: Value,
    want: Value,
    serde: Option<Result<Value, String>>,
}

fn via<T: serde::Serialize>(x: &T) -> Option<Result<Value, String>> {
    Some(upon::to_value(x).map_err(|e| e.to_string()))
}

fn ints(l: impl IntoIterator<Item = i64>) -> Value {
    Value::List(l.into_iter().map(Value::Integer).collect())
}

fn make(r: &mut Rng) -> Made {
    let i = gen::int(r);
    let f = gen::float(r);
    let t = gen::string(r);
    let u = r.u64();
    let n = r.below(5);
    macro_rules! num {
        ($t:ty) => {{
            let x = *r.pick(&[<$t>::MIN, <$t>::MAX, 0, 1, i as $t, u as $t, <$t>::MAX / 2]);
            Made { what: stringify!($t), got: x.into(), want: Value::Integer(x as i64), serde: via(&x) }
        }};
    }
    // Now and then something long.
    let n = if r.one_in(60) { near(r, 5_000) } else { n };
    let t = if r.one_in(200) { t.repeat(near(r, 20_000) / t.len().max(1)) } else { t };
    let any_keys = r.bool() || n > 5;
    let pairs: Vec<(String, i64)> = (0..n)
        .map(|_| {
            let k = match r.below(if any_keys { 3 } else { 1 }) {
                0 => r.pick(&["a", "b", "c", "", "é"]).to_string(),
                1 => gen::key(r),
                _ => gen::string(r),
            };
            (k, gen::int(r))
        })
        .collect();
    let pairs_want = || Value::Map(pairs.iter().map(|(k, v)| (k.clone(), Value::Integer(*v))).collect());
    let list: Vec<i64> = (0..n).map(|_| gen::int(r)).collect();
    match r.below(44) {
        40 | 41 => {
            macro_rules! arrays {
                ($($n:literal)*) => {
                    match *r.pick(&[$($n),*]) {
                        $($n => {
                            let x: [i64; $n] = std::array::from_fn(|j| i.wrapping_add(j as i64));
                            let l: Vec<i64> = x.to_vec();
                            Made { what: "long arrays", got: x.into(), want: ints(l.clone()), serde: via(&l) }
                        })*
                        _ => unreachable!(),
                    }
                };
            }
            arrays!(2 3 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 40 47 48 63 64 65 96 100 127 128 129 192 255 256 257 300 511 512 513 1000 1023 1024 1025 4096 4097)
        }
        42 | 43 => {
            macro_rules! arrays {
                ($($n:literal)*) => {
                    match *r.pick(&[$($n),*]) {
                        $($n => {
                            let x: [(String, String); $n] = std::array::from_fn(|j| (format!("k{}", (j as u64 * 7 + u % 5) % ($n + 3)), format!("{t}{j}")));
                            let w = Value::Map(x.iter().map(|(k, v)| (k.clone(), s(v.as_str()))).collect());
                            Made { what: "long arrays of pairs", got: x.into(), want: w, serde: None }
                        })*
                        _ => unreachable!(),
                    }
                };
            }
            arrays!(3 4 5 6 7 8 9 10 11 12 13 15 16 17 20 24 25 31 32 33 48 63 64 65 100 127 128 129 255 256 257 1000)
        }
        0 => num!(u8),
        1 => num!(u16),
        2 => num!(u32),
        3 => num!(i8),
        4 => num!(i16),
        5 => num!(i32),
        6 => num!(i64),
        7 => {
            let x = f as f32;
            let x = if r.bool() { f32::from_bits(u as u32) } else { x };
            Made { what: "f32", got: x.into(), want: Value::Float(x as f64), serde: via(&x) }
        }
        8 => Made { what: "f64", got: f.into(), want: Value::Float(f), serde: via(&f) },
        9 => Made { what: "bool", got: (u & 1 == 1).into(), want: Value::Bool(u & 1 == 1), serde: via(&(u & 1 == 1)) },
        10 => Made { what: "()", got: ().into(), want: Value::None, serde: via(&()) },
        11 => Made { what: "String", got: t.clone().into(), want: s(t.as_str()), serde: via(&t) },
        12 => Made { what: "&str", got: t.as_str().into(), want: s(t.as_str()), serde: via(&t.as_str()) },
        13 => Made { what: "Cow borrowed", got: Cow::Borrowed(t.as_str()).into(), want: s(t.as_str()), serde: via(&Cow::Borrowed(t.as_str())) },
        14 => Made { what: "Cow owned", got: Cow::<str>::Owned(t.clone()).into(), want: s(t.as_str()), serde: None },
        15 => Made { what: "Vec", got: list.clone().into(), want: ints(list.clone()), serde: via(&list) },
        16 => Made { what: "[; 0]", got: Value::from([] as [i64; 0]), want: ints([]), serde: via(&([] as [i64; 0])) },
        17 => Made { what: "[; 1]", got: [i].into(), want: ints([i]), serde: via(&[i]) },
        18 => {
            let a = [i, u as i64, 3, i ^ 5];
            Made { what: "[; 4]", got: a.into(), want: ints(a), serde: via(&a) }
        }
        19 => {
            let m: BTreeMap<String, i64> = pairs.iter().cloned().collect();
            Made { what: "BTreeMap", got: m.clone().into(), want: pairs_want(), serde: via(&m) }
        }
        20 => {
            let m: HashMap<String, i64> = pairs.iter().cloned().collect();
            Made { what: "HashMap", got: m.clone().into(), want: pairs_want(), serde: via(&m) }
        }
        21 => {
            let m: HashMap<&str, &str> = pairs.iter().map(|(k, _)| (k.as_str(), t.as_str())).collect();
            let w = Value::Map(pairs.iter().map(|(k, _)| (k.clone(), s(t.as_str()))).collect());
            Made { what: "HashMap<&str, &str>", got: m.clone().into(), want: w, serde: via(&m) }
        }
        22 => {
            let (k, l) = two_keys(r);
            let a = [(k.as_str(), i), (l.as_str(), 5), (k.as_str(), u as i64)];
            let w = map([(k.as_str(), Value::Integer(u as i64)), (l.as_str(), Value::Integer(5))]);
            Made { what: "[(K, V); 3] with a duplicate", got: a.into(), want: w, serde: None }
        }
        23 => Made { what: "[(K, V); 0]", got: Value::from([] as [(String, i64); 0]), want: Value::Map(Map::new()), serde: None },
        24 => Made { what: "Some", got: Some(i).into(), want: Value::Integer(i), serde: via(&Some(i)) },
        25 => Made { what: "None", got: None::<String>.into(), want: Value::None, serde: via(&None::<String>) },
        26 => {
            let x = if r.bool() { Some(Some(t.clone())) } else { Some(None) };
            let w = match &x {
                Some(Some(t)) => s(t.as_str()),
                _ => Value::None,
            };
            Made { what: "nested option", got: x.clone().into(), want: w, serde: via(&x) }
        }
        27 => {
            let v = gen::value(r, 3);
            Made { what: "Value", got: Value::from_iter([v.clone()]), want: Value::List(vec![v.clone()]), serde: via(&[v]) }
        }
        28 => Made { what: "FromIterator", got: list.iter().copied().collect(), want: ints(list.clone()), serde: None },
        29 => Made {
            what: "FromIterator of pairs",
            got: pairs.iter().map(|(k, v)| (k.as_str(), *v)).collect(),
            want: pairs_want(),
            serde: None,
        },
        30 => {
            let x: Vec<Option<Vec<&str>>> = vec![Some(vec!["a", &t]), None, Some(vec![])];
            let w = Value::List(vec![Value::List(vec![s("a"), s(t.as_str())]), Value::None, Value::List(vec![])]);
            Made { what: "Vec<Option<Vec<&str>>>", got: x.clone().into(), want: w, serde: via(&x) }
        }
        31 => {
            let (k, l) = two_keys(r);
            let x: BTreeMap<&str, Vec<[f64; 2]>> = BTreeMap::from([(k.as_str(), vec![[f, -f], [0.0, -0.0]]), (l.as_str(), vec![])]);
            let p = |a: f64, b: f64| Value::List(vec![Value::Float(a), Value::Float(b)]);
            let w = map([(k.as_str(), Value::List(vec![p(f, -f), p(0.0, -0.0)])), (l.as_str(), Value::List(vec![]))]);
            Made { what: "BTreeMap of vectors of arrays", got: x.clone().into(), want: w, serde: via(&x) }
        }
        32 => {
            // Long, order kept.
            let k = r.range(10, 400);
            let l: Vec<i64> = (0..k as i64).map(|x| x ^ (i & 0xff)).collect();
            Made { what: "long Vec", got: l.clone().into(), want: ints(l.clone()), serde: via(&l) }
        }
        33 => {
            let k = r.range(10, 400);
            let m: HashMap<String, u32> = (0..k).map(|x| (format!("key {}", crate::rng::mix(x as u64)), x as u32)).collect();
            let w = Value::Map(m.iter().map(|(k, v)| (k.clone(), Value::Integer(*v as i64))).collect());
            Made { what: "large HashMap", got: m.clone().into(), want: w, serde: via(&m) }
        }
        34 => {
            let d: VecDeque<bool> = (0..n).map(|k| k % 2 == 0).collect();
            let w = Value::List(d.iter().map(|b| Value::Bool(*b)).collect());
            Made { what: "VecDeque collected", got: d.iter().copied().collect(), want: w, serde: via(&d) }
        }
        35 => {
            let d: BTreeSet<&str> = pairs.iter().map(|p| p.0.as_str()).collect();
            let w = Value::List(d.iter().map(|b| s(*b)).collect());
            Made { what: "BTreeSet collected", got: d.iter().copied().collect(), want: w, serde: via(&d) }
        }
        36 => {
            let x = [[i, 1], [2, u as i64], [0, 0]];
            let w = Value::List(x.iter().map(|a| ints(*a)).collect());
            Made { what: "nested arrays", got: x.into(), want: w, serde: via(&x) }
        }
        37 => {
            let (k, l) = two_keys(r);
            let x = [(k.clone(), vec![i as f32]), (l.clone(), vec![])];
            let w = map([(k.as_str(), Value::List(vec![Value::Float(i as f32 as f64)])), (l.as_str(), Value::List(vec![]))]);
            Made { what: "[(K, Vec); 2]", got: x.into(), want: w, serde: None }
        }
        38 => {
            let m: BTreeMap<char, u8> = pairs.iter().map(|(k, v)| (k.chars().next().unwrap_or('z'), *v as u8)).collect();
            let w = Value::Map(m.iter().map(|(k, v)| (k.to_string(), Value::Integer(*v as i64))).collect());
            Made { what: "BTreeMap<char, u8>", got: m.clone().into(), want: w, serde: via(&m) }
        }
        _ => {
            let v = gen::value(r, 3);
            let k = two_keys(r).0;
            let m: BTreeMap<String, Value> = BTreeMap::from([(k.clone(), v.clone())]);
            Made { what: "BTreeMap<String, Value>", got: m.clone().into(), want: map([(k.as_str(), v)]), serde: via(&m) }
        }
    }
}

/// Two different keys.
fn two_keys(r: &mut Rng) -> (String, String) {
    let k = match r.below(4) {
        0 => String::new(),
        1 => "k".into(),
        _ => gen::string(r),
    };
    let mut l = match r.below(4) {
        0 => String::new(),
        1 => format!("{k} "),
        _ => gen::string(r),
    };
    if l == k {
        l.push('\u{0}');
    }
    (k, l)
}

fn c23(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = ctx.rng.fork();
    let r = &mut rng;
    let m = if r.pct(60) {
        match guard(|| make(r)) {
            Ok(m) => m,
            Err(b @ Boom::Own(_)) | Err(b) => return Err(format!("conversion panicked: {b:?}")),
        }
    } else {
        let k = r.below(super::macros::FORMS.len());
        let x = Leaves {
            i: gen::int(r),
            f: gen::float(r),
            t: gen::string(r),
            o: if r.bool() { Some(gen::int(r) as i32) } else { None },
            l: (0..r.below(4)).map(|_| r.u64() as u8).collect(),
            v: gen::value(r, 2),
        };
        let (got, want) = match guard(|| super::macros::FORMS[k](&x)) {
            Ok(p) => p,
            Err(b) => return Err(format!("macro form {k} panicked: {b:?}")),
        };
        ctx.count("macro forms");
        Made { what: "macro", got, want, serde: None }
    };
    let desc = || format!("  {}\n  built:    {}\n  expected: {}", m.what, dump(&m.got), dump(&m.want));
    if ctx.verbose {
        println!("{}", desc());
    }
    if !same(&m.got, &m.want) {
        return Err(format!("not the value written\n{}", desc()));
    }
    if let Some(z) = &m.serde {
        match z {
            Ok(z) if same(z, &m.want) => {}
            z => return Err(format!("through serialization: {:?}\n{}", z.as_ref().map(dump), desc())),
        }
        ctx.count("also serialized");
    }
    check_tape(&m.got)?;
    // The copies and comparisons a caller makes.
    let copy = m.got.clone();
    if !same(&copy, &m.want) || (copy == copy) != (m.got == m.want) || (copy != copy) == (copy == copy) || (copy == copy) != comparable(&copy) {
        return Err(format!("a copy differs: {}\n{}", dump(&copy), desc()));
    }
    // Renders identically.
    if r.one_in(4) {
        let mut e = upon::Engine::new();
        for (n, f) in crate::funcs::library() {
            crate::funcs::register(&mut e, &n, f);
        }
        let t = e.compile("{{ x | dump }}{% if x %}T{% else %}F{% endif %}").unwrap();
        let show = |v: Value| -> (Res, Option<String>) {
            crate::funcs::install(Default::default());
            let x = res(guard(|| t.render_from(&e, &Value::from([("x", v)])).to_string()));
            crate::funcs::take();
            x
        };
        let (a, b) = (show(m.got.clone()), show(m.want.clone()));
        if a != b {
            return Err(format!("renders differently: {a:?} {b:?}\n{}", desc()));
        }
        ctx.count("renderings compared");
    }
    ctx.count(&format!("from {}", m.what));
    ctx.case(&format!("{}{}", m.what, dump(&m.got)), true);
    let _ = obs::last_panic;
    Ok(())
}

/// Whether a value equals itself: it has no NaN in it.
fn comparable(v: &Value) -> bool {
    match v {
        Value::Float(f) => !f.is_nan(),
        Value::List(l) => l.iter().all(comparable),
        Value::Map(m) => m.values().all(comparable),
        _ => true,
    }
}

/// What macro forms interpolate.
pub struct Leaves {
    pub i: i64,
    pub f: f64,
    pub t: String,
    pub o: Option<i32>,
    pub l: Vec<u8>,
    pub v: Value,
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            level: "exploration",
            rule: "random trees over all 31 forms of the serde data model (nested to depth 5, some to 200, also in key position), with boundary numbers, failing serializers and unrepresentable data; the value, converted again, and seen through rendering compared with an explicit correspondence; distinct by data",
            quick: 700_000,
            thorough: 20_000_000,
            run: c22,
            mins: &[("values compared", 250_000), ("failing serializers", 20_000), ("integers too large", 5_000), ("keys refused", 10_000), ("very long", 1_000), ("seen through rendering", 50_000)],
            assumptions: &["128-bit integers are not described by the documentation: an error or the exact value is accepted"],
        },
        Prop {
            id: "C23",
            level: "exploration",
            rule: "forty conversions over random data at the limits of every source type, and the macro forms written by tools/genmacros.py (nesting, trailing commas, duplicates, keyword keys, interpolated expressions) over random leaves; the value compared with the one written down, with the one made by serialization, and by rendering; distinct by form and value",
            quick: 400_000,
            thorough: 10_000_000,
            run: c23,
            mins: &[("macro forms", 100_000), ("also serialized", 100_000), ("renderings compared", 60_000)],
            assumptions: &["the macro is expanded for the forms in harness/src/props/macros.rs only"],
        },
    ]
}
