//! Values over a pipe.

use crate::val::{Map, Value};
use std::io::{self, Read, Write};

fn put(v: &Value, o: &mut Vec<u8>) {
    let bytes = |tag: u8, b: &[u8], o: &mut Vec<u8>| {
        o.push(tag);
        o.extend((b.len() as u64).to_le_bytes());
        o.extend(b);
    };
    match v {
        Value::None => o.push(b'n'),
        Value::Bool(b) => o.push(if *b { b't' } else { b'f' }),
        Value::Integer(i) => {
            o.push(b'i');
            o.extend(i.to_le_bytes());
        }
        Value::Float(f) => {
            o.push(b'd');
            o.extend(f.to_bits().to_le_bytes());
        }
        Value::String(s) => bytes(b's', s.as_bytes(), o),
        Value::List(l) => {
            o.push(b'l');
            o.extend((l.len() as u64).to_le_bytes());
            l.iter().for_each(|x| put(x, o));
        }
        Value::Map(m) => {
            o.push(b'm');
            o.extend((m.len() as u64).to_le_bytes());
            for (k, x) in m {
                bytes(b's', k.as_bytes(), o);
                put(x, o);
            }
        }
    }
}

fn get(b: &mut &[u8]) -> Value {
    fn word(b: &mut &[u8]) -> u64 {
        let (w, rest) = b.split_at(8);
        *b = rest;
        u64::from_le_bytes(w.try_into().unwrap())
    }
    let tag = b[0];
    *b = &b[1..];
    match tag {
        b'n' => Value::None,
        b't' => Value::Bool(true),
        b'f' => Value::Bool(false),
        b'i' => Value::Integer(word(b) as i64),
        b'd' => Value::Float(f64::from_bits(word(b))),
        b's' => {
            let n = word(b) as usize;
            let (t, rest) = b.split_at(n);
            *b = rest;
            Value::String(String::from_utf8(t.to_vec()).unwrap())
        }
        b'l' => {
            let n = word(b);
            Value::List((0..n).map(|_| get(b)).collect())
        }
        b'm' => {
            let n = word(b);
            let mut m = Map::new();
            for _ in 0..n {
                let Value::String(k) = get(b) else { panic!() };
                let v = get(b);
                m.insert(k, v);
            }
            Value::Map(m)
        }
        _ => panic!("harness: bad message"),
    }
}

pub fn send(w: &mut impl Write, v: &Value) -> io::Result<()> {
    let mut o = vec![];
    put(v, &mut o);
    w.write_all(&(o.len() as u64).to_le_bytes())?;
    w.write_all(&o)?;
    w.flush()
}

pub fn receive(r: &mut impl Read) -> io::Result<Value> {
    let mut n = [0; 8];
    r.read_exact(&mut n)?;
    let mut b = vec![0; u64::from_le_bytes(n) as usize];
    r.read_exact(&mut b)?;
    Ok(get(&mut &b[..]))
}
