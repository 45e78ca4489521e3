//! Encoding of numbers, JSON documents, specs and values for the TLA+ modules (see spec/Num.tla, Domain.tla).
#![allow(dead_code)]
use cambrian::{spec, value};
use serde_json::{json, Map, Value as J};

pub fn limbs(o: u64) -> J {
    json!([o >> 42, (o >> 21) & 0x1f_ffff, o & 0x1f_ffff])
}

pub fn unlimbs(j: &J) -> u64 {
    (j[0].as_u64().unwrap() << 42) | (j[1].as_u64().unwrap() << 21) | j[2].as_u64().unwrap()
}

pub fn flimbs(x: f64) -> J {
    let b = x.to_bits();
    limbs(if b >> 63 == 1 { !b } else { b | (1 << 63) })
}

pub fn ilimbs(x: i64) -> J {
    limbs((x as u64) ^ (1 << 63))
}

/// injective ASCII rendition of a string
pub fn esc(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if (' '..='}').contains(&c) {
            out.push(c);
        } else {
            out.push_str(&format!("~{:x}~", c as u32));
        }
    }
    out
}

pub fn num(x: f64) -> J {
    if x.is_finite() {
        json!(["f", flimbs(x)])
    } else {
        json!(["nonfinite"])
    }
}

pub fn jenc(j: &J) -> J {
    match j {
        J::Null => json!(["z"]),
        J::Bool(b) => json!(["b", b]),
        J::Number(n) => {
            if let Some(i) = n.as_i64() {
                json!(["i", ilimbs(i), flimbs(i as f64)])
            } else if let Some(u) = n.as_u64() {
                json!(["u", flimbs(u as f64)])
            } else {
                json!(["f", flimbs(n.as_f64().unwrap())])
            }
        }
        J::String(s) => json!(["s", esc(s)]),
        J::Array(a) => json!(["a", a.iter().map(jenc).collect::<Vec<_>>()]),
        J::Object(o) => {
            let mut m = Map::new();
            for (k, v) in o {
                m.insert(esc(k), jenc(v));
            }
            json!(["o", m])
        }
    }
}

fn opt<T, F: Fn(T) -> J>(o: Option<T>, f: F) -> J {
    match o {
        None => json!([]),
        Some(x) => json!([f(x)]),
    }
}

fn size(n: usize) -> u64 {
    (n as u64).min(2_000_000_000)
}

pub fn fnum_or_bad(x: f64) -> J {
    if x.is_nan() {
        json!([0, 0, 0])
    } else {
        flimbs(x)
    }
}

pub fn spec_enc(s: &spec::Node) -> J {
    match s {
        spec::Node::Real { init, scale, min, max } => {
            json!(["real", fnum_or_bad(*init), fnum_or_bad(*scale), opt(*min, fnum_or_bad), opt(*max, fnum_or_bad)])
        }
        spec::Node::Int { init, scale, min, max } => {
            json!(["int", ilimbs(*init), fnum_or_bad(*scale), opt(*min, ilimbs), opt(*max, ilimbs)])
        }
        spec::Node::Bool { init } => json!(["bool", init]),
        spec::Node::Sub { map } => {
            let m: Map<String, J> = map.iter().map(|(k, v)| (esc(k), spec_enc(v))).collect();
            json!(["sub", m])
        }
        spec::Node::Array { value_type, size: n } => json!(["array", spec_enc(value_type), size(*n)]),
        spec::Node::AnonMap { value_type, init_size, min_size, max_size } => json!([
            "anon",
            spec_enc(value_type),
            size(*init_size),
            opt(*min_size, |x| json!(size(x))),
            opt(*max_size, |x| json!(size(x)))
        ]),
        spec::Node::Variant { map, init } => {
            let m: Map<String, J> = map.iter().map(|(k, v)| (esc(k), spec_enc(v))).collect();
            json!(["variant", m, esc(init)])
        }
        spec::Node::Enum { values, init } => {
            json!(["enum", values.iter().map(|v| esc(v)).collect::<Vec<_>>(), esc(init)])
        }
        spec::Node::Optional { value_type, init_present } => {
            json!(["optional", spec_enc(value_type), init_present])
        }
        spec::Node::Const => json!(["const"]),
    }
}

pub fn val_enc(v: &value::Node) -> J {
    use value::Node::*;
    match v {
        Real(x) if x.is_finite() => json!(["real", flimbs(*x)]),
        Real(_) => json!(["nonfinite"]),
        Int(i) => json!(["int", ilimbs(*i)]),
        Bool(b) => json!(["bool", b]),
        Sub(m) => {
            let m: Map<String, J> = m.iter().map(|(k, v)| (esc(k), val_enc(v))).collect();
            json!(["sub", m])
        }
        Array(a) => json!(["array", a.iter().map(|v| val_enc(v)).collect::<Vec<_>>()]),
        AnonMap(m) => {
            let m: Map<String, J> = m.iter().map(|(k, v)| (k.to_string(), val_enc(v))).collect();
            json!(["anon", m])
        }
        Variant(n, v) => json!(["variant", esc(n), val_enc(v)]),
        Enum(s) => json!(["enum", esc(s)]),
        Optional(None) => json!(["opt", []]),
        Optional(Some(v)) => json!(["opt", [val_enc(v)]]),
        Const => json!(["const"]),
    }
}

pub fn unflimbs(j: &J) -> f64 {
    let o = unlimbs(j);
    f64::from_bits(if o >> 63 == 1 { o & !(1 << 63) } else { !o })
}

pub fn unilimbs(j: &J) -> i64 {
    (unlimbs(j) ^ (1 << 63)) as i64
}

pub fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.split('~');
    out.push_str(it.next().unwrap());
    loop {
        match it.next() {
            None => return out,
            Some(h) => out.push(char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()),
        }
        out.push_str(it.next().unwrap());
    }
}

/// inverse of jenc
pub fn jdec(j: &J) -> J {
    match j[0].as_str().unwrap() {
        "z" => J::Null,
        "b" => j[1].clone(),
        "i" => json!(unilimbs(&j[1])),
        "u" => json!(unflimbs(&j[1]) as u64),
        "f" => json!(unflimbs(&j[1])),
        "s" => json!(unesc(j[1].as_str().unwrap())),
        "a" => J::Array(j[1].as_array().unwrap().iter().map(jdec).collect()),
        "o" => J::Object(j[1].as_object().unwrap().iter().map(|(k, v)| (unesc(k), jdec(v))).collect()),
        k => panic!("jdec {k}"),
    }
}
