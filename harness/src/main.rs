//! Conformance harness: executes specification events on the real rabe-bn crate and
//! prints what it observed.  It judges nothing; /verif/tools compares its output with
//! what the Quint specification computed.
//!
//! usage: conform run  PROGRAM            one result line per program line, on stdout
//!        conform par  PROGRAM THREADS    runs PROGRAM, then re-evaluates every event on its
//!                                        recorded operands, concurrently and in other orders
//!
//! A result line is `<line-number> ok k=v ...` or `<line-number> panic <message>`.
use rabe_bn::arith::{U256, U512};
use rabe_bn::{pairing, Fr, Group, Gt, G1, G2};
use rand::rngs::StdRng;
use rand::{Rng, RngCore, SeedableRng};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

mod chain;

const N: usize = 8;

#[derive(Clone, Copy)]
struct Regs {
    fr: [Fr; N],
    g1: [G1; N],
    g2: [G2; N],
    gt: [Gt; N],
}

#[derive(Clone, Copy)]
enum Val {
    Fr(Fr),
    G1(G1),
    G2(G2),
    Gt(Gt),
}

/// What an event produced: a value, a plain text answer, or a documented rejection.
#[derive(Clone)]
enum Out {
    Val(Val),
    Text(String),
    Rejected(&'static str),
}

// ------------------------------------------------------------------ text helpers
fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// big-endian hexadecimal integer -> words, least significant first (independent of the crate)
fn words<const K: usize>(s: &str) -> [u64; K] {
    let mut w = [0u64; K];
    let s = format!("{:0>1$}", s, K * 16);
    assert_eq!(s.len(), K * 16, "integer too long");
    for i in 0..K {
        w[K - 1 - i] = u64::from_str_radix(&s[16 * i..16 * i + 16], 16).unwrap();
    }
    w
}
fn show<const K: usize>(w: &[u64; K]) -> String {
    let mut s = String::new();
    for x in w.iter().rev() {
        s.push_str(&format!("{:016x}", x));
    }
    s
}
fn u256(s: &str) -> U256 {
    U256(words::<4>(s))
}
fn u512(s: &str) -> U512 {
    U512(words::<8>(s))
}
fn h256(u: &U256) -> String {
    show(&u.0)
}

// ------------------------------------------------------------------ readers and writers that deliver fragments
struct FragR<'a> {
    data: &'a [u8],
    pos: usize,
    turn: usize,
}
impl<'a> FragR<'a> {
    fn new(data: &'a [u8]) -> Self {
        FragR { data, pos: 0, turn: data.len() % 5 }
    }
}
impl<'a> std::io::Read for FragR<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.turn += 1;
        if self.turn % 11 == 3 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = [1, 7, 3, 8, 31, 2, 5][self.turn % 7].min(b.len()).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct FragW {
    data: Vec<u8>,
    turn: usize,
}
impl Write for FragW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.turn += 1;
        if self.turn % 11 == 5 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = [1, 5, 8, 3, 30, 2][self.turn % 6].min(b.len());
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------------ serialization
#[cfg(feature = "ser-serde")]
mod ser {
    use serde::{de::DeserializeOwned, Serialize};
    pub trait Ser: Serialize + DeserializeOwned {}
    impl<T: Serialize + DeserializeOwned> Ser for T {}
    pub fn raw<T: Ser>(v: &T) -> Vec<u8> {
        bincode::serialize(v).expect("bincode serialize")
    }
    pub fn from_raw<T: Ser>(b: &[u8]) -> Option<T> {
        use bincode::Options;
        bincode::DefaultOptions::new().with_fixint_encoding().reject_trailing_bytes().deserialize(b).ok()
    }
    /// encode in a named format
    pub fn enc<T: Ser>(v: &T, f: &str) -> Vec<u8> {
        match f {
            "bin" => raw(v),
            "json" => serde_json::to_vec(v).expect("json"),
            "jsonv" => serde_json::to_vec_pretty(&serde_json::to_value(v).expect("json value")).unwrap(),
            "cbor" => {
                let mut o = vec![];
                ciborium::into_writer(v, &mut o).expect("cbor");
                o
            }
            "frag" | "jfrag" => {
                let mut o = crate::FragW { data: vec![], turn: 0 };
                put(v, if f == "frag" { "bin" } else { "json" }, &mut o);
                o.data
            }
            _ => raw(v),
        }
    }
    /// appends to a stream
    pub fn put<T: Serialize, W: std::io::Write>(v: &T, f: &str, o: &mut W) {
        match f {
            "json" => {
                serde_json::to_writer(&mut *o, v).expect("json");
                o.write_all(b"\n").unwrap();
            }
            "cbor" => ciborium::into_writer(v, o).expect("cbor"),
            _ => bincode::serialize_into(o, v).expect("bincode"),
        }
    }
    /// reads the next value of a stream
    pub fn get<T: DeserializeOwned, R: std::io::Read>(f: &str, r: &mut R) -> Option<T> {
        match f {
            "json" => T::deserialize(&mut serde_json::Deserializer::from_reader(r)).ok(),
            "cbor" => ciborium::from_reader(r).ok(),
            _ => bincode::deserialize_from(r).ok(),
        }
    }
    pub fn dec<T: Ser>(b: &[u8], f: &str) -> Option<T> {
        match f {
            "bin" => from_raw(b),
            "json" => serde_json::from_slice(b).ok(),
            "jsonv" => serde_json::from_value(serde_json::from_slice(b).ok()?).ok(),
            "cbor" => ciborium::from_reader(b).ok(),
            "frag" => {
                let mut r = crate::FragR::new(b);
                let v = get(f, &mut r)?;
                if r.pos == b.len() { Some(v) } else { None }
            }
            "jfrag" => get("json", &mut crate::FragR::new(b)),
            _ => from_raw(b),
        }
    }
    /// Data from outside, given as little-endian 64-bit words: the words replace, in order,
    /// the numbers of a serialized genuine value, so that only the words can be wrong.
    pub fn dec_words<T: Ser>(b: &[u8], f: &str, like: &T) -> Option<T> {
        if let Some(i) = f.find('!') {
            return dec_damaged(b, &f[..i], f[i + 1..].parse().unwrap(), like);
        }
        let mut w = b.chunks(8).map(|c| {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            u64::from_le_bytes(x)
        });
        match f {
            "tjson" | "json" | "jsonv" | "jfrag" => {
                fn walk(v: &mut serde_json::Value, w: &mut dyn Iterator<Item = u64>) {
                    match v {
                        serde_json::Value::Number(_) => *v = w.next().unwrap_or(0).into(),
                        serde_json::Value::Array(a) => a.iter_mut().for_each(|x| walk(x, w)),
                        serde_json::Value::Object(o) => o.iter_mut().for_each(|(_, x)| walk(x, w)),
                        _ => {}
                    }
                }
                let mut v = serde_json::to_value(like).expect("json value");
                walk(&mut v, &mut w);
                if f == "jfrag" {
                    return get("json", &mut crate::FragR::new(v.to_string().as_bytes()));
                }
                serde_json::from_str(&v.to_string()).ok()
            }
            "tcbor" | "cbor" => {
                use ciborium::Value;
                fn walk(v: &mut Value, w: &mut dyn Iterator<Item = u64>) {
                    match v {
                        Value::Integer(_) => *v = Value::Integer(w.next().unwrap_or(0).into()),
                        Value::Array(a) => a.iter_mut().for_each(|x| walk(x, w)),
                        Value::Map(o) => o.iter_mut().for_each(|(_, x)| walk(x, w)),
                        _ => {}
                    }
                }
                let mut v = Value::serialized(like).expect("cbor value");
                walk(&mut v, &mut w);
                let mut o = vec![];
                ciborium::into_writer(&v, &mut o).expect("cbor");
                ciborium::from_reader(&o[..]).ok()
            }
            _ => dec(b, f),
        }
    }
    /// The same with one defect of structure, number `cut`: no genuine serialization.
    fn dec_damaged<T: Ser>(b: &[u8], f: &str, cut: usize, like: &T) -> Option<T> {
        use serde_json::Value;
        let mut w = b.chunks(8).map(|c| {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            u64::from_le_bytes(x)
        });
        fn fill(v: &mut Value, w: &mut dyn Iterator<Item = u64>, arrays: &mut usize, objects: &mut usize) {
            match v {
                Value::Number(_) => *v = w.next().unwrap_or(0).into(),
                Value::Array(a) => {
                    *arrays += 1;
                    a.iter_mut().for_each(|x| fill(x, w, arrays, objects))
                }
                Value::Object(o) => {
                    *objects += 1;
                    o.iter_mut().for_each(|(_, x)| fill(x, w, arrays, objects))
                }
                _ => {}
            }
        }
        /// applies `act` to the container (array or object) number `k`
        fn at(v: &mut Value, k: &mut usize, obj: bool, act: &mut dyn FnMut(&mut Value)) {
            if v.is_object() == obj && (v.is_object() || v.is_array()) {
                if *k == 0 {
                    act(v);
                    *k = usize::MAX;
                    return;
                }
                *k -= 1;
            }
            match v {
                Value::Array(a) => a.iter_mut().for_each(|x| if *k != usize::MAX { at(x, k, obj, act) }),
                Value::Object(o) => o.iter_mut().for_each(|(_, x)| if *k != usize::MAX { at(x, k, obj, act) }),
                _ => {}
            }
        }
        let mut v = serde_json::to_value(like).expect("json value");
        let (mut arrays, mut objects) = (0, 0);
        fill(&mut v, &mut w, &mut arrays, &mut objects);
        let kind = cut % 10;
        let sel = cut / 10;
        let obj = objects > 0 && (kind == 1 || kind == 2);
        let mut k = if obj { sel % objects } else { sel % arrays };
        let j = sel / 3;
        at(&mut v, &mut k, obj, &mut |c| match c {
            Value::Object(o) => {
                let key = o.keys().nth(j % o.len()).unwrap().clone();
                let x = o.remove(&key).unwrap();
                if kind == 2 {
                    o.insert(key + "_", x);
                }
            }
            Value::Array(a) => {
                let i = j % a.len();
                match kind {
                    0 => { a.remove(i); }
                    1 => a.clear(),
                    2 => *c = Value::Null,
                    3 => a[i] = Value::Null,
                    4 => a[i] = (-1 - (j as i64 % 3)).into(),
                    5 => a[i] = (0.5 + j as f64).into(),
                    6 => a[i] = a[i].to_string().into(),
                    7 => a[i] = Value::Array(vec![a[i].clone()]),
                    8 => a[i] = Value::Bool(j % 2 == 0),
                    _ => a[i] = Value::Object(Default::default()),
                }
            }
            _ => {}
        });
        if f == "tcbor" {
            let mut o = vec![];
            ciborium::into_writer(&v, &mut o).expect("cbor");
            return ciborium::from_reader(&o[..]).ok();
        }
        let text = v.to_string();
        if sel % 5 == 1 {
            return serde_json::from_value(v).ok();
        }
        serde_json::from_str(&text).ok()
    }
}
#[cfg(feature = "ser-borsh")]
mod ser {
    use borsh::{BorshDeserialize, BorshSerialize};
    pub trait Ser: BorshSerialize + BorshDeserialize {}
    impl<T: BorshSerialize + BorshDeserialize> Ser for T {}
    pub fn raw<T: Ser>(v: &T) -> Vec<u8> {
        borsh::to_vec(v).expect("borsh serialize")
    }
    pub fn from_raw<T: Ser>(b: &[u8]) -> Option<T> {
        T::try_from_slice(b).ok()
    }
    pub fn enc<T: Ser>(v: &T, f: &str) -> Vec<u8> {
        let mut o = vec![];
        match f {
            "writer" => {
                v.serialize(&mut o).expect("borsh writer");
                o
            }
            "frag" | "jfrag" => {
                let mut o = crate::FragW { data: vec![], turn: 0 };
                v.serialize(&mut o).expect("borsh writer");
                o.data
            }
            _ => raw(v),
        }
    }
    /// appends to a stream
    pub fn put<T: BorshSerialize, W: std::io::Write>(v: &T, _f: &str, o: &mut W) {
        v.serialize(o).expect("borsh writer");
    }
    /// reads the next value of a stream
    pub fn get<T: BorshDeserialize, R: std::io::Read>(_f: &str, r: &mut R) -> Option<T> {
        T::deserialize_reader(r).ok()
    }
    pub fn dec<T: Ser>(b: &[u8], f: &str) -> Option<T> {
        match f {
            // leaves trailing bytes in the reader: must consume exactly what was written
            "writer" => {
                let mut long = b.to_vec();
                long.extend_from_slice(&[0xA5, 0x5A, 0xA5]);
                let mut r = &long[..];
                let v = T::deserialize(&mut r).ok()?;
                if r == [0xA5, 0x5A, 0xA5] { Some(v) } else { None }
            }
            "frag" | "jfrag" => {
                let mut r = crate::FragR::new(b);
                let v = T::deserialize_reader(&mut r).ok()?;
                if r.pos == b.len() { Some(v) } else { None }
            }
            _ => from_raw(b),
        }
    }
    pub fn dec_words<T: Ser>(b: &[u8], f: &str, _like: &T) -> Option<T> {
        // damage to the structure: there is none here but to end early
        if let Some(i) = f.find('!') {
            let cut: usize = f[i + 1..].parse().unwrap();
            return from_raw(&b[..b.len() - 1 - cut % b.len()]);
        }
        dec(b, f)
    }
}
use ser::Ser;

// ------------------------------------------------------------------ random generators
/// A generator that replays given words and counts what was consumed.
struct Counting {
    inner: StdRng,
    bytes: u64,
}
impl RngCore for Counting {
    fn next_u32(&mut self) -> u32 {
        self.bytes += 4;
        self.inner.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.bytes += 8;
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.bytes += d.len() as u64;
        self.inner.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// The byte stream of a seeded generator with one bit of its output inverted.
struct Flipped {
    inner: StdRng,
    pos: u64,
    flip: u64,
}
impl Flipped {
    fn new(seed: &str, flip: u64) -> Self {
        Flipped { inner: StdRng::seed_from_u64(seed.parse().unwrap()), pos: 0, flip }
    }
}
impl RngCore for Flipped {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            // one byte of stream per byte delivered, whatever the width of the request
            *x = (self.inner.next_u32() >> 11) as u8;
            if self.flip / 8 == self.pos {
                *x ^= 1 << (self.flip % 8);
            }
            self.pos += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// Chosen output first, then that of a seeded generator.
struct Fed {
    bytes: Vec<u8>,
    pos: usize,
    inner: StdRng,
}
impl RngCore for Fed {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            *x = if self.pos < self.bytes.len() { self.bytes[self.pos] } else { (self.inner.next_u32() >> 11) as u8 };
            self.pos += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
fn rng(seed: &str) -> Counting {
    Counting { inner: StdRng::seed_from_u64(seed.parse().unwrap()), bytes: 0 }
}

/// one random sample of a sort, as text
fn draw<R: Rng>(name: &str, g: &mut R, m: &U256) -> String {
    match name {
        "fr" => hex(&ser::raw(&g.gen::<Fr>())),
        "g1" => hex(&ser::raw(&G1::random(g))),
        "g2" => hex(&ser::raw(&G2::random(g))),
        "g1std" => hex(&ser::raw(&g.gen::<G1>())),
        "g2std" => hex(&ser::raw(&g.gen::<G2>())),
        "gt" => hex(&ser::raw(&g.gen::<Gt>())),
        "u256" => h256(&U256::random(g, m)),
        "u512" => show(&U512::random(g).0),
        _ => panic!("HARNESS unknown sort {}", name),
    }
}

// ------------------------------------------------------------------ evaluation
fn ix(s: &str) -> usize {
    s.parse().unwrap()
}
fn opt<T>(o: Option<T>, f: impl Fn(T) -> Val) -> Out {
    match o {
        Some(x) => Out::Val(f(x)),
        None => Out::Rejected("none"),
    }
}
fn rt<T: Ser>(v: &T, f: &str, w: impl Fn(T) -> Val) -> Out {
    let e = ser::enc(v, f);
    match ser::dec::<T>(&e, f) {
        Some(x) => Out::Val(w(x)),
        None => Out::Rejected("err"),
    }
}
fn load<T: Ser>(b: &[u8], f: &str, like: T, w: impl Fn(T) -> Val) -> Out {
    match ser::dec_words::<T>(b, f, &like) {
        Some(x) => Out::Val(w(x)),
        None => Out::Rejected("err"),
    }
}
fn group<G: Group>(op: &str, a: &[&str], reg: &[G; N], fr: &[Fr; N], w: fn(G) -> Val) -> Out {
    let v = |g: G| Out::Val(w(g));
    match op {
        "zero" => v(G::zero()),
        "one" => v(G::one()),
        "add" => v(reg[ix(a[1])] + reg[ix(a[2])]),
        "sub" => v(reg[ix(a[1])] - reg[ix(a[2])]),
        "neg" => v(-reg[ix(a[1])]),
        "mul" => v(reg[ix(a[1])] * fr[ix(a[2])]),
        "norm" => {
            let mut g = reg[ix(a[1])];
            g.normalize();
            v(g)
        }
        "rnd" => v(G::random(&mut rng(a[1]))),
        "rt" => rt(&reg[ix(a[1])], a[2], w),
        "load" => load::<G>(&unhex(a[1]), a[2], G::one(), w),
        // algebraic laws, evaluated entirely inside the implementation
        _ => panic!("HARNESS unknown group op {}", op),
    }
}
/// Both sides of an equation, evaluated in the implementation; the specification says
/// whether they must be equal.
fn law(a: &[&str], r: &Regs) -> Out {
    let t = |b: bool| Out::Text(format!("r={}", b as u8));
    let s = |i: usize| r.fr[ix(a[i])];
    let p = |i: usize| r.g1[ix(a[i])];
    let q = |i: usize| r.g2[ix(a[i])];
    match a[0] {
        "add1" => t(pairing(p(1) + p(2), q(3)) == pairing(p(1), q(3)) * pairing(p(2), q(3))),
        "add2" => t(pairing(p(1), q(2) + q(3)) == pairing(p(1), q(2)) * pairing(p(1), q(3))),
        "sub1" => t(pairing(p(1) - p(2), q(3)) == pairing(p(1), q(3)) * pairing(p(2), q(3)).inverse()),
        "sub2" => t(pairing(p(1), q(2) - q(3)) == pairing(p(1), q(2)) * pairing(p(1), q(3)).inverse()),
        "scal" => t(pairing(p(1) * s(3), q(2) * s(4)) == pairing(p(1), q(2)).pow(s(3) * s(4))),
        "mov1" => t(pairing(p(1) * s(3), q(2)) == pairing(p(1), q(2) * s(3))),
        "mov2" => t(pairing(p(1) * s(3), q(2)) == pairing(p(1), q(2)).pow(s(3))),
        "mov3" => t(pairing(p(1), q(2) * s(3)) == pairing(p(1), q(2)).pow(s(3))),
        "neg1" => t(pairing(-p(1), q(2)) == pairing(p(1), q(2)).inverse()),
        "neg2" => t(pairing(p(1), -q(2)) == pairing(p(1), q(2)).inverse()),
        "norm" => {
            let (mut x, mut y) = (p(1), q(2));
            x.normalize();
            y.normalize();
            let e = pairing(p(1), q(2));
            t(pairing(x, q(2)) == e && pairing(p(1), y) == e && pairing(x, y) == e)
        }
        // equality of two independent pairings
        "peq" => t(pairing(p(1), q(2)) == pairing(p(3), q(4))),
        "pone" => t(pairing(p(1), q(2)) == Gt::one()),
        // group laws through scalars
        "dist1" => t(p(1) * s(2) + p(1) * s(3) == p(1) * (s(2) + s(3))),
        "dist2" => t(q(1) * s(2) + q(1) * s(3) == q(1) * (s(2) + s(3))),
        "comp1" => t((p(1) * s(2)) * s(3) == p(1) * (s(2) * s(3))),
        "comp2" => t((q(1) * s(2)) * s(3) == q(1) * (s(2) * s(3))),
        "padd1" => t((p(1) + p(2)) * s(3) == p(1) * s(3) + p(2) * s(3)),
        "padd2" => t((q(1) + q(2)) * s(3) == q(1) * s(3) + q(2) * s(3)),
        _ => panic!("HARNESS unknown law {}", a[0]),
    }
}
fn eval(op: &str, a: &[&str], r: &Regs) -> Out {
    let (sort, name) = op.split_once('.').expect("op");
    if name.starts_with("c_") {
        return match sort {
            "fr" => chain::fr(name, a, &r.fr),
            "g1" => chain::group::<G1>(name, a, &r.g1, &r.fr, Val::G1),
            "g2" => chain::group::<G2>(name, a, &r.g2, &r.fr, Val::G2),
            "gt" => chain::gt(name, a, r),
            _ => chain::arith(&name[2..], a),
        };
    }
    match sort {
        "g1" => group::<G1>(name, a, &r.g1, &r.fr, Val::G1),
        "g2" => group::<G2>(name, a, &r.g2, &r.fr, Val::G2),
        "law" => {
            let mut v = vec![name];
            v.extend_from_slice(a);
            match chain::law(name, a, r) {
                Some(o) => o,
                None => law(&v, r),
            }
        }
        "fr" => {
            let v = |x: Fr| Out::Val(Val::Fr(x));
            let f = &r.fr;
            match name {
                "zero" => v(Fr::zero()),
                "one" => v(Fr::one()),
                "add" => v(f[ix(a[1])] + f[ix(a[2])]),
                "sub" => v(f[ix(a[1])] - f[ix(a[2])]),
                "mul" => v(f[ix(a[1])] * f[ix(a[2])]),
                "neg" => v(-f[ix(a[1])]),
                "pow" => v(f[ix(a[1])].pow(f[ix(a[2])])),
                "inv" => opt(f[ix(a[1])].inverse(), Val::Fr),
                "str" => {
                    let s = String::from_utf8(unhex(a[1])).expect("HARNESS utf8");
                    opt(Fr::from_str(&s), Val::Fr)
                }
                "slice" => match Fr::from_slice(&unhex(a[1])) {
                    Ok(x) => v(x),
                    Err(rabe_bn::FieldError::InvalidSliceLength) => Out::Rejected("err"),
                    Err(_) => Out::Rejected("othererr"),
                },
                "interp" => {
                    let mut b = [0u8; 64];
                    b.copy_from_slice(&unhex(a[1]));
                    v(Fr::interpret(&b))
                }
                "mulf" => v(Fr::new_mul_factor(u256(a[1]))),
                "rnd" => v(rng(a[1]).gen::<Fr>()),
                "rt" => rt(&f[ix(a[1])], a[2], Val::Fr),
                "load" => load::<Fr>(&unhex(a[1]), a[2], Fr::one(), Val::Fr),
                _ => panic!("HARNESS unknown op {}", op),
            }
        }
        "gt" => {
            let v = |x: Gt| Out::Val(Val::Gt(x));
            let t = &r.gt;
            match name {
                "one" => v(Gt::one()),
                "mul" => v(t[ix(a[1])] * t[ix(a[2])]),
                "pow" => v(t[ix(a[1])].pow(r.fr[ix(a[2])])),
                "inv" => v(t[ix(a[1])].inverse()),
                "pair" => v(pairing(r.g1[ix(a[1])], r.g2[ix(a[2])])),
                "rnd" => v(rng(a[1]).gen::<Gt>()),
                "rt" => rt(&t[ix(a[1])], a[2], Val::Gt),
                "load" => load::<Gt>(&unhex(a[1]), a[2], Gt::one(), Val::Gt),
                _ => panic!("HARNESS unknown op {}", op),
            }
        }
        "std" => match name {
            // the Standard distribution of the point types (rng.gen)
            "g1" => Out::Val(Val::G1(rng(a[1]).gen::<G1>())),
            "g2" => Out::Val(Val::G2(rng(a[1]).gen::<G2>())),
            _ => panic!("HARNESS unknown op {}", op),
        },
        "u" => {
            let t = |x: &U256| Out::Text(format!("r={}", h256(x)));
            let b = |x: bool| Out::Text(format!("r={}", x as u8));
            match name {
                "add" => { let mut x = u256(a[0]); x.add(&u256(a[1]), &u256(a[2])); t(&x) }
                "sub" => { let mut x = u256(a[0]); x.sub(&u256(a[1]), &u256(a[2])); t(&x) }
                "neg" => { let mut x = u256(a[0]); x.neg(&u256(a[1])); t(&x) }
                "mul" => {
                    let mut x = u256(a[0]);
                    x.mul(&u256(a[1]), &u256(a[2]), u64::from_str_radix(a[3], 16).unwrap());
                    t(&x)
                }
                "invert" => { let mut x = u256(a[0]); x.invert(&u256(a[1])); t(&x) }
                "cmp" => {
                    let (x, y) = (u256(a[0]), u256(a[1]));
                    let o = match x.cmp(&y) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 };
                    Out::Text(format!("r={} p={} eq={} lt={} ge={}", o,
                        match x.partial_cmp(&y) { Some(std::cmp::Ordering::Less) => 0, Some(std::cmp::Ordering::Equal) => 1, Some(_) => 2, None => 3 },
                        (x == y) as u8, (x < y) as u8, (x >= y) as u8))
                }
                "even" => b(u256(a[0]).is_even()),
                "iszero" => b(u256(a[0]).is_zero()),
                "consts" => Out::Text(format!("r={} one={}", h256(&U256::zero()), h256(&U256::one()))),
                "getbit" => Out::Text(match u256(a[0]).get_bit(ix(a[1])) { None => "r=2".into(), Some(x) => format!("r={}", x as u8) }),
                "setbit" => {
                    let mut x = u256(a[0]);
                    let ok = x.set_bit(ix(a[1]), a[2] == "1");
                    Out::Text(format!("r={} ok={}", h256(&x), ok as u8))
                }
                "bits" => Out::Text(format!("r={}", u256(a[0]).bits().map(|x| if x { '1' } else { '0' }).collect::<String>())),
                "slice" => match U256::from_slice(&unhex(a[0])) {
                    Ok(x) => t(&x),
                    Err(rabe_bn::arith::Error::InvalidLength { expected, actual }) => Out::Text(format!("r=err{}:{}", expected, actual)),
                },
                "bytes" => Out::Text(format!("r={}", hex(&u256(a[0]).into_bytes()))),
                "ser" => Out::Text(format!("r={} back={}", hex(&ser::raw(&u256(a[0]))),
                    ser::from_raw::<U256>(&ser::raw(&u256(a[0]))).map(|x| h256(&x)).unwrap_or("err".into()))),
                "show" => Out::Text(format!("r={}", u256(a[0]))),
                "from" => t(&U256::from(words::<4>(a[0]))),
                "rnd" => t(&U256::random(&mut rng(a[0]), &u256(a[1]))),
                _ => panic!("HARNESS unknown op {}", op),
            }
        }
        "w" => match name {
            "divrem" => {
                let (q, r) = u512(a[0]).divrem(&u256(a[1]));
                Out::Text(format!("r={} q={}", h256(&r), q.map(|x| h256(&x)).unwrap_or("none".into())))
            }
            "from" => Out::Text(format!("r={}", show(&U512::from(&u256(a[0]), &u256(a[1]), &u256(a[2])).0))),
            "getbit" => Out::Text(match u512(a[0]).get_bit(ix(a[1])) { None => "r=2".into(), Some(x) => format!("r={}", x as u8) }),
            "interp" => {
                let mut b = [0u8; 64];
                b.copy_from_slice(&unhex(a[0]));
                Out::Text(format!("r={}", show(&U512::interpret(&b).0)))
            }
            "rnd" => Out::Text(format!("r={}", show(&U512::random(&mut rng(a[0])).0))),
            "collect" => Out::Text(format!("r={}", show(&a.iter().map(|w| u64::from_str_radix(w, 16).unwrap()).collect::<U512>().0))),
            "ser" => Out::Text(format!("r={} back={}", hex(&ser::raw(&u512(a[0]))),
                ser::from_raw::<U512>(&ser::raw(&u512(a[0]))).map(|x| show(&x.0)).unwrap_or("err".into()))),
            "show" => Out::Text(format!("r={}", u512(a[0]))),
            "eq" => Out::Text(format!("r={}", (u512(a[0]) == u512(a[1])) as u8)),
            _ => panic!("HARNESS unknown op {}", op),
        },
        // which output bits of the generator does one sample depend on?
        "sens" => {
            let one = |flip: u64| -> (String, u64) {
                let mut g = Flipped::new(a[0], flip);
                let m = if name == "u256" { u256(a[2]) } else { U256::zero() };
                let v = draw(name, &mut g, &m);
                (v, g.pos)
            };
            let step: u64 = a[1].parse().unwrap();
            let (base, drew) = one(u64::MAX);
            let (mut tried, mut hit) = (0, 0);
            let mut b = 0;
            while b < drew * 8 && b < 65536 {
                tried += 1;
                if one(b).0 != base { hit += 1 }
                b += step;
            }
            Out::Text(format!("drew={} tried={} hit={}", drew, tried, hit))
        }
        // one sample from chosen generator output: bytes first, then a seeded generator
        "feed" => {
            let mut g = Fed { bytes: unhex(a[1]), pos: 0, inner: StdRng::seed_from_u64(a[0].parse().unwrap()) };
            let m = if name == "u256" { u256(a[2]) } else { U256::zero() };
            let v = draw(name, &mut g, &m);
            Out::Text(format!("v={} drew={}", v, g.pos))
        }
        // streams of samples, each from a fresh generator seeded with a[0] + i
        "fresh" => {
            let s0: u64 = a[0].parse().unwrap();
            let n: u64 = a[1].parse().unwrap();
            let m = if name == "u256" { u256(a[2]) } else { U256::zero() };
            let v: Vec<String> = (0..n).map(|i| draw(name, &mut StdRng::seed_from_u64(s0 + i), &m)).collect();
            Out::Text(format!("v={} drew=-", v.join(",")))
        }
        // streams of samples from one generator: values, and bytes drawn after each sample
        "stream" => {
            let mut g = rng(a[0]);
            let n: usize = ix(a[1]);
            let mut s = String::from("v=");
            let mut drew = String::from(" drew=");
            let m = if name == "u256" { u256(a[2]) } else { U256::zero() };
            for i in 0..n {
                if i > 0 { s.push(','); drew.push(','); }
                let before = g.bytes;
                s.push_str(&draw(name, &mut g, &m));
                drew.push_str(&(g.bytes - before).to_string());
            }
            Out::Text(s + &drew)
        }
        _ => panic!("HARNESS unknown op {}", op),
    }
}

// ------------------------------------------------------------------ streams
/// Values written one after the other and read back: st.new FORMAT, st.put CONTAINER SORT REGS,
/// st.cut BYTES, st.get CONTAINER SORT, and <sort>.take REG for the values of the container read last.
struct Stream {
    format: String,
    data: Vec<u8>,
    pos: usize,
    pend: std::collections::VecDeque<Val>,
}
impl Stream {
    fn write<T: Ser + Clone>(&mut self, c: &str, v: Vec<T>) {
        let f = self.format.clone();
        match (c, f.as_str()) {
            (_, "fbin") => {
                let mut o = FragW { data: std::mem::take(&mut self.data), turn: 0 };
                match c {
                    "0" => ser::put(&v[0], "bin", &mut o),
                    "1" => ser::put(&Some(v[0].clone()), "bin", &mut o),
                    _ => ser::put(&v, "bin", &mut o),
                }
                self.data = o.data;
            }
            ("0", _) => ser::put(&v[0], &f, &mut self.data),
            ("1", _) => ser::put(&Some(v[0].clone()), &f, &mut self.data),
            _ => ser::put(&v, &f, &mut self.data),
        }
    }
    fn next<T: Ser>(&mut self) -> Option<T> {
        let rest = &self.data[self.pos..];
        if self.format == "fbin" {
            let mut r = FragR::new(rest);
            let v = ser::get("bin", &mut r)?;
            self.pos += r.pos;
            Some(v)
        } else {
            let mut r = std::io::Cursor::new(rest);
            let v = ser::get(&self.format, &mut r)?;
            self.pos += r.position() as usize;
            Some(v)
        }
    }
    fn read<T: Ser>(&mut self, c: &str, w: fn(T) -> Val) -> bool {
        let got: Option<Vec<T>> = match c {
            "0" => self.next::<T>().map(|x| vec![x]),
            "1" => match self.next::<Option<T>>() {
                Some(Some(x)) => Some(vec![x]),
                Some(None) => Some(vec![]),
                None => None,
            },
            _ => self.next::<Vec<T>>(),
        };
        match got {
            Some(v) => {
                self.pend = v.into_iter().map(w).collect();
                true
            }
            None => false,
        }
    }
    fn event(&mut self, name: &str, a: &[&str], r: &Regs) -> Out {
        match name {
            "new" => {
                *self = Stream { format: a[0].into(), data: vec![], pos: 0, pend: Default::default() };
                Out::Text("r=0".into())
            }
            "put" => {
                let before = self.data.len();
                let ids: Vec<usize> = a[2..].iter().map(|x| ix(x)).collect();
                match (a[0], a[1]) {
                    ("3", _) => {
                        let f = self.format.clone();
                        let t = (r.fr[ids[0]], r.g1[ids[1]], r.g2[ids[2]], r.gt[ids[3]]);
                        ser::put(&t, if f == "fbin" { "bin" } else { &f }, &mut self.data)
                    }
                    (c, "fr") => self.write(c, ids.iter().map(|i| r.fr[*i]).collect()),
                    (c, "g1") => self.write(c, ids.iter().map(|i| r.g1[*i]).collect()),
                    (c, "g2") => self.write(c, ids.iter().map(|i| r.g2[*i]).collect()),
                    (c, _) => self.write(c, ids.iter().map(|i| r.gt[*i]).collect()),
                }
                Out::Text(format!("r={}", self.data.len() - before))
            }
            "cut" => {
                let n = self.data.len() - ix(a[0]);
                self.data.truncate(n);
                Out::Text("r=0".into())
            }
            "get" => {
                let ok = match (a[0], a[1]) {
                    ("3", _) => match self.next::<(Fr, G1, G2, Gt)>() {
                        Some((s, p, q, t)) => {
                            self.pend = vec![Val::Fr(s), Val::G1(p), Val::G2(q), Val::Gt(t)].into();
                            true
                        }
                        None => false,
                    },
                    (c, "fr") => self.read::<Fr>(c, Val::Fr),
                    (c, "g1") => self.read::<G1>(c, Val::G1),
                    (c, "g2") => self.read::<G2>(c, Val::G2),
                    (c, _) => self.read::<Gt>(c, Val::Gt),
                };
                if ok { Out::Text(format!("r={}", self.pend.len())) } else { Out::Rejected("err") }
            }
            _ => panic!("HARNESS unknown stream op {}", name),
        }
    }
}

fn mask<T: PartialEq>(v: &T, reg: &[T]) -> String {
    reg.iter().map(|x| {
        // == and != must be each other's negation and symmetric
        let e = *v == *x;
        let c = *x == *v;
        let n = *v != *x;
        if e == c && e != n { if e { '1' } else { '0' } } else { 'x' }
    }).collect()
}

/// Everything a caller can see of a value.
fn describe(v: &Val, r: &Regs) -> String {
    match v {
        Val::Fr(x) => format!("raw={} z={} eq={} b={} v={} d={}", hex(&ser::raw(x)), x.is_zero() as u8, mask(x, &r.fr),
            hex(&x.into_bytes()), hex(&Vec::<u8>::from(*x)), hex(format!("{}|{:?}", x, x).as_bytes())),
        Val::G1(x) => format!("raw={} z={} eq={} b={} v={} d={}", hex(&ser::raw(x)), x.is_zero() as u8, mask(x, &r.g1),
            hex(&x.into_bytes()), hex(&Vec::<u8>::from(*x)), hex(format!("{}|{:?}", x, x).as_bytes())),
        Val::G2(x) => format!("raw={} z={} eq={} b={} v={} d={}", hex(&ser::raw(x)), x.is_zero() as u8, mask(x, &r.g2),
            hex(&x.into_bytes()), "-", hex(format!("|{:?}", x).as_bytes())),
        Val::Gt(x) => format!("raw={} z=- eq={} b={} v={} d={}", hex(&ser::raw(x)), mask(x, &r.gt),
            hex(&x.into_bytes()), hex(&Vec::<u8>::from(*x)), hex(format!("{}|{:?}", x, x).as_bytes())),
    }
}
fn raw_of(v: &Val) -> Vec<u8> {
    match v {
        Val::Fr(x) => ser::raw(x),
        Val::G1(x) => ser::raw(x),
        Val::G2(x) => ser::raw(x),
        Val::Gt(x) => ser::raw(x),
    }
}
fn store(v: &Val, d: usize, r: &mut Regs) {
    match v {
        Val::Fr(x) => r.fr[d] = *x,
        Val::G1(x) => r.g1[d] = *x,
        Val::G2(x) => r.g2[d] = *x,
        Val::Gt(x) => r.gt[d] = *x,
    }
}
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into());
        m.replace('\n', " ")
    })
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[2]).expect("program");
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    let mut regs = Regs {
        fr: [Fr::zero(); N],
        g1: [G1::zero(); N],
        g2: [G2::zero(); N],
        gt: [Gt::one(); N],
    };
    // recorded events: operands are the whole register file, which is Copy
    let mut stream = Stream { format: String::new(), data: vec![], pos: 0, pend: Default::default() };
    let soak = args[1] == "soak";
    let par = args[1] == "par" || soak;
    let mut hist: Vec<(usize, String, Regs, Option<Out>)> = vec![];
    for (n, l) in text.lines().enumerate() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.is_empty() { continue }
        // announced first, so that a hang or an abort can be attributed
        write!(out, "{} ", n).unwrap();
        out.flush().unwrap();
        let before = regs;
        let streamed = f[0].starts_with("st.") || f[0].ends_with(".take");
        let res = if f[0].ends_with(".take") {
            Ok(stream.pend.pop_front().map(Out::Val).unwrap_or(Out::Rejected("nothing to take")))
        } else if streamed {
            guarded(|| stream.event(&f[0][3..], &f[1..], &before))
        } else {
            guarded(|| eval(f[0], &f[1..], &before))
        };
        let line = match &res {
            Err(m) => format!("panic {}", m),
            Ok(Out::Rejected(m)) => format!("ok rej={}", m),
            Ok(Out::Text(t)) => format!("ok {}", t),
            Ok(Out::Val(v)) => match guarded(|| describe(v, &before)) {
                Err(m) => format!("panic {}", m),
                Ok(t) => {
                    let d = if f[0].starts_with("std.") { 0 } else { ix(f[1]) };
                    store(v, d, &mut regs);
                    format!("ok {}", t)
                }
            },
        };
        writeln!(out, "{}", line).unwrap();
        if par && !streamed && !["stream", "sens", "feed", "fresh"].iter().any(|p| f[0].starts_with(p)) {
            hist.push((n, l.to_string(), before, res.ok()));
        }
    }
    if par {
        let threads: usize = args[3].parse().unwrap();
        let hist = std::sync::Arc::new(hist);
        let same = |e: &(usize, String, Regs, Option<Out>)| -> bool {
            let mut f: Vec<&str> = e.1.split_whitespace().collect();
            // a law that holds for a stream of operands holds for its beginning
            let short;
            if f[0].starts_with("law") && f.len() > 2 && ix(f[f.len() - 1]) >= 64 {
                short = (ix(f[f.len() - 1]) / 8).to_string();
                let k = f.len() - 1;
                f[k] = &short;
            }
            let again = guarded(|| eval(f[0], &f[1..], &e.2)).ok();
            match (&e.3, &again) {
                (None, None) => true,
                (Some(Out::Rejected(a)), Some(Out::Rejected(b))) => a == b,
                (Some(Out::Text(a)), Some(Out::Text(b))) => a == b,
                (Some(Out::Val(a)), Some(Out::Val(b))) => raw_of(a) == raw_of(b),
                _ => false,
            }
        };
        if soak {
            // long histories: every operation many times over in one process, on its recorded operands
            let mut by: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
            for (i, e) in hist.iter().enumerate() {
                let op = e.1.split_whitespace().next().unwrap().to_string();
                if !op.contains("c_") && !op.starts_with("law") {
                    by.entry(op).or_default().push(i);
                }
            }
            let (mut total, mut bad) = (0usize, vec![]);
            let start = std::time::Instant::now();
            for (op, idx) in &by {
                let goal = match op.as_str() {
                    "fr.add" | "fr.sub" | "fr.neg" | "fr.mul" | "fr.inv" | "fr.mulf" | "fr.interp" | "gt.mul" | "g1.add" | "g1.sub" | "g2.add"
                        | "g2.sub" | "g1.neg" | "g2.neg" | "fr.zero" | "fr.one" => 66_000,
                    "gt.inv" | "g1.norm" | "g2.norm" | "fr.pow" | "fr.slice" => 20_000,
                    "gt.pair" | "g1.mul" | "g2.mul" | "gt.pow" => 1_100,
                    "u.add" | "u.sub" | "u.neg" | "u.mul" | "u.invert" | "u.cmp" | "w.from" | "w.divrem" => 66_000,
                    _ => 300,
                } * threads / 8;
                for n in 0..goal {
                    if n % 64 == 0 && start.elapsed().as_secs() > 100 { break }
                    let j = idx[n % idx.len()];
                    total += 1;
                    if !same(&hist[j]) { bad.push(hist[j].0); break }
                }
            }
            let b: Vec<String> = bad.iter().map(|x| x.to_string()).collect();
            writeln!(out, "par thread=soak evaluated={} differ={}", total, b.join(",")).unwrap();
        }
        let mut hs = vec![];
        for t in 0..(if soak { 0 } else { threads }) {
            let hist = hist.clone();
            hs.push(std::thread::spawn(move || {
                let k = hist.len();
                let mut bad = vec![];
                for i in 0..k {
                    // a different order in every thread
                    let j = match t % 4 { 0 => k - 1 - i, 1 => (i + k / 2) % k, 2 => i, _ => (i * 7 + t) % k };
                    if !same(&hist[j]) { bad.push(hist[j].0) }
                }
                (t, k, bad)
            }));
        }
        for h in hs {
            match h.join() {
                Ok((t, k, bad)) => {
                    let b: Vec<String> = bad.iter().map(|x| x.to_string()).collect();
                    writeln!(out, "par thread={} evaluated={} differ={}", t, k, b.join(",")).unwrap();
                }
                Err(_) => writeln!(out, "par thread=? evaluated=0 differ=panic").unwrap(),
            }
        }
    }
    writeln!(out, "end").unwrap();
}
