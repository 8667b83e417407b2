//! Chains (long runs of calls of which the end is observed) and laws over streams of operands; see spec/chains.qnt.
use super::*;

/// stream of operands: words at which carries, signs and shifts turn, and random ones
struct Src(u64);
const WL: [u64; 16] = [0, 1, 2, 3, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, !0, !0 - 1, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa,
    0x7000000000000001, (1 << 32) - 1, 1 << 32, !0 << 32, 0x3333333333333333];
const RW: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
impl Src {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> usize {
        ((self.next() >> 11) % n) as usize
    }
    fn word(&mut self) -> u64 {
        match self.below(12) {
            0..=4 => WL[self.below(16)],
            5 => 1 << self.below(64),
            6 => (1u64 << self.below(64)) - 1,
            7 => !0u64 << self.below(64),
            8 => self.next() << self.below(64),
            9 => self.next() >> self.below(64),
            _ => self.next(),
        }
    }
    fn raw<const K: usize>(&mut self) -> [u64; K] {
        let mut w = [0u64; K];
        let style = self.below(12);
        for i in 0..K {
            w[i] = match style {
                0..=3 => self.next(),
                4 if i > 0 => w[0],
                _ => self.word(),
            };
        }
        match style {
            5 => w[1..].iter_mut().for_each(|x| *x = 0),
            6 => w[K / 2..].iter_mut().for_each(|x| *x = 0),
            7 => w[..K / 2].iter_mut().for_each(|x| *x = 0),
            8 if K == 4 => {
                // next to a modulus, or some words of it
                for i in 0..4 {
                    if self.below(4) > 0 { w[i] = RW[i] }
                }
                w[0] = w[0].wrapping_add(self.below(5) as u64).wrapping_sub(2);
            }
            _ => {}
        }
        w
    }
    /// next to a small multiple of m modulo a high power of two: binary Euclid shifts one bit at a time
    fn slow(&mut self, m: &[u64; 4]) -> [u64; 4] {
        let top = (0..256).rev().find(|i| m[i / 64] >> (i % 64) & 1 == 1).unwrap_or(0) + 1;
        let j = if self.below(3) == 0 { 1 + self.below(top as u64) } else { top - self.below(top.min(12) as u64) };
        let k = 1 + 2 * self.below(4) as u128;
        let (mut w, mut c) = ([0u64; 4], 0u128);
        for i in 0..4 {
            c += m[i] as u128 * k;
            w[i] = c as u64;
            c >>= 64;
        }
        if self.below(4) > 0 {
            let mut c = true;
            for i in 0..4 {
                let (x, o) = (!w[i]).overflowing_add(c as u64);
                w[i] = x;
                c = o;
            }
        }
        let t = self.below(9) as u128;
        for i in 0..4 {
            if 64 * i + 64 > j { w[i] &= if 64 * i >= j { 0 } else { (1u64 << (j % 64)) - 1 } }
        }
        if j < 256 {
            let (i, v) = (j / 64, t << (j % 64));
            w[i] |= v as u64;
            if i < 3 { w[i + 1] |= (v >> 64) as u64 }
        }
        w
    }
    /// four words below m
    fn under(&mut self, m: &[u64; 4]) -> [u64; 4] {
        loop {
            let mut w = if self.below(10) == 0 { self.slow(m) } else { self.raw::<4>() };
            if !less(&w, m) {
                w[3] = if m[3] == 0 { 0 } else { w[3] % m[3] };
            }
            if less(&w, m) {
                return w;
            }
            if m[3] == 0 {
                w[2] = if m[2] == 0 { 0 } else { w[2] % m[2] };
                if m[2] == 0 { w[1] = if m[1] == 0 { 0 } else { w[1] % m[1] } }
                if m[2] == 0 && m[1] == 0 { w[0] %= m[0] }
                if less(&w, m) {
                    return w;
                }
            }
        }
    }
    /// a scalar, by its value or by the words of its representation, and its value
    fn fr(&mut self) -> (Fr, [u64; 4]) {
        let w = self.under(&RW);
        match self.below(4) {
            0 => {
                let b: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
                let x = ser::from_raw::<Fr>(&b).expect("words below the modulus");
                (x, int(&x))
            }
            1 => {
                // few bits, long runs
                let mut v = [0u64; 4];
                match self.below(3) {
                    0 => for _ in 0..1 + self.below(3) { let k = self.below(254); v[k / 64] |= 1 << (k % 64) },
                    1 => { let (a, b) = (self.below(254), self.below(254)); for k in a.min(b)..a.max(b) { v[k / 64] |= 1 << (k % 64) } }
                    _ => v[0] = self.below(70) as u64,
                }
                if !less(&v, &RW) { v[3] = 0 }
                (Fr::new_mul_factor(U256(v)), v)
            }
            2 if self.below(3) == 0 => { let x = -Fr::new_mul_factor(U256([self.below(70) as u64, 0, 0, 0])); (x, int(&x)) }
            _ => (Fr::new_mul_factor(U256(w)), w),
        }
    }
}
fn less(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
fn be(w: &[u64]) -> Vec<u8> {
    w.iter().rev().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}
/// the residue a scalar stands for
fn int(x: &Fr) -> [u64; 4] {
    // 2^-256 modulo the order
    let winv = Fr::from_str("9915499612839321149637521777990102151350674507940716049588462388200839649614").unwrap();
    let b = (*x * winv).into_bytes();
    let mut w = [0u64; 4];
    for i in 0..4 {
        let mut c = [0u8; 8];
        c.copy_from_slice(&b[8 * i..8 * i + 8]);
        w[i] = u64::from_be_bytes(c);
    }
    w
}
/// decimal digits, at least `width`
fn dec(w: &[u64], width: usize) -> String {
    let mut w = w.to_vec();
    let mut s: Vec<u8> = vec![];
    while w.iter().any(|x| *x != 0) {
        let mut rem = 0u128;
        for x in w.iter_mut().rev() {
            let t = rem << 64 | *x as u128;
            *x = (t / 10) as u64;
            rem = t % 10;
        }
        s.push(b'0' + rem as u8);
    }
    while s.len() < width {
        s.push(b'0');
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
/// v + k m, if below 2^256
fn alias(v: &[u64; 4], k: usize) -> [u64; 4] {
    let mut w = *v;
    for _ in 0..k {
        let (mut c, mut s) = (0u128, [0u64; 4]);
        for i in 0..4 {
            c += w[i] as u128 + RW[i] as u128;
            s[i] = c as u64;
            c >>= 64;
        }
        if c > 0 {
            return w;
        }
        w = s;
    }
    w
}

fn step_n<T: Copy>(n: usize, x: T, f: impl Fn(usize, T) -> T) -> T {
    (0..n).fold(x, |x, i| f(i, x))
}
fn try_n<T: Copy>(n: usize, x: T, w: fn(T) -> Val, f: impl Fn(usize, T) -> Option<T>) -> Out {
    let mut x = x;
    for i in 0..n {
        match f(i, x) {
            Some(y) => x = y,
            None => return Out::Rejected("none"),
        }
    }
    Out::Val(w(x))
}
pub fn fr(op: &str, a: &[&str], f: &[Fr; N]) -> Out {
    let v = |x: Fr| Out::Val(Val::Fr(x));
    let x = f[ix(a[1])];
    let r = |i: usize| f[ix(a[i])];
    match op {
        "c_lin" => { let (b, c) = (r(2), r(3)); v(step_n(ix(a[4]), x, |_, x| x * b + c)) }
        "c_rlin" => { let (b, c) = (r(2), r(3)); v(step_n(ix(a[4]), x, |_, x| c - b * x)) }
        "c_nlin" => { let (b, c) = (r(2), r(3)); v(step_n(ix(a[4]), x, |_, x| -(x * b) - c)) }
        "c_fib" => v(step_n(ix(a[3]), (x, r(2)), |_, (x, y)| (y, x + y)).0),
        "c_fibs" => v(step_n(ix(a[3]), (x, r(2)), |_, (x, y)| (y, x - y)).0),
        "c_sq" => v(step_n(ix(a[2]), x, |_, x| x * x)),
        "c_mob" => {
            let c = r(2);
            let o = step_n(ix(a[3]), Some(x), |_, x| match x {
                None => Some(Fr::zero()),
                Some(x) => (x + c).inverse(),
            });
            opt(o, Val::Fr)
        }
        "c_pow" => { let k = r(2); v(step_n(ix(a[3]), x, |_, x| x.pow(k))) }
        "c_interp" => {
            let b = r(2);
            v(step_n(ix(a[3]), x, |_, x| {
                let mut t = [0u8; 64];
                t[..32].copy_from_slice(&be(&int(&x)));
                t[32..].copy_from_slice(&be(&int(&(x * b))));
                Fr::interpret(&t)
            }))
        }
        "c_str" => { let b = r(2); try_n(ix(a[3]), x, Val::Fr, |_, x| Fr::from_str(&(dec(&int(&x), 77) + &dec(&int(&(b * x)), 77)))) }
        "c_slice" => { let b = r(2); try_n(ix(a[3]), x, Val::Fr, |i, x| Fr::from_slice(&be(&alias(&int(&(b * x)), i % 6))).ok()) }
        "c_mulf" => { let b = r(2); v(step_n(ix(a[3]), x, |i, x| Fr::new_mul_factor(U256(alias(&int(&(x * b)), i % 6))))) }
        "c_ser" => { let (b, c) = (r(2), r(3)); try_n(ix(a[4]), x, Val::Fr, |_, x| ser::dec(&ser::enc(&(x * b + c), a[5]), a[5])) }
        _ => panic!("HARNESS unknown chain {}", op),
    }
}
pub fn group<G: Group + Ser>(op: &str, a: &[&str], reg: &[G; N], fr: &[Fr; N], w: fn(G) -> Val) -> Out {
    let v = |g: G| Out::Val(w(g));
    let (q, p) = (reg[ix(a[1])], reg[ix(a[2])]);
    match op {
        "c_add" => v(step_n(ix(a[3]), q, |_, q| q + p)),
        "c_radd" => v(step_n(ix(a[3]), q, |_, q| p + q)),
        "c_sub" => v(step_n(ix(a[3]), q, |_, q| q - p)),
        "c_dad" => v(step_n(ix(a[3]), q, |_, q| (q + q) + p)),
        "c_pds" => v(step_n(ix(a[3]), q, |_, q| p - (q + q))),
        "c_nds" => v(step_n(ix(a[3]), q, |_, q| -(q + q) - p)),
        "c_fib" => v(step_n(ix(a[3]), (q, p), |_, (x, y)| (y, x + y)).0),
        "c_fibs" => v(step_n(ix(a[3]), (q, p), |_, (x, y)| (y, x - y)).0),
        "c_mul" => { let k = fr[ix(a[3])]; v(step_n(ix(a[4]), q, |_, q| q * k + p)) }
        "c_norm" => v(step_n(ix(a[3]), q, |_, q| { let mut s = q + p; s.normalize(); s })),
        "c_ser" => try_n(ix(a[3]), q, w, |_, q| ser::dec(&ser::enc(&(q + p), a[4]), a[4])),
        _ => panic!("HARNESS unknown chain {}", op),
    }
}
pub fn gt(op: &str, a: &[&str], r: &Regs) -> Out {
    let v = |x: Gt| Out::Val(Val::Gt(x));
    if op == "c_pair" {
        let (mut p, mut q, p2, q2) = (r.g1[ix(a[1])], r.g2[ix(a[2])], r.g1[ix(a[3])], r.g2[ix(a[4])]);
        let mut t = Gt::one();
        for _ in 0..ix(a[5]) {
            t = t * pairing(p, q);
            p = p + p2;
            q = q + q2;
        }
        return v(t);
    }
    let (t, u) = (r.gt[ix(a[1])], r.gt[ix(a[2])]);
    match op {
        "c_mul" => v(step_n(ix(a[3]), t, |_, t| t * u)),
        "c_sqm" => v(step_n(ix(a[3]), t, |_, t| (t * t) * u)),
        "c_inv" => v(step_n(ix(a[3]), t, |_, t| t.inverse() * u)),
        "c_isq" => v(step_n(ix(a[3]), t, |_, t| (t * t).inverse() * u)),
        "c_fib" => v(step_n(ix(a[3]), (t, u), |_, (x, y)| (y, x * y)).0),
        "c_pow" => { let k = r.fr[ix(a[3])]; v(step_n(ix(a[4]), t, |_, t| t.pow(k) * u)) }
        "c_ser" => try_n(ix(a[3]), t, Val::Gt, |_, t| ser::dec(&ser::enc(&(t * u), a[4]), a[4])),
        _ => panic!("HARNESS unknown chain {}", op),
    }
}

// ------------------------------------------------------------------ laws
fn bits(k: &[u64; 4]) -> impl Iterator<Item = bool> + '_ {
    (0..256).rev().map(move |i| k[i / 64] >> (i % 64) & 1 == 1)
}
/// multiplication by definition: doublings and additions
fn times<G: Group>(q: G, k: &[u64; 4]) -> G {
    bits(k).skip_while(|b| !b).fold(G::zero(), |acc, b| { let d = acc + acc; if b { d + q } else { d } })
}
fn all(n: usize, mut f: impl FnMut(usize) -> bool) -> Out {
    match (0..n).find(|i| !f(*i)) {
        None => Out::Text("r=1".into()),
        Some(i) => Out::Text(format!("r=0 at={}", i)),
    }
}
fn laws_group<G: Group>(q: G, p: G, src: &mut Src, n: usize) -> Out {
    let mut pool: Vec<G> = vec![q, p, G::zero(), G::one(), -q, -p, q + p, q - p, q + q, G::one() + G::one()];
    all(n, |_| {
        let (i, j, k) = (src.below(10), src.below(10), src.below(10));
        let (x, z) = (pool[i], pool[k]);
        let y = match src.below(8) { 0 => x, 1 => -x, 2 => (x + z) - z, 3 => -((x - z) + z), _ => pool[j] };
        let s = x + y;
        let d = x - y;
        let mut m = s;
        m.normalize();
        let ok = s == y + x && (x + y) + z == x + (y + z) && d == -(y - x) && d + y == x && (x == y) == d.is_zero()
            && (x == -y) == s.is_zero() && m == s && (x + G::zero()) == x && (G::zero() - x) == -x && x - x == G::zero()
            && -(-x) == x && (x == y) == (y == x) && s + s == (x + x) + (y + y) && m + z == s + z && z - m == z - s;
        pool[src.below(10)] = if src.below(3) == 0 { d } else { s };
        ok
    })
}
fn laws_race<G: Group + Ser>(q: G, p: G, src: &mut Src, n: usize) -> Out {
    let (mut x, mut y) = (q, (q + p) - p);
    all(n, |_| {
        x = x + p;
        y = match src.below(6) {
            0 => p + y,
            1 => y - (-p),
            2 => { y.normalize(); y + p }
            3 => ((y + y) + p) - y,
            4 => -((-y) - p),
            _ => (y - (p + p)) + (p + (p + p)) - p + p,
        };
        if src.below(6) == 5 { y = via(y, 3 + src.below(2)) }
        if src.below(6) == 5 { x = x - p; y = y - p; x = x + p; y = y + p }
        let (mut a, mut b) = (x, y);
        a.normalize();
        b.normalize();
        let mut c = a;
        c.normalize();
        x == y && y == x && (x - y).is_zero() && (x == y + p) == p.is_zero() && (x == -y) == (x + y).is_zero() && a == y && b == x
            && ser::raw(&a) == ser::raw(&b) && a.into_bytes() == b.into_bytes() && ser::raw(&a) == ser::raw(&c) && (x.is_zero() == (x == G::zero()))
    })
}
// ------------------------------------------------------------------ data from outside
const PW: [u64; 4] = [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
/// sum of two integers below P, reduced
fn add_p(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let (mut t, mut c) = ([0u64; 4], 0u128);
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        t[i] = c as u64;
        c >>= 64;
    }
    if less(&t, &PW) { t } else { sub_w(&t, &PW) }
}
fn sub_w(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let (mut t, mut c) = ([0u64; 4], false);
    for i in 0..4 {
        let (x, o) = a[i].overflowing_sub(b[i]);
        let (y, q) = x.overflowing_sub(c as u64);
        t[i] = y;
        c = o || q;
    }
    t
}
fn mul_p(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 4];
    for i in (0..256).rev() {
        t = add_p(&t, &t);
        if b[i / 64] >> (i % 64) & 1 == 1 { t = add_p(&t, a) }
    }
    t
}
/// products of coordinates: one element of Fp, or two of Fp2 = Fp[i] / (i^2 + 1)
fn mul_k(a: &[[u64; 4]], b: &[[u64; 4]]) -> Vec<[u64; 4]> {
    if a.len() == 1 {
        return vec![mul_p(&a[0], &b[0])];
    }
    let neg = |x: [u64; 4]| if x == [0; 4] { x } else { sub_w(&PW, &x) };
    vec![add_p(&mul_p(&a[0], &b[0]), &neg(mul_p(&a[1], &b[1]))), add_p(&mul_p(&a[0], &b[1]), &mul_p(&a[1], &b[0]))]
}
fn words_of(b: &[u8]) -> Vec<[u64; 4]> {
    b.chunks(32).map(|c| { let mut w = [0u64; 4]; for i in 0..4 { let mut e = [0u8; 8]; e.copy_from_slice(&c[8 * i..8 * i + 8]); w[i] = u64::from_le_bytes(e) } w }).collect()
}
fn bytes_of(w: &[[u64; 4]]) -> Vec<u8> {
    w.iter().flat_map(|x| x.iter().flat_map(|y| y.to_le_bytes().to_vec()).collect::<Vec<u8>>()).collect()
}
/// other words of a genuine value; None when they would be the same, or those of the identity
fn altered(b: &[u8], s: &mut Src, zlen: usize) -> Option<Vec<u8>> {
    let mut c = b.to_vec();
    let nb = b.len() as u64;
    match s.below(9) {
        0..=2 => { let k = s.below(8 * nb); c[k / 8] ^= 1 << (k % 8) }
        3 => for _ in 0..2 + s.below(2) { let k = s.below(8 * nb); c[k / 8] ^= 1 << (k % 8) },
        4 => { let k = s.below(nb / 8); let w = s.word(); c[8 * k..8 * k + 8].copy_from_slice(&w.to_le_bytes()) }
        5 => { let (i, j) = (s.below(nb / 8), s.below(nb / 8)); for t in 0..8 { c.swap(8 * i + t, 8 * j + t) } }
        6 => {
            // the same residue, out of range
            let k = s.below(nb / 32);
            let mut carry = 0u128;
            for i in 0..4 {
                let mut e = [0u8; 8];
                e.copy_from_slice(&c[32 * k + 8 * i..32 * k + 8 * i + 8]);
                carry += u64::from_le_bytes(e) as u128 + (if zlen == 0 { RW } else { PW })[i] as u128;
                c[32 * k + 8 * i..32 * k + 8 * i + 8].copy_from_slice(&(carry as u64).to_le_bytes());
                carry >>= 64;
            }
        }
        7 => { let k = s.below(nb); c.truncate(k) }
        _ => { let (i, j) = (s.below(nb / 32), s.below(nb / 32)); for t in 0..32 { c.swap(32 * i + t, 32 * j + t) } }
    }
    if c == b || (zlen > 0 && c.len() == b.len() && c[b.len() - zlen..].iter().all(|x| *x == 0)) { None } else { Some(c) }
}
fn laws_forge<T: Ser + Copy>(v: T, zlen: usize, s: &mut Src, n: usize) -> Out {
    let b = ser::raw(&v);
    all(n, |_| match altered(&b, s, zlen) { None => true, Some(c) => ser::from_raw::<T>(&c).is_none() })
}
/// every representation of a genuine point is taken for this point
fn laws_lift<G: Group + Ser>(v: G, s: &mut Src, n: usize) -> Out {
    let w = words_of(&ser::raw(&v));
    let k = w.len() / 3;
    all(n, |_| {
        let l: Vec<[u64; 4]> = (0..k).map(|_| s.under(&PW)).collect();
        if l.iter().all(|x| *x == [0; 4]) {
            return true;
        }
        let c = lifted(&w, &l);
        match ser::from_raw::<G>(&bytes_of(&c)) { None => false, Some(q) => q == v && ser::raw(&q) == bytes_of(&c) && (q - v).is_zero() }
    })
}
pub fn law(op: &str, a: &[&str], r: &Regs) -> Option<Out> {
    let n = ix(a[a.len() - 1]);
    let mut src = Src(a.get(a.len().wrapping_sub(2))?.parse().ok()?);
    let s = &mut src;
    Some(match op {
        "ring" => all(n, |_| {
            let ((x, _), (y, _), (z, _)) = (s.fr(), s.fr(), s.fr());
            let p = x * y;
            x + y == y + x && p == y * x && (x + y) + z == x + (y + z) && p * z == x * (y * z) && (x + y) * z == x * z + y * z
                && x - y == -(y - x) && (x - y) + y == x && (x - y) * z == x * z - y * z && x + -x == Fr::zero() && (x - x).is_zero()
                && (x == y) == (x - y).is_zero() && x * (y + Fr::one()) == p + x && x * Fr::one() == x && x + Fr::zero() == x && -(-x) == x
                && (-x) * y == -p && (x + x) == x * (Fr::one() + Fr::one()) && (x * x) - (y * y) == (x - y) * (x + y)
        }),
        "frinv" => all(n, |_| {
            let (x, _) = s.fr();
            match x.inverse() {
                None => x == Fr::zero(),
                Some(y) => !x.is_zero() && x * y == Fr::one() && y.inverse() == Some(x) && (-x).inverse() == Some(-y),
            }
        }),
        "frpow" => all(n, |_| {
            let ((x, _), (e, k)) = (s.fr(), s.fr());
            x.pow(e) == bits(&k).skip_while(|b| !b).fold(Fr::one(), |acc, b| { let d = acc * acc; if b { d * x } else { d } })
        }),
        "frrace" => {
            let (b, c) = (r.fr[ix(a[1])], r.fr[ix(a[2])]);
            let (mut x, mut y) = (r.fr[ix(a[0])], r.fr[ix(a[0])]);
            all(n, |_| {
                x = x * b + c;
                y = match s.below(5) {
                    0 => c + b * y,
                    1 => c - (-(y * b)),
                    2 => { let t = y * b; (t - Fr::one()) + (c + Fr::one()) }
                    3 => -((-y) * b - c),
                    _ => Fr::new_mul_factor(U256(alias(&int(&(y * b + c)), s.below(6)))),
                };
                x == y && (x - y).is_zero() && x.into_bytes() == y.into_bytes() && ser::raw(&x) == ser::raw(&y)
                    && format!("{:?} {}", x, x) == format!("{:?} {}", y, y) && x != y + Fr::one() && x.is_zero() == (x == Fr::zero())
                    && (x == -y) == (x + y).is_zero()
            })
        }
        "decode" => all(n, |_| {
            let (h, l) = (s.raw::<4>(), s.raw::<4>());
            let w = Fr::new_mul_factor(U256([0, 1, 0, 0]));
            let one = |v: &[u64; 4]| {
                let x = |i: usize| Fr::new_mul_factor(U256([v[i], 0, 0, 0]));
                ((x(3) * w + x(2)) * w + x(1)) * w + x(0)
            };
            let (fh, fl) = (Fr::new_mul_factor(U256(h)), Fr::new_mul_factor(U256(l)));
            let mut b = [0u8; 64];
            b[..32].copy_from_slice(&be(&h));
            b[32..].copy_from_slice(&be(&l));
            let all8: Vec<u64> = l.iter().chain(h.iter()).cloned().collect();
            let zeros = s.below(4);
            let (dh, dl) = (dec(&h, 0), dec(&l, 78));
            let ten = Fr::new_mul_factor(U256([10, 0, 0, 0]));
            let e78 = (0..78).fold(Fr::one(), |t, _| t * ten);
            fh == one(&h) && fl == one(&l) && Fr::from_slice(&be(&h)).ok() == Some(fh) && Fr::from_slice(&be(&l)).ok() == Some(fl)
                && Fr::from_str(&dh) == Some(fh) && Fr::from_str(&dl) == Some(fl) && Fr::interpret(&b) == fh * (w * w * w * w) + fl
                && Fr::from_str(&(dec(&[], zeros) + &dec(&all8, 0))) == Some(Fr::interpret(&b))
                && Fr::from_str(&(dh.clone() + &dl)) == Some(fh * e78 + fl)
        }),
        // one character that is no ASCII digit, anywhere in a number
        "badstr" => all(n, |_| {
            let c = loop {
                let x = match s.below(5) { 0 => s.below(0x100), 1 => s.below(0x3000), 2 => s.below(0x10000), 3 => 0x30 + 0x100 * s.below(0x1100), _ => s.below(0x110000) };
                if let Some(c) = char::from_u32(x as u32) {
                    if !c.is_ascii_digit() { break c }
                }
            };
            let mut t: Vec<char> = dec(&s.raw::<4>()[..1 + s.below(4)], s.below(6)).chars().collect();
            let at = match s.below(3) { 0 => 0, 1 => t.len(), _ => s.below(t.len() as u64 + 1) };
            t.insert(at, c);
            Fr::from_str(&t.iter().collect::<String>()).is_none()
        }),
        "group1" => laws_group(r.g1[ix(a[0])], r.g1[ix(a[1])], s, n),
        "group2" => laws_group(r.g2[ix(a[0])], r.g2[ix(a[1])], s, n),
        "race1" => laws_race(r.g1[ix(a[0])], r.g1[ix(a[1])], s, n),
        "race2" => laws_race(r.g2[ix(a[0])], r.g2[ix(a[1])], s, n),
        "forgefr" => all(n, |_| {
            // a scalar is accepted exactly when its words are below the order
            let w = if s.below(2) == 0 { s.raw::<4>() } else { let x = s.under(&RW); if s.below(2) == 0 { let mut c = x; let k = s.below(256); c[k / 64] ^= 1 << (k % 64); c } else { x } };
            let b = bytes_of(&[w]);
            let right = match ser::from_raw::<Fr>(&b) { None => !less(&w, &RW), Some(x) => less(&w, &RW) && ser::raw(&x) == b };
            right && ser::from_raw::<Fr>(&b[..s.below(32)]).is_none()
        }),
        "forge1" => { let q = r.g1[ix(a[0])]; laws_forge(if q.is_zero() { G1::one() } else { q }, 32, s, n) }
        "forge2" => { let q = r.g2[ix(a[0])]; laws_forge(if q.is_zero() { G2::one() } else { q }, 64, s, n) }
        "forgegt" => { let t = r.gt[ix(a[0])]; laws_forge(if t == Gt::one() { pairing(G1::one(), G2::one()) } else { t }, 384, s, n) }
        "lift1" => { let q = r.g1[ix(a[0])]; laws_lift(if q.is_zero() { G1::one() } else { q }, s, n) }
        "lift2" => { let q = r.g2[ix(a[0])]; laws_lift(if q.is_zero() { G2::one() } else { q }, s, n) }
        "mul1" => { let q = r.g1[ix(a[0])]; all(n, |_| { let (e, k) = s.fr(); q * e == times(q, &k) }) }
        "mul2" => { let q = r.g2[ix(a[0])]; all(n, |_| { let (e, k) = s.fr(); q * e == times(q, &k) }) }
        "gtpow" => {
            let t = r.gt[ix(a[0])];
            all(n, |_| {
                let (e, k) = s.fr();
                t.pow(e) == bits(&k).skip_while(|b| !b).fold(Gt::one(), |acc, b| { let d = acc * acc; if b { d * t } else { d } })
            })
        }
        "gtgroup" => {
            let (t, u) = (r.gt[ix(a[0])], r.gt[ix(a[1])]);
            let mut pool = vec![t, u, Gt::one(), t * u, t.inverse(), u.inverse(), t * t, t * u.inverse()];
            all(n, |_| {
                let (x, z) = (pool[s.below(8)], pool[s.below(8)]);
                let y = match s.below(6) { 0 => x, 1 => x.inverse(), 2 => (x * z) * z.inverse(), _ => pool[s.below(8)] };
                let p = x * y;
                let ok = p == y * x && p * z == x * (y * z) && x * x.inverse() == Gt::one() && p.inverse() == x.inverse() * y.inverse()
                    && x.inverse().inverse() == x && p * y.inverse() == x && (x == y) == (x * y.inverse() == Gt::one()) && x * Gt::one() == x
                    && p.into_bytes() == (y * x).into_bytes() && (p * p) == (x * x) * (y * y);
                pool[s.below(8)] = if s.below(3) == 0 { p.inverse() } else { p };
                ok
            })
        }
        "pairing" => {
            let (p, q) = (r.g1[ix(a[0])], r.g2[ix(a[1])]);
            let e = pairing(p, q);
            all(n, |_| {
                let ((x, _), (y, _)) = (s.fr(), s.fr());
                let (px, qy) = (p * x, q * y);
                let f = e.pow(x * y);
                // the same point in other coordinates, and the opposite point in coordinates that share some
                let (a, b) = (via(px, s.below(5)), via(qy, s.below(5)));
                pairing(px, qy) == f && if s.below(2) == 0 { pairing(a, b) == f } else { pairing(via(-px, 3), qy) * f == Gt::one() && pairing(px, via(-qy, 3)) * f == Gt::one() }
            })
        }
        "agree" => {
            let k0 = r.fr[ix(a[0])];
            let sent1 = |p: G1, how: usize| -> G1 { via(p, how) };
            let sent2 = |p: G2, how: usize| -> G2 { via(p, how) };
            all(n, |_| {
                let (x, y, z) = (s.fr().0 + k0, s.fr().0, s.fr().0 - k0);
                let (p, q) = (G1::one(), G2::one());
                let h = [s.below(5), s.below(5), s.below(5)];
                let (px, py, pz) = (sent1(p * x, h[0]), sent1(p * y, h[1]), sent1(p * z, h[2]));
                let (qx, qy, qz) = (sent2(q * x, h[1]), sent2(q * y, h[2]), sent2(q * z, h[0]));
                px * y == py * x && qy * z == qz * y && (px * y) * z == sent1(pz * x, h[1]) * y && sent2(qx * y, h[2]) * z == (qz * y) * x && {
                    let k = pairing(py, qz).pow(x);
                    k == pairing(pz, qy).pow(x) && k == pairing(px, qz).pow(y) && k == pairing(px, qy).pow(z)
                }
            })
        }
        "sign" => {
            let h0 = r.fr[ix(a[0])];
            all(n, |_| {
                let (x, y, m) = (s.fr().0, s.fr().0, s.fr().0 + h0);
                let (h, q) = (G1::one() * m, G2::one());
                let (kx, ky) = (q * x, q * y);
                let (sx, sy) = (h * x, h * y);
                let (ex, exy) = (pairing(h, kx), pairing(h, via(kx + ky, s.below(5))));
                // the product form: e(S, Q) e(-H, K) = 1, the opposites in every representation
                let (nh, nk, ns) = (via(-h, s.below(5)), via(-kx, s.below(5)), via(-sx, s.below(5)));
                let product = pairing(h, kx) * pairing(nh, kx) == Gt::one() && pairing(sx, q) * pairing(nh, kx) == Gt::one()
                    && pairing(h, nk) * pairing(sx, q) == Gt::one() && pairing(ns, q) * ex == Gt::one() && pairing(sx, q) * pairing(ns, q) == Gt::one();
                product && pairing(via(sx, s.below(5)), q) == ex && pairing(sx + sy, q) == exy && (pairing(sy, q) == ex) == (sx == sy)
                    && pairing(sx + G1::one(), q) != ex && (pairing(-sx, q) == ex) == sx.is_zero()
            })
        }
        _ => return None,
    })
}
/// as sent, normalized, or through a wire format
fn via<G: Group + Ser>(p: G, how: usize) -> G {
    match how {
        0 => p,
        1 => { let mut q = p; q.normalize(); q }
        2 => ser::from_raw(&ser::raw(&p)).expect("round trip"),
        // other coordinates of the same point: (X, -Y, -Z), or by a cube root of unity (w X, Y, Z / w)
        _ if p.is_zero() => p,
        3 => { let w = words_of(&ser::raw(&p)); ser::from_raw(&bytes_of(&lifted(&w, &unit(&w, MINUS1)))).expect("other coordinates") }
        _ => { let w = words_of(&ser::raw(&p)); ser::from_raw(&bytes_of(&lifted(&w, &unit(&w, OMEGA)))).expect("other coordinates") }
    }
}
/// -1 and a cube root of unity
const MINUS1: [u64; 4] = [0x3c208c16d87cfd46, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
const OMEGA: [u64; 4] = [0xe4bd44e5607cfd48, 0xc28f069fbb966e3d, 0x5e6dd9e7e0acccb0, 0x30644e72e131a029];
fn unit(w: &[[u64; 4]], l: [u64; 4]) -> Vec<[u64; 4]> {
    if w.len() == 3 { vec![l] } else { vec![l, [0; 4]] }
}
/// the Jacobian coordinates (X l^2, Y l^3, Z l)
fn lifted(w: &[[u64; 4]], l: &[[u64; 4]]) -> Vec<[u64; 4]> {
    let k = w.len() / 3;
    let l2 = mul_k(l, l);
    let mut c = mul_k(&w[..k], &l2);
    c.extend(mul_k(&w[k..2 * k], &mul_k(&l2, l)));
    c.extend(mul_k(&w[2 * k..], l));
    c
}

// ------------------------------------------------------------------ wide integers
fn cmp_words(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
    a.iter().rev().cmp(b.iter().rev())
}
pub fn arith(op: &str, a: &[&str]) -> Out {
    let m = words::<4>(a[0]);
    let mut src = Src(a[1].parse().unwrap());
    let s = &mut src;
    let n = ix(a[2]);
    let md = U256(m);
    // -1/m modulo 2^64
    let mut inv = 1u64;
    for _ in 0..6 {
        inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
    }
    let inv = inv.wrapping_neg();
    let add = |x: &U256, y: &U256| { let mut t = *x; t.add(y, &md); t };
    let sub = |x: &U256, y: &U256| { let mut t = *x; t.sub(y, &md); t };
    let neg = |x: &U256| { let mut t = *x; t.neg(&md); t };
    let mul = |x: &U256, y: &U256| { let mut t = *x; t.mul(y, &md, inv); t };
    match op {
        "ring" => all(n, |_| {
            let (x, y, z) = (U256(s.under(&m)), U256(s.under(&m)), U256(s.under(&m)));
            let (p, t, d) = (mul(&x, &y), add(&x, &y), sub(&x, &y));
            [&p, &t, &d, &neg(&x)].iter().all(|v| less(&v.0, &m)) && t == add(&y, &x) && p == mul(&y, &x) && add(&t, &z) == add(&x, &add(&y, &z))
                && mul(&p, &z) == mul(&x, &mul(&y, &z)) && mul(&t, &z) == add(&mul(&x, &z), &mul(&y, &z)) && d == neg(&sub(&y, &x)) && add(&d, &y) == x
                && add(&x, &neg(&x)).is_zero() && (x == y) == d.is_zero() && mul(&d, &z) == sub(&mul(&x, &z), &mul(&y, &z)) && sub(&t, &y) == x
                && sub(&mul(&x, &x), &mul(&y, &y)) == mul(&d, &t)
        }),
        // prime moduli only
        "inv" => all(n, |_| {
            let x = U256(s.under(&m));
            if x.is_zero() {
                return true;
            }
            let mut y = x;
            y.invert(&md);
            let mut b = y;
            b.invert(&md);
            // x y = 1: the Montgomery product of x y 2^-256 is the same for every such pair
            let mut o = U256::one();
            o.invert(&md);
            less(&y.0, &m) && b == x && o == U256::one() && mul(&x, &y) == mul(&U256::one(), &U256::one())
        }),
        "order" => all(n, |_| {
            let x = s.raw::<4>();
            let mut y = s.raw::<4>();
            if s.below(3) > 0 {
                let keep = s.below(16);
                for i in 0..4 {
                    if keep >> i & 1 == 1 { y[i] = x[i] }
                }
            }
            let (u, v) = (U256(x), U256(y));
            let o = cmp_words(&x, &y);
            u.cmp(&v) == o && u.partial_cmp(&v) == Some(o) && (u == v) == (x == y) && (u != v) == (x != y) && (u < v) == (o == std::cmp::Ordering::Less)
                && (u >= v) == (o != std::cmp::Ordering::Less) && (u > v) == (o == std::cmp::Ordering::Greater) && (u <= v) == (o != std::cmp::Ordering::Greater)
                && u.is_zero() == (x == [0; 4]) && u.is_even() == (x[0] % 2 == 0) && u.max(v).0 == (if o == std::cmp::Ordering::Greater { x } else { y })
        }),
        "bits" => all(n, |_| {
            let x = s.raw::<4>();
            let u = U256(x);
            let mut z = U256::zero();
            let mut f = U256([!0; 4]);
            let it: Vec<bool> = u.bits().collect();
            let mut ok = it.len() == 256 && U256::from_slice(&be(&x)).ok() == Some(u) && ser::from_raw::<U256>(&ser::raw(&u)) == Some(u)
                && u.get_bit(256).is_none() && u.into_bytes() == x.iter().flat_map(|w| w.to_be_bytes().to_vec()).collect::<Vec<u8>>();
            for k in 0..256 {
                let b = x[k / 64] >> (k % 64) & 1 == 1;
                ok = ok && u.get_bit(k) == Some(b) && it[255 - k] == b && z.set_bit(k, b) && f.set_bit(k, b);
            }
            ok && z == u && f == u
        }),
        "div" => all(n, |_| {
            // composition and division undo one another
            let mut d = s.raw::<4>();
            if s.below(3) == 0 { d = m }
            d[3] &= (1 << 62) - 1;
            if d == [0; 4] { d[0] = 1 }
            let (q, r) = (s.raw::<4>(), s.under(&d));
            let (q1, r1) = U512::from(&U256(q), &U256(r), &U256(d)).divrem(&U256(d));
            let fits = less(&q, &d);
            // and every integer is composed of its quotient and remainder
            let x = U512(s.raw::<8>());
            let (q2, r2) = x.divrem(&U256(d));
            let top = { let mut t = d; let mut i = 0; while t[i] == 0 { t[i] = !0; i += 1 } t[i] -= 1; t };     // d - 1
            let most = U512::from(&U256(top), &U256(top), &U256(d));
            r1 == U256(r) && q1 == (if fits { Some(U256(q)) } else { None }) && less(&r2.0, &d) && match q2 {
                Some(q2) => less(&q2.0, &d) && U512::from(&q2, &r2, &U256(d)) == x,
                None => cmp_words(&x.0, &most.0) == std::cmp::Ordering::Greater,
            }
        }),
        "wide" => all(n, |_| {
            let x = s.raw::<8>();
            let u = U512(x);
            let mut b = [0u8; 64];
            b.copy_from_slice(&be(&x));
            U512::interpret(&b) == u && ser::from_raw::<U512>(&ser::raw(&u)) == Some(u) && u.get_bit(512).is_none()
                && (0..512).all(|k| u.get_bit(k) == Some(x[k / 64] >> (k % 64) & 1 == 1))
                && { let mut y = x; let k = s.below(512); y[k / 64] ^= 1 << (k % 64); U512(y) != u && U512(x) == u }
        }),
        // m is composed: c1 d + c0 is linear in every argument
        "compose" => all(n, |_| {
            let (c1, c0, d) = (s.raw::<4>(), s.raw::<4>(), s.raw::<4>());
            // school multiplication
            let mut w = [0u64; 8];
            w[..4].copy_from_slice(&c0);
            for i in 0..4 {
                let mut c = 0u128;
                for j in 0..4 {
                    c += w[i + j] as u128 + c1[i] as u128 * d[j] as u128;
                    w[i + j] = c as u64;
                    c >>= 64;
                }
                let mut k = i + 4;
                while c > 0 {
                    c += w[k] as u128;
                    w[k] = c as u64;
                    c >>= 64;
                    k += 1;
                }
            }
            U512::from(&U256(c1), &U256(c0), &U256(d)).0 == w
        }),
        _ => panic!("HARNESS unknown law {}", op),
    }
}
