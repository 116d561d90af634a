// Reference codec, written from the README's "Binary encoding" section, over dynamic values.
use crate::model::{Kind, Program, Rule, Ty};
use crate::util::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Unit,
    F(u64), // bits
    U(u64),
    S(i64),
    B(bool),
    Bytes(Vec<u8>),
    Str(String),
    Arr(Vec<V>),
    Struct(Vec<Option<V>>),
    Choice(usize, Box<V>, Option<Box<V>>),
}

impl V {
    pub fn nodes(&self) -> usize {
        1 + match self {
            V::Arr(l) => l.iter().map(V::nodes).sum(),
            V::Struct(l) => l.iter().flatten().map(V::nodes).sum(),
            V::Choice(_, v, w) => v.nodes() + w.as_ref().map_or(0, |w| w.nodes()),
            V::Bytes(b) => b.len(),
            V::Str(s) => s.len(),
            _ => 0,
        }
    }
}

pub const FIXED: u64 = 567_382_630_219_904;

pub fn varint(n: u64) -> Vec<u8> {
    // Number of bytes k and the base of the range of k-byte integers.
    let mut base: u128 = 0;
    for k in 1..=8_u32 {
        let span: u128 = 1 << (7 * k);
        if u128::from(n) < base + span {
            let m = (u128::from(n) - base) as u64;
            // k-1 trailing zero bits, a one, then the value, little endian.
            let x: u128 = (u128::from(m) << k) | (1 << (k - 1));
            return x.to_le_bytes()[..k as usize].to_vec();
        }
        base += span;
    }
    let m = n - base as u64;
    let mut v = vec![0];
    v.extend_from_slice(&m.to_le_bytes());
    v
}

pub fn zigzag(n: i64) -> u64 {
    ((n >> 63) ^ (n << 1)) as u64
}

pub fn unzigzag(n: u64) -> i64 {
    ((n >> 1) as i64) ^ -((n & 1) as i64)
}

pub fn is_int(t: &Ty) -> bool {
    match t {
        Ty::U64 | Ty::S64 | Ty::Bool => true,
        Ty::Arr(i) => **i == Ty::Unit,
        _ => false,
    }
}

fn as_u64(t: &Ty, v: &V) -> u64 {
    match (t, v) {
        (Ty::U64, V::U(n)) => *n,
        (Ty::S64, V::S(n)) => zigzag(*n),
        (Ty::Bool, V::B(b)) => u64::from(*b),
        (Ty::Arr(_), V::Arr(v)) => v.len() as u64,
        _ => panic!("as_u64"),
    }
}

// The encoding of a value when it's not the direct payload of a field.
pub fn enc_plain(p: &Program, t: &Ty, v: &V) -> Vec<u8> {
    if is_int(t) {
        return varint(as_u64(t, v));
    }
    match (t, v) {
        (Ty::Unit, V::Unit) => vec![],
        (Ty::F64, V::F(b)) => b.to_le_bytes().to_vec(),
        (Ty::Bytes, V::Bytes(b)) => b.clone(),
        (Ty::Str, V::Str(s)) => s.as_bytes().to_vec(),
        (Ty::Arr(i), V::Arr(v)) => {
            let mut out = vec![];
            for x in v {
                let e = enc_plain(p, i, x);
                if !matches!(**i, Ty::F64 | Ty::U64 | Ty::S64 | Ty::Bool) {
                    out.extend(varint(e.len() as u64));
                }
                out.extend(e);
            }
            out
        }
        (Ty::Ref(f, d), v) => enc_msg(p, (*f, *d), v),
        _ => panic!("enc_plain {t:?} {v:?}"),
    }
}

pub fn enc_payload(p: &Program, t: &Ty, v: &V) -> Vec<u8> {
    if is_int(t) {
        let n = as_u64(t, v);
        return if n == 0 {
            vec![]
        } else if n >= FIXED {
            n.to_le_bytes().to_vec()
        } else {
            varint(n)
        };
    }
    if let V::F(0) = v {
        return vec![];
    }
    enc_plain(p, t, v)
}

pub fn header(index: u64, payload: usize, int: bool) -> Vec<u8> {
    match payload {
        0 => varint(index << 2),
        8 => varint(index << 2 | 1),
        _ if int => varint(index << 2 | 2),
        n => {
            let mut v = varint(index << 2 | 3);
            v.extend(varint(n as u64));
            v
        }
    }
}

pub fn enc_field(p: &Program, index: u64, t: &Ty, v: &V) -> Vec<u8> {
    let pl = enc_payload(p, t, v);
    // The README's size mode 2 would also be right for [Unit]; the code has always used 3 there
    // (known finding unit-array-size-mode).
    let mut h = header(index, pl.len(), matches!(t, Ty::U64 | Ty::S64 | Ty::Bool));
    h.extend(pl);
    h
}

pub fn enc_msg(p: &Program, r: (usize, usize), v: &V) -> Vec<u8> {
    let d = p.decl(r);
    match (d.kind, v) {
        (Kind::Struct, V::Struct(fs)) => {
            let mut out = vec![];
            for (f, x) in d.fields.iter().zip(fs) {
                if let Some(x) = x {
                    out.extend(enc_field(p, f.index, &f.ty, x));
                }
            }
            out
        }
        (Kind::Choice, V::Choice(k, x, fb)) => {
            let f = &d.fields[*k];
            let mut out = enc_field(p, f.index, &f.ty, x);
            if let Some(fb) = fb {
                out.extend(enc_msg(p, r, fb));
            }
            out
        }
        _ => panic!("enc_msg"),
    }
}

// Convert an outgoing value to the incoming value it stands for: asymmetric choice fields lose
// their fallbacks.
pub fn to_in(p: &Program, t: &Ty, v: &V) -> V {
    match (t, v) {
        (Ty::Arr(i), V::Arr(v)) => V::Arr(v.iter().map(|x| to_in(p, i, x)).collect()),
        (Ty::Ref(f, d), v) => msg_in(p, (*f, *d), v),
        _ => v.clone(),
    }
}

pub fn msg_in(p: &Program, r: (usize, usize), v: &V) -> V {
    let d = p.decl(r);
    match v {
        V::Struct(fs) => V::Struct(
            d.fields
                .iter()
                .zip(fs)
                .map(|(f, x)| x.as_ref().map(|x| to_in(p, &f.ty, x)))
                .collect(),
        ),
        V::Choice(k, x, fb) => {
            let f = &d.fields[*k];
            V::Choice(
                *k,
                Box::new(to_in(p, &f.ty, x)),
                if f.rule == Rule::Opt {
                    fb.as_ref().map(|b| Box::new(msg_in(p, r, b)))
                } else {
                    None
                },
            )
        }
        _ => panic!(),
    }
}

// ---------------------------------------------------------------------------------------------
// The exchange format between the harness and the drivers around generated code. It has nothing
// to do with the encoding under test.

pub fn dump(p: &Program, t: &Ty, v: &V, out: &mut Vec<u8>) {
    match v {
        V::Unit => {}
        V::F(b) => out.extend_from_slice(&b.to_le_bytes()),
        V::U(n) => out.extend_from_slice(&n.to_le_bytes()),
        V::S(n) => out.extend_from_slice(&n.to_le_bytes()),
        V::B(b) => out.push(u8::from(*b)),
        V::Bytes(b) => {
            out.extend_from_slice(&(b.len() as u32).to_le_bytes());
            out.extend_from_slice(b);
        }
        V::Str(s) => {
            out.extend_from_slice(&(s.len() as u32).to_le_bytes());
            out.extend_from_slice(s.as_bytes());
        }
        V::Arr(v) => {
            let Ty::Arr(i) = t else { panic!() };
            out.extend_from_slice(&(v.len() as u32).to_le_bytes());
            if **i != Ty::Unit {
                for x in v {
                    dump(p, i, x, out);
                }
            }
        }
        V::Struct(_) | V::Choice(..) => {
            let Ty::Ref(f, d) = t else { panic!() };
            // Which form (outgoing or incoming) is decided by presence flags being written for
            // optional fields in both, and for asymmetric ones only in incoming messages; the
            // caller uses dump_out / dump_in below.
            let _ = (f, d);
            panic!("use dump_out or dump_in");
        }
    }
}

fn dump_any(p: &Program, t: &Ty, v: &V, incoming: bool, out: &mut Vec<u8>) {
    match (t, v) {
        (Ty::Arr(i), V::Arr(v)) => {
            out.extend_from_slice(&(v.len() as u32).to_le_bytes());
            if **i != Ty::Unit {
                for x in v {
                    dump_any(p, i, x, incoming, out);
                }
            }
        }
        (Ty::Ref(f, d), v) => dump_msg(p, (*f, *d), v, incoming, out),
        _ => dump(p, t, v, out),
    }
}

pub fn dump_msg(p: &Program, r: (usize, usize), v: &V, incoming: bool, out: &mut Vec<u8>) {
    let d = p.decl(r);
    match v {
        V::Struct(fs) => {
            for (f, x) in d.fields.iter().zip(fs) {
                let flag = match f.rule {
                    Rule::Req => false,
                    Rule::Asym => incoming,
                    Rule::Opt => true,
                };
                if flag {
                    out.push(u8::from(x.is_some()));
                }
                if let Some(x) = x {
                    dump_any(p, &f.ty, x, incoming, out);
                }
            }
        }
        V::Choice(k, x, fb) => {
            out.extend_from_slice(&(*k as u32).to_le_bytes());
            dump_any(p, &d.fields[*k].ty, x, incoming, out);
            if let Some(fb) = fb {
                dump_msg(p, r, fb, incoming, out);
            }
        }
        _ => panic!(),
    }
}

// ---------------------------------------------------------------------------------------------
// Reference decoder following the README's decoding rules.

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Eof,     // ran out of bytes inside something
    Missing, // required field missing, or no recognized choice field
    Utf8,
    Other(&'static str),
}

// What happened while decoding that puts the input outside the well-formed domain or into one of
// the excluded classes.
#[derive(Clone, Debug, Default)]
pub struct Events {
    pub truncated_unknown: bool, // an unknown field's payload extends beyond the message
    pub oversize: bool,          // some declared size extends beyond its container
    pub max_size: u64,           // largest declared size
    pub odd: bool,               // leftovers inside fixed-shape payloads
    pub trailing: bool,          // incomplete trailing header
    pub dup: bool,               // a recognized struct field occurred twice
    pub big_unit: bool,          // a [Unit] count above 2^16
    pub bad_utf8: bool,
    pub bom: bool,
    pub max_depth: usize,
    pub unknown: usize,
    pub noncanon: usize,
}

pub fn read_varint(b: &[u8], pos: &mut usize) -> Result<u64, E> {
    if *pos >= b.len() {
        return Err(E::Eof);
    }
    let first = b[*pos];
    let k = (first.trailing_zeros() + 1) as usize;
    if *pos + k > b.len() {
        return Err(E::Eof);
    }
    let mut x = [0_u8; 16];
    x[..k].copy_from_slice(&b[*pos..*pos + k]);
    let raw = u128::from_le_bytes(x);
    *pos += k;
    let mut base: u128 = 0;
    for j in 1..k.min(9) {
        base += 1_u128 << (7 * j);
    }
    let m = if k == 9 { raw >> 8 } else { raw >> k };
    Ok((base + m) as u64) // wraps for the few 9-byte strings beyond 2^64
}

pub fn dec_msg(p: &Program, r: (usize, usize), b: &[u8], ev: &mut Events) -> Result<V, E> {
    let mut pos = 0;
    dec_msg_at(p, r, b, &mut pos, ev, 0)
}

fn dec_header(b: &[u8], pos: &mut usize) -> Result<(u64, u64, u64), E> {
    let tag = read_varint(b, pos)?;
    let size = match tag & 3 {
        0 => 0,
        1 => 8,
        2 => {
            if *pos >= b.len() {
                return Err(E::Eof);
            }
            u64::from(b[*pos].trailing_zeros() + 1)
        }
        _ => read_varint(b, pos)?,
    };
    Ok((tag >> 2, size, tag & 3))
}

fn dec_msg_at(
    p: &Program,
    r: (usize, usize),
    b: &[u8],
    pos: &mut usize,
    ev: &mut Events,
    depth: usize,
) -> Result<V, E> {
    ev.max_depth = ev.max_depth.max(depth);
    let d = p.decl(r);
    let mut fields: Vec<Option<V>> = vec![None; d.fields.len()];
    loop {
        if *pos == b.len() {
            break;
        }
        let start = *pos;
        let (index, size, _) = match dec_header(b, pos) {
            Ok(x) => x,
            Err(e) => {
                ev.trailing = true;
                *pos = b.len();
                if d.kind == Kind::Choice {
                    return Err(e);
                }
                let _ = start;
                break;
            }
        };
        ev.max_size = ev.max_size.max(size);
        let known = d.fields.iter().position(|f| f.index == index);
        let avail = (b.len() - *pos) as u64;
        if size > avail {
            ev.oversize = true;
            if known.is_none() {
                ev.truncated_unknown = true;
            }
            return Err(E::Eof);
        }
        let payload = &b[*pos..*pos + size as usize];
        *pos += size as usize;
        let Some(k) = known else {
            ev.unknown += 1;
            continue;
        };
        let f = &d.fields[k];
        let v = dec_payload(p, &f.ty, payload, ev, depth)?;
        match d.kind {
            Kind::Struct => {
                if fields[k].is_some() {
                    ev.dup = true;
                } else {
                    fields[k] = Some(v);
                }
            }
            Kind::Choice => {
                let fb = if f.rule == Rule::Opt {
                    Some(Box::new(dec_msg_at(p, r, b, pos, ev, depth + 1)?))
                } else {
                    None
                };
                return Ok(V::Choice(k, Box::new(v), fb));
            }
        }
    }
    if d.kind == Kind::Choice {
        return Err(E::Missing);
    }
    for (f, v) in d.fields.iter().zip(&fields) {
        if f.rule == Rule::Req && v.is_none() {
            return Err(E::Missing);
        }
    }
    Ok(V::Struct(fields))
}

fn dec_payload(p: &Program, t: &Ty, b: &[u8], ev: &mut Events, depth: usize) -> Result<V, E> {
    if is_int(t) {
        let n = match b.len() {
            0 => 0,
            8 => u64::from_le_bytes(b.try_into().unwrap()),
            _ => {
                let mut pos = 0;
                let n = read_varint(b, &mut pos)?;
                if pos != b.len() {
                    ev.odd = true;
                }
                n
            }
        };
        let canon = if n == 0 {
            0
        } else if n >= FIXED {
            8
        } else {
            varint(n).len()
        };
        if canon != b.len() {
            ev.noncanon += 1;
        }
        return from_u64(t, n, ev);
    }
    if *t == Ty::F64 {
        return match b.len() {
            0 => Ok(V::F(0)),
            8 => {
                let n = u64::from_le_bytes(b.try_into().unwrap());
                if n == 0 {
                    ev.noncanon += 1;
                }
                Ok(V::F(n))
            }
            n => {
                ev.odd = true;
                if n < 8 {
                    Err(E::Eof)
                } else {
                    Ok(V::F(u64::from_le_bytes(b[..8].try_into().unwrap())))
                }
            }
        };
    }
    dec_plain(p, t, b, ev, depth)
}

fn from_u64(t: &Ty, n: u64, ev: &mut Events) -> Result<V, E> {
    Ok(match t {
        Ty::U64 => V::U(n),
        Ty::S64 => V::S(unzigzag(n)),
        Ty::Bool => {
            if n > 1 {
                ev.odd = true;
            }
            V::B(n != 0)
        }
        Ty::Arr(_) => {
            if n > 1 << 16 {
                ev.big_unit = true;
                return Err(E::Other("big [Unit]"));
            }
            V::Arr(vec![V::Unit; n as usize])
        }
        _ => panic!(),
    })
}

fn dec_plain(p: &Program, t: &Ty, b: &[u8], ev: &mut Events, depth: usize) -> Result<V, E> {
    if is_int(t) {
        let mut pos = 0;
        let n = read_varint(b, &mut pos)?;
        if pos != b.len() {
            ev.odd = true;
        }
        return from_u64(t, n, ev);
    }
    match t {
        Ty::Unit => {
            if !b.is_empty() {
                ev.odd = true;
            }
            Ok(V::Unit)
        }
        Ty::Bytes => Ok(V::Bytes(b.to_vec())),
        Ty::Str => match std::str::from_utf8(b) {
            Ok(s) => {
                if s.starts_with('\u{feff}') {
                    ev.bom = true;
                }
                Ok(V::Str(s.to_owned()))
            }
            Err(_) => {
                ev.bad_utf8 = true;
                Err(E::Utf8)
            }
        },
        Ty::Arr(i) => {
            let mut v = vec![];
            let mut pos = 0;
            while pos < b.len() {
                match **i {
                    Ty::F64 => {
                        if pos + 8 > b.len() {
                            ev.trailing = true;
                            break;
                        }
                        v.push(V::F(u64::from_le_bytes(b[pos..pos + 8].try_into().unwrap())));
                        pos += 8;
                    }
                    Ty::U64 | Ty::S64 | Ty::Bool => {
                        let n = match read_varint(b, &mut pos) {
                            Ok(n) => n,
                            Err(_) => {
                                ev.trailing = true;
                                break;
                            }
                        };
                        v.push(from_u64(i, n, ev)?);
                    }
                    _ => {
                        let size = match read_varint(b, &mut pos) {
                            Ok(n) => n,
                            Err(_) => {
                                ev.trailing = true;
                                break;
                            }
                        };
                        ev.max_size = ev.max_size.max(size);
                        if size > (b.len() - pos) as u64 {
                            ev.oversize = true;
                            return Err(E::Eof);
                        }
                        let e = &b[pos..pos + size as usize];
                        pos += size as usize;
                        v.push(dec_plain(p, i, e, ev, depth + 1)?);
                    }
                }
            }
            Ok(V::Arr(v))
        }
        Ty::Ref(f, d) => {
            let mut pos = 0;
            let v = dec_msg_at(p, (*f, *d), b, &mut pos, ev, depth + 1)?;
            Ok(v)
        }
        Ty::F64 => {
            if b.len() != 8 {
                ev.odd = true;
                return Err(E::Eof);
            }
            Ok(V::F(u64::from_le_bytes(b.try_into().unwrap())))
        }
        _ => panic!(),
    }
}

// ---------------------------------------------------------------------------------------------
// Random values

const EDGES: &[u64] = &[
    0, 1, 127, 128, 16_511, 16_512, 2_113_663, 2_113_664, 270_549_119, 270_549_120, 34_630_287_487,
    34_630_287_488, 4_432_676_798_591, 4_432_676_798_592, 567_382_630_219_903, 567_382_630_219_904,
    72_624_976_668_147_839, 72_624_976_668_147_840, u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 53,
    (1 << 53) + 1, 1 << 32, (1 << 32) - 1,
];

pub fn gen_u64(rng: &mut Rng) -> u64 {
    match rng.below(4) {
        0 => *rng.pick(EDGES),
        1 => rng.pick(EDGES).wrapping_add(rng.below(5) as u64).wrapping_sub(2),
        2 => rng.next() >> rng.below(64),
        _ => rng.below(300) as u64,
    }
}

fn gen_f64(rng: &mut Rng, nan: bool) -> u64 {
    let b = match rng.below(6) {
        0 => 0,
        1 => 0x8000_0000_0000_0000,
        2 => *rng.pick(&[
            f64::INFINITY.to_bits(),
            f64::NEG_INFINITY.to_bits(),
            f64::MAX.to_bits(),
            f64::MIN_POSITIVE.to_bits(),
            1,
            f64::EPSILON.to_bits(),
            1.5_f64.to_bits(),
            (-0.1_f64).to_bits(),
        ]),
        3 => (rng.next() as f64).to_bits(),
        _ => rng.next(),
    };
    if f64::from_bits(b).is_nan() && !nan {
        0x4009_21fb_5444_2d18
    } else if nan && rng.chance(1, 20) {
        0x7ff0_0000_0000_0000 | (rng.next() & 0x8_ffff_ffff_ffff) | 1 | (rng.next() << 63)
    } else {
        b
    }
}

fn gen_str(rng: &mut Rng, budget: usize) -> String {
    let n = match rng.below(6) {
        0 => 0,
        1 => 8,
        2 => rng.below(4),
        3 if budget > 50 => *rng.pick(&[127, 128, 129, 200, 500]),
        _ => rng.below(20),
    };
    let mut s = String::new();
    let ascii = rng.chance(1, 2);
    while s.len() < n {
        if ascii || s.len() + 4 > n {
            s.push((b' ' + rng.below(95) as u8) as char);
        } else if !s.is_empty() && rng.chance(1, 30) {
            s.push('\u{feff}'); // at the start: see the finding ts-bom
        } else {
            s.push(*rng.pick(&[
                'é', 'ß', '\u{0}', '\u{7f}', '漢', '😀', '\u{10ffff}', '\u{fffd}', '\u{e000}',
                '\u{301}', '\u{2028}', '\u{d7ff}', '\u{ffff}', 'İ', 'a', '\n', '"', '\\', '\u{200d}',
                '\u{80}', '\u{7ff}', '\u{800}', '\u{10000}',
            ]));
        }
    }
    s
}

#[derive(Clone)]
pub struct VCfg {
    pub nan: bool,
    pub big: bool,
}

pub fn has_ref(t: &Ty) -> bool {
    match t {
        Ty::Arr(i) => has_ref(i),
        Ty::Ref(..) => true,
        _ => false,
    }
}

pub struct VGen<'a> {
    pub p: &'a Program,
    pub build: &'a std::collections::BTreeMap<(usize, usize), bool>,
    pub cfg: VCfg,
}

impl VGen<'_> {
    pub fn msg(&self, rng: &mut Rng, r: (usize, usize), budget: &mut i64, depth: usize) -> V {
        let d = self.p.decl(r);
        *budget -= 1;
        match d.kind {
            Kind::Struct => {
                let all = rng.chance(1, 6);
                let none = rng.chance(1, 10);
                V::Struct(
                    d.fields
                        .iter()
                        .map(|f| {
                            if f.rule == Rule::Opt
                                && (none
                                    || !(all || rng.chance(1, 2))
                                    || *budget < 0
                                    || !self.can(&f.ty))
                            {
                                None
                            } else {
                                Some(self.ty(rng, &f.ty, budget, depth + 1))
                            }
                        })
                        .collect(),
                )
            }
            Kind::Choice => {
                let ok: Vec<usize> = (0..d.fields.len())
                    .filter(|k| self.can(&d.fields[*k].ty))
                    .filter(|k| *budget > 0 || d.fields[*k].rule == Rule::Req)
                    .collect();
                let k = *rng.pick(&ok);
                let f = &d.fields[k];
                let v = self.ty(rng, &f.ty, budget, depth + 1);
                let fb = if f.rule == Rule::Req {
                    None
                } else {
                    Some(Box::new(self.msg(rng, r, budget, depth)))
                };
                V::Choice(k, Box::new(v), fb)
            }
        }
    }
    fn can(&self, t: &Ty) -> bool {
        match t {
            Ty::Ref(f, d) => self.build[&(*f, *d)],
            _ => true,
        }
    }
    fn elems(&self, t: &Ty) -> bool {
        match t {
            Ty::Arr(_) => true,
            t => self.can(t),
        }
    }
    pub fn ty(&self, rng: &mut Rng, t: &Ty, budget: &mut i64, depth: usize) -> V {
        *budget -= 1;
        match t {
            Ty::Unit => V::Unit,
            Ty::F64 => V::F(gen_f64(rng, self.cfg.nan)),
            Ty::U64 => V::U(gen_u64(rng)),
            Ty::S64 => V::S(unzigzag(gen_u64(rng))),
            Ty::Bool => V::B(rng.chance(1, 2)),
            Ty::Bytes => {
                let n = match rng.below(6) {
                    0 => 0,
                    1 => 8,
                    2 if self.cfg.big && *budget > 100 => {
                        *rng.pick(&[127, 128, 255, 256, 16_511, 16_512, 70_000])
                    }
                    3 => rng.below(4),
                    _ => rng.below(30),
                };
                *budget -= n as i64 / 64;
                V::Bytes((0..n).map(|_| rng.next() as u8).collect())
            }
            Ty::Str if self.cfg.big && *budget > 100 && rng.chance(1, 25) => {
                *budget -= 100;
                let n = *rng.pick(&[1000, 4096, 8192, 16_400, 16_511, 16_512, 33_000, 66_000]);
                let mut s = gen_str(rng, 200);
                while s.len() < n {
                    s += &gen_str(rng, 200);
                    s.push('é');
                }
                while s.len() > n {
                    s.pop();
                }
                while s.len() < n {
                    s.push('.');
                }
                V::Str(s)
            }
            Ty::Str => V::Str(gen_str(rng, *budget as usize)),
            Ty::Arr(i) => {
                if !self.elems(i) {
                    return V::Arr(vec![]);
                }
                let n = if **i == Ty::Unit {
                    match rng.below(4) {
                        0 => 0,
                        _ if *budget < 0 => rng.below(10),
                        1 => rng.below(10),
                        2 => rng.range(120, 140),
                        _ => rng.below(20_000),
                    }
                } else if *budget < 0 {
                    // Deeply nested arrays should still have something in them now and then.
                    usize::from(!has_ref(i) && rng.chance(2, 3))
                } else if self.cfg.big && *budget > 100 && rng.chance(1, 25) {
                    *budget -= 100;
                    match **i {
                        Ty::Ref(..) | Ty::Arr(_) => *rng.pick(&[20, 70, 130, 260]),
                        _ => *rng.pick(&[255, 256, 257, 1000, 1030, 4100, 8200, 16_600]),
                    }
                } else {
                    match rng.below(5) {
                        0 => 0,
                        1 => 1,
                        2 if *budget > 200 && !matches!(**i, Ty::Ref(..) | Ty::Arr(_)) => rng.range(60, 140),
                        _ => rng.below(6),
                    }
                };
                V::Arr((0..n).map(|_| self.ty(rng, i, budget, depth + 1)).collect())
            }
            Ty::Ref(f, d) => self.msg(rng, (*f, *d), budget, depth),
        }
    }
}
