// Messages made without the generated serializers: well-formed ones that take every liberty the
// documented decoding rules allow, and hostile ones.
use crate::codec::{enc_plain, gen_u64, has_ref, header, is_int, unzigzag, varint, zigzag, V, VCfg, VGen, FIXED};
use crate::model::{Decl, Kind, Program, Rule, Ty};
use crate::util::Rng;
use std::collections::BTreeMap;

pub struct WGen<'a> {
    pub p: &'a Program,
    pub build: &'a BTreeMap<(usize, usize), bool>,
    pub nan: bool,
    pub miss: usize, // percentage of required fields left out
    pub stats: std::cell::RefCell<BTreeMap<&'static str, u64>>,
}

impl WGen<'_> {
    fn note(&self, k: &'static str) {
        *self.stats.borrow_mut().entry(k).or_insert(0) += 1;
    }

    pub fn unknown(&self, rng: &mut Rng, d: &Decl) -> Vec<u8> {
        let index = loop {
            let i = match rng.below(7) {
                // A known index, if some bits are ignored.
                6 if !d.fields.is_empty() => {
                    let i = rng.pick(&d.fields).index;
                    let any = rng.below(62);
                    i ^ 1 << *rng.pick(&[32, 16, 8, 31, 33, 61, 60, 24, any])
                }
                0 if !d.deleted.is_empty() => *d.deleted.iter().nth(rng.below(d.deleted.len())).unwrap(),
                1 => *rng.pick(&[31, 32, 33, 4127, 4128, 528_415, 528_416, (1 << 62) - 1, (1 << 62) - 2, 1 << 32, 1 << 61]),
                2 => rng.next() >> (2 + rng.below(62)),
                _ => rng.below(40) as u64,
            };
            if !d.fields.iter().any(|f| f.index == i) {
                break i;
            }
        };
        match rng.below(4) {
            0 => {
                self.note("unknown fields of mode 0");
                varint(index << 2)
            }
            1 => {
                self.note("unknown fields of mode 1");
                let mut v = varint(index << 2 | 1);
                v.extend(rng.next().to_le_bytes());
                v
            }
            2 => {
                self.note("unknown fields of mode 2");
                let mut v = varint(index << 2 | 2);
                let x = loop {
                    let x = varint(gen_u64(rng));
                    if x.len() != 8 {
                        break x;
                    }
                };
                v.extend(x);
                v
            }
            _ => {
                self.note("unknown fields of mode 3");
                let n = loop {
                    let n = match rng.below(4) {
                        0 => *rng.pick(&[127, 128, 300, 9000, 17_000]),
                        _ => rng.range(1, 20),
                    };
                    if n != 8 {
                        break n;
                    }
                };
                let mut v = varint(index << 2 | 3);
                v.extend(varint(n as u64));
                v.extend((0..n).map(|_| rng.next() as u8));
                v
            }
        }
    }

    fn int_field(&self, rng: &mut Rng, index: u64, n: u64, unit_array: bool) -> Vec<u8> {
        let canon = if n == 0 {
            vec![]
        } else if n >= FIXED {
            n.to_le_bytes().to_vec()
        } else {
            varint(n)
        };
        match rng.below(5) {
            0 => {
                self.note("integers as fixed width");
                let mut v = varint(index << 2 | 1);
                v.extend(n.to_le_bytes());
                v
            }
            1 if varint(n).len() != 8 => {
                self.note("integers as varints");
                let mut v = varint(index << 2 | 2);
                v.extend(varint(n));
                v
            }
            _ => {
                let mut v = header(index, canon.len(), !(unit_array && rng.chance(1, 2)));
                v.extend(canon);
                v
            }
        }
    }

    fn field(&self, rng: &mut Rng, index: u64, t: &Ty, budget: &mut i64, depth: usize) -> Vec<u8> {
        *budget -= 1;
        let g = VGen { p: self.p, build: self.build, cfg: VCfg { nan: self.nan, big: true } };
        match t {
            t if is_int(t) => {
                let n = match g.ty(rng, t, budget, depth) {
                    V::U(n) => n,
                    V::S(n) => zigzag(n),
                    V::B(b) => u64::from(b),
                    V::Arr(v) => v.len() as u64,
                    _ => panic!(),
                };
                debug_assert_eq!(zigzag(unzigzag(n)), n);
                self.int_field(rng, index, n, matches!(t, Ty::Arr(_)))
            }
            Ty::F64 => {
                let V::F(b) = g.ty(rng, t, budget, depth) else { panic!() };
                if b == 0 && rng.chance(1, 2) {
                    varint(index << 2)
                } else {
                    if b == 0 {
                        self.note("floating-point zero in 8 bytes");
                    }
                    let mut v = varint(index << 2 | 1);
                    v.extend(b.to_le_bytes());
                    v
                }
            }
            t => {
                let pl = self.plain(rng, t, budget, depth);
                let mut v = header(index, pl.len(), false);
                v.extend(pl);
                v
            }
        }
    }

    fn plain(&self, rng: &mut Rng, t: &Ty, budget: &mut i64, depth: usize) -> Vec<u8> {
        match t {
            Ty::Ref(f, d) => self.msg(rng, (*f, *d), budget, depth + 1),
            Ty::Arr(i) if has_ref(i) => {
                let n = if *budget < 0 { 0 } else { rng.below(4) };
                let mut out = vec![];
                for _ in 0..n {
                    let e = self.plain(rng, i, budget, depth + 1);
                    out.extend(varint(e.len() as u64));
                    out.extend(e);
                }
                out
            }
            t => {
                let g = VGen { p: self.p, build: self.build, cfg: VCfg { nan: self.nan, big: true } };
                enc_plain(self.p, t, &g.ty(rng, t, budget, depth))
            }
        }
    }

    pub fn msg(&self, rng: &mut Rng, r: (usize, usize), budget: &mut i64, depth: usize) -> Vec<u8> {
        let d = self.p.decl(r);
        *budget -= 1;
        let mut out = vec![];
        let rate = *rng.pick(&[0, 0, 15, 40]);
        match d.kind {
            Kind::Struct => {
                let mut parts: Vec<Vec<u8>> = vec![];
                for f in &d.fields {
                    let present = match f.rule {
                        Rule::Req => !rng.chance(self.miss, 100),
                        _ => *budget > 0 && rng.chance(1, 2),
                    };
                    if present {
                        parts.push(self.field(rng, f.index, &f.ty, budget, depth));
                    } else {
                        self.note("known fields left out");
                    }
                }
                if rng.chance(1, 2) {
                    rng.shuffle(&mut parts);
                    self.note("structs with fields in any order");
                }
                for x in parts {
                    while rng.chance(rate, 100) {
                        out.extend(self.unknown(rng, d));
                    }
                    out.extend(x);
                }
                while rng.chance(rate, 100) {
                    out.extend(self.unknown(rng, d));
                }
            }
            Kind::Choice => {
                // A sequence of fields; normally it ends with one that needs no fallback.
                loop {
                    while rng.chance(rate, 100) {
                        out.extend(self.unknown(rng, d));
                        self.note("choices with unknown fields first");
                    }
                    let ok: Vec<usize> =
                        (0..d.fields.len()).filter(|k| *budget > 0 || d.fields[*k].rule != Rule::Opt).collect();
                    if ok.is_empty() || rng.chance(self.miss, 200) {
                        self.note("choices without a final field");
                        break;
                    }
                    let f = &d.fields[*rng.pick(&ok)];
                    out.extend(self.field(rng, f.index, &f.ty, budget, depth));
                    if f.rule != Rule::Opt {
                        // Whatever follows is ignored.
                        while rng.chance(rate, 100) {
                            self.note("choices with more fields behind the one used");
                            if rng.chance(1, 2) {
                                out.extend(self.unknown(rng, d));
                            } else {
                                let f = rng.pick(&d.fields);
                                out.extend(self.field(rng, f.index, &f.ty, budget, depth));
                            }
                        }
                        break;
                    }
                }
            }
        }
        out
    }
}

// Damage a message.
pub fn mutate(rng: &mut Rng, b: &[u8], other: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = rng.range(1, 3);
    for _ in 0..n {
        match rng.below(12) {
            0 if !v.is_empty() => {
                let i = rng.below(v.len());
                v[i] ^= 1 << rng.below(8);
            }
            1 if !v.is_empty() => {
                let i = rng.below(v.len());
                v[i] = rng.next() as u8;
            }
            2 if !v.is_empty() => {
                let k = rng.below(v.len());
                v.truncate(k);
            }
            3 => {
                let i = rng.below(v.len() + 1);
                v.insert(i, *rng.pick(&[0, 1, 2, 4, 8, 0x10, 0x80, 0xff, 0x7f, 3]));
            }
            4 if !v.is_empty() => {
                let i = rng.below(v.len());
                v.remove(i);
            }
            5 => {
                let i = rng.below(v.len() + 1);
                let k = rng.below(other.len() + 1);
                v.truncate(i);
                v.extend_from_slice(&other[k..]);
            }
            6 if !v.is_empty() => {
                // Make something that may be a size much larger.
                let i = rng.below(v.len());
                let big = match rng.below(3) {
                    0 => varint(gen_u64(rng)),
                    1 => varint(u64::from(v[i] >> 1) + rng.range(1, 40) as u64),
                    _ => varint(1 << rng.below(64)),
                };
                v.splice(i..=i, big);
            }
            7 => {
                let k = rng.below(12);
                v.extend((0..k).map(|_| rng.next() as u8));
            }
            8 if v.len() > 1 => {
                let i = rng.below(v.len());
                let j = rng.below(v.len());
                v.swap(i, j);
            }
            9 if !v.is_empty() => {
                let i = rng.below(v.len());
                let j = (i + rng.range(1, 16)).min(v.len());
                let part = v[i..j].to_vec();
                let k = rng.below(v.len() + 1);
                v.splice(k..k, part);
            }
            10 if !v.is_empty() => {
                let i = rng.below(v.len());
                let j = (i + rng.range(1, 9)).min(v.len());
                for x in &mut v[i..j] {
                    *x = if i % 2 == 0 { 0 } else { 0xff };
                }
            }
            _ => {
                v = (0..rng.below(40)).map(|_| (rng.next() >> rng.below(8)) as u8).collect();
            }
        }
    }
    v.truncate(4000);
    v
}

// What a lenient decoder, one that just goes on with what is there when a declared size exceeds
// what is left and does not skip what it does not need, comes across. Only used to recognize
// inputs that belong to known findings.
#[derive(Default, Debug)]
pub struct Hazards {
    pub truncated_unknown: bool,
    pub blob: u64, // largest amount of memory reserved for more bytes than there are
    pub units: u64,
}

pub fn hazards(p: &Program, r: (usize, usize), b: &[u8]) -> Hazards {
    let mut l = Lenient { p, b, pos: 0, ends: vec![b.len()], h: Hazards::default() };
    let _ = l.msg(r);
    l.h
}

enum Stop {
    Eof,
    Other,
}

struct Lenient<'a> {
    p: &'a Program,
    b: &'a [u8],
    pos: usize,
    ends: Vec<usize>,
    h: Hazards,
}

impl Lenient<'_> {
    fn left(&self) -> usize {
        self.ends.iter().min().unwrap().saturating_sub(self.pos)
    }
    fn take(&mut self, n: usize) -> Result<usize, Stop> {
        let left = self.left();
        if n > left {
            self.pos += left;
            return Err(Stop::Eof);
        }
        self.pos += n;
        Ok(self.pos - n)
    }
    fn varint(&mut self) -> Result<u64, Stop> {
        let at = self.take(1)?;
        let n = self.b[at].trailing_zeros() as usize;
        self.take(n.min(8))?;
        let mut k = at;
        Ok(crate::codec::read_varint(self.b, &mut k).unwrap_or(u64::MAX))
    }
    fn header(&mut self) -> Result<(u64, u64), Stop> {
        let tag = self.varint()?;
        let size = match tag & 3 {
            0 => 0,
            1 => 8,
            2 => {
                if self.left() == 0 {
                    return Err(Stop::Eof);
                }
                u64::from(self.b[self.pos].trailing_zeros() + 1)
            }
            _ => self.varint()?,
        };
        Ok((tag >> 2, size))
    }
    fn limited<T>(&mut self, size: u64, f: impl FnOnce(&mut Self) -> Result<T, Stop>) -> Result<T, Stop> {
        self.ends.push(self.pos.saturating_add(usize::try_from(size).unwrap_or(usize::MAX)));
        let r = f(self);
        self.ends.pop();
        r
    }
    fn skip(&mut self, size: u64) -> Result<(), Stop> {
        if size > self.left() as u64 {
            self.h.truncated_unknown = true;
            return Err(Stop::Other);
        }
        self.pos += size as usize;
        Ok(())
    }
    fn msg(&mut self, r: (usize, usize)) -> Result<(), Stop> {
        let d = self.p.decl(r);
        let mut missing: Vec<u64> = d.fields.iter().filter(|f| f.rule == Rule::Req).map(|f| f.index).collect();
        loop {
            let (index, size) = match self.header() {
                Ok(x) => x,
                Err(Stop::Eof) if d.kind == Kind::Struct => {
                    return if missing.is_empty() { Ok(()) } else { Err(Stop::Other) };
                }
                Err(e) => return Err(e),
            };
            match d.fields.iter().find(|f| f.index == index) {
                None => self.limited(size, |l| l.skip(size))?,
                Some(f) => {
                    self.limited(size, |l| l.ty(&f.ty, size, true))?;
                    missing.retain(|x| *x != index);
                    if d.kind == Kind::Choice && f.rule != Rule::Opt {
                        self.pos += self.left();
                        return Ok(());
                    }
                }
            }
        }
    }
    fn int(&mut self, size: u64, field: bool) -> Result<u64, Stop> {
        match size {
            0 if field => Ok(0),
            8 if field => {
                let at = self.take(8)?;
                Ok(u64::from_le_bytes(self.b[at..at + 8].try_into().unwrap()))
            }
            _ => self.varint(),
        }
    }
    fn reserve(&mut self, size: u64, left: usize) {
        if size > left as u64 {
            self.h.blob = self.h.blob.max(size);
        }
    }
    fn ty(&mut self, t: &Ty, size: u64, field: bool) -> Result<(), Stop> {
        match t {
            Ty::Unit => Ok(()),
            Ty::U64 | Ty::S64 | Ty::Bool => self.int(size, field).map(|_| ()),
            Ty::F64 => {
                if !(field && size == 0) {
                    self.take(8)?;
                }
                Ok(())
            }
            Ty::Bytes | Ty::Str => {
                let left = self.left();
                self.reserve(size, left);
                let at = self.pos;
                self.pos += left;
                if *t == Ty::Str && std::str::from_utf8(&self.b[at..self.pos]).is_err() {
                    return Err(Stop::Other);
                }
                Ok(())
            }
            Ty::Ref(f, d) => self.msg((*f, *d)),
            Ty::Arr(i) => match &**i {
                Ty::Unit => {
                    let n = self.int(size, field)?;
                    self.h.units = self.h.units.max(n);
                    Ok(())
                }
                Ty::U64 | Ty::S64 | Ty::Bool | Ty::F64 => {
                    if **i == Ty::F64 {
                        let left = self.left();
                        self.reserve(size.saturating_mul(8), left);
                    }
                    while self.ty(i, 0, false).is_ok() {}
                    Ok(())
                }
                _ => loop {
                    match self.varint() {
                        Ok(n) => self.limited(n, |l| l.ty(i, n, false))?,
                        Err(_) => return Ok(()),
                    }
                },
            },
        }
    }
}
