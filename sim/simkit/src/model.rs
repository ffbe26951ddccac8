//! Reference models of the file formats, written from their public descriptions.
use fr::Fe;

pub type Lc = Vec<(u32, Vec<u8>)>;

#[derive(Clone, Debug, PartialEq)]
pub struct R1cs {
    pub field_size: u32,
    pub prime: Vec<u8>,
    pub n_wires: u32,
    pub n_pub_out: u32,
    pub n_pub_in: u32,
    pub n_prv_in: u32,
    pub n_labels: u64,
    pub constraints: Vec<[Lc; 3]>,
    /// None: the file has no label section.
    pub wire2label: Option<Vec<u64>>,
}

/// Where things lie in an encoded file (offset, length, name), for aimed corruption.
#[derive(Default, Clone, Debug)]
pub struct Layout {
    pub fields: Vec<(usize, usize, &'static str)>,
}

impl R1cs {
    pub fn n_public(&self) -> u32 {
        self.n_pub_out + self.n_pub_in
    }
    /// `order`: section types in file order; types above 3 are unknown sections with given bodies.
    pub fn encode(&self, order: &[(u32, Vec<u8>)]) -> (Vec<u8>, Layout) {
        let mut l = Layout::default();
        let mut b = vec![];
        let fld = |l: &mut Layout, b: &mut Vec<u8>, d: &[u8], n: &'static str| {
            l.fields.push((b.len(), d.len(), n));
            b.extend_from_slice(d);
        };
        fld(&mut l, &mut b, b"r1cs", "magic");
        fld(&mut l, &mut b, &1u32.to_le_bytes(), "version");
        fld(&mut l, &mut b, &(order.len() as u32).to_le_bytes(), "n_sections");
        for (ty, body) in order {
            let mut s = vec![];
            let mut sl = Layout::default();
            match ty {
                1 => {
                    fld(&mut sl, &mut s, &self.field_size.to_le_bytes(), "field_size");
                    fld(&mut sl, &mut s, &self.prime, "prime");
                    fld(&mut sl, &mut s, &self.n_wires.to_le_bytes(), "n_wires");
                    fld(&mut sl, &mut s, &self.n_pub_out.to_le_bytes(), "n_pub_out");
                    fld(&mut sl, &mut s, &self.n_pub_in.to_le_bytes(), "n_pub_in");
                    fld(&mut sl, &mut s, &self.n_prv_in.to_le_bytes(), "n_prv_in");
                    fld(&mut sl, &mut s, &self.n_labels.to_le_bytes(), "n_labels");
                    fld(&mut sl, &mut s, &(self.constraints.len() as u32).to_le_bytes(), "n_constraints");
                }
                2 => {
                    for c in &self.constraints {
                        for lc in c {
                            fld(&mut sl, &mut s, &(lc.len() as u32).to_le_bytes(), "n_factors");
                            for (w, v) in lc {
                                fld(&mut sl, &mut s, &w.to_le_bytes(), "factor_wire");
                                fld(&mut sl, &mut s, v, "factor_value");
                            }
                        }
                    }
                }
                3 => {
                    for x in self.wire2label.as_ref().expect("labels") {
                        fld(&mut sl, &mut s, &x.to_le_bytes(), "label");
                    }
                }
                _ => fld(&mut sl, &mut s, body, "unknown_body"),
            }
            fld(&mut l, &mut b, &ty.to_le_bytes(), "section_type");
            fld(&mut l, &mut b, &(s.len() as u64).to_le_bytes(), "section_size");
            let base = b.len();
            l.fields.extend(sl.fields.into_iter().map(|(o, n, x)| (o + base, n, x)));
            b.extend(s);
        }
        (b, l)
    }
}

pub enum RefParse {
    /// Exactly one reading of these bytes.
    Circuit(R1cs),
    /// Not a complete file.
    Malformed,
    /// More than one reading (duplicate sections, sizes contradicting contents): any is fine.
    Ambiguous,
}

struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let e = self.1.checked_add(n)?;
        if e > self.0.len() {
            return None;
        }
        let r = &self.0[self.1..e];
        self.1 = e;
        Some(r)
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
}

/// The sections of an iden3 binary file: (type, size, position); None when the walk leaves the file
/// before a section header is complete.
fn sections(b: &[u8], magic: &[u8], version: u32) -> Option<Vec<(u32, u64, usize)>> {
    let mut r = Rd(b, 0);
    if r.take(4)? != magic || r.u32()? != version {
        return None;
    }
    let n = r.u32()?;
    let mut v = vec![];
    for _ in 0..n {
        let t = r.u32()?;
        let s = r.u64()?;
        v.push((t, s, r.1));
        r.1 = r.1.checked_add(s as usize)?;
    }
    Some(v)
}

pub fn parse_r1cs(b: &[u8], labels_matter: bool) -> RefParse {
    let Some(secs) = sections(b, b"r1cs", 1) else { return RefParse::Malformed };
    for t in [1, 2, 3] {
        if secs.iter().filter(|s| s.0 == t).count() > 1 {
            return RefParse::Ambiguous;
        }
    }
    let f = || -> Option<(R1cs, bool)> {
        let mut odd = secs.iter().any(|s| s.1 > b.len() as u64 || s.2 as u64 + s.1 > b.len() as u64);
        let s1 = secs.iter().find(|s| s.0 == 1)?;
        let mut r = Rd(b, s1.2);
        let field_size = r.u32()?;
        let prime = r.take(field_size as usize)?.to_vec();
        let (n_wires, n_pub_out, n_pub_in, n_prv_in) = (r.u32()?, r.u32()?, r.u32()?, r.u32()?);
        let n_labels = r.u64()?;
        let nc = r.u32()?;
        odd |= r.1 as u64 != s1.2 as u64 + s1.1;
        let s2 = secs.iter().find(|s| s.0 == 2)?;
        let mut r = Rd(b, s2.2);
        let mut constraints = vec![];
        for _ in 0..nc {
            let mut c: [Lc; 3] = Default::default();
            for lc in c.iter_mut() {
                let n = r.u32()?;
                for _ in 0..n {
                    let w = r.u32()?;
                    lc.push((w, r.take(field_size as usize)?.to_vec()));
                }
            }
            constraints.push(c);
        }
        odd |= r.1 as u64 != s2.2 as u64 + s2.1;
        let mut wire2label = None;
        if labels_matter {
            if let Some(s3) = secs.iter().find(|s| s.0 == 3) {
                let mut r = Rd(b, s3.2);
                let mut v = vec![];
                for _ in 0..n_wires {
                    v.push(r.u64()?);
                }
                odd |= r.1 as u64 != s3.2 as u64 + s3.1;
                wire2label = Some(v);
            }
        }
        Some((R1cs { field_size, prime, n_wires, n_pub_out, n_pub_in, n_prv_in, n_labels, constraints, wire2label }, odd))
    };
    match f() {
        None => RefParse::Malformed,
        Some((_, true)) => RefParse::Ambiguous,
        Some((c, false)) => RefParse::Circuit(c),
    }
}

pub fn encode_wtns(prime: &[u8], values: &[Vec<u8>], order: &[(u32, Vec<u8>)]) -> (Vec<u8>, Layout) {
    let mut l = Layout::default();
    let mut b = vec![];
    let fld = |l: &mut Layout, b: &mut Vec<u8>, d: &[u8], n: &'static str| {
        l.fields.push((b.len(), d.len(), n));
        b.extend_from_slice(d);
    };
    fld(&mut l, &mut b, b"wtns", "magic");
    fld(&mut l, &mut b, &2u32.to_le_bytes(), "version");
    fld(&mut l, &mut b, &(order.len() as u32).to_le_bytes(), "n_sections");
    for (ty, body) in order {
        fld(&mut l, &mut b, &ty.to_le_bytes(), "section_type");
        match ty {
            1 => {
                fld(&mut l, &mut b, &(8 + prime.len() as u64).to_le_bytes(), "section_size");
                fld(&mut l, &mut b, &(prime.len() as u32).to_le_bytes(), "field_size");
                fld(&mut l, &mut b, prime, "prime");
                fld(&mut l, &mut b, &(values.len() as u32).to_le_bytes(), "n_witness");
            }
            2 => {
                let n: usize = values.iter().map(|v| v.len()).sum();
                fld(&mut l, &mut b, &(n as u64).to_le_bytes(), "section_size");
                for v in values {
                    fld(&mut l, &mut b, v, "value");
                }
            }
            _ => {
                fld(&mut l, &mut b, &(body.len() as u64).to_le_bytes(), "section_size");
                fld(&mut l, &mut b, body, "unknown_body");
            }
        }
    }
    (b, l)
}

pub enum RefWtns {
    Values(Vec<u8>, Vec<Vec<u8>>),
    Malformed,
    Ambiguous,
}
pub fn parse_wtns(b: &[u8]) -> RefWtns {
    let Some(secs) = sections(b, b"wtns", 2) else { return RefWtns::Malformed };
    for t in [1, 2] {
        if secs.iter().filter(|s| s.0 == t).count() > 1 {
            return RefWtns::Ambiguous;
        }
    }
    let f = || -> Option<Option<(Vec<u8>, Vec<Vec<u8>>)>> {
        let s1 = secs.iter().find(|s| s.0 == 1)?;
        let mut r = Rd(b, s1.2);
        let fs = r.u32()? as usize;
        let prime = r.take(fs)?.to_vec();
        let n = r.u32()? as usize;
        let mut odd = r.1 as u64 != s1.2 as u64 + s1.1;
        let s2 = secs.iter().find(|s| s.0 == 2)?;
        let mut r = Rd(b, s2.2);
        if fs == 0 || (n as u128) * (fs as u128) != s2.1 as u128 {
            return None;
        }
        let mut v = vec![];
        for _ in 0..n {
            v.push(r.take(fs)?.to_vec());
        }
        odd |= secs.iter().any(|s| s.2 as u64 + s.1 > b.len() as u64);
        if odd {
            return Some(None);
        }
        Some(Some((prime, v)))
    };
    match f() {
        None => RefWtns::Malformed,
        Some(None) => RefWtns::Ambiguous,
        Some(Some((p, v))) => RefWtns::Values(p, v),
    }
}

/// The documented package layout.
#[derive(Clone, Debug, PartialEq)]
pub struct Package {
    pub key_ct: Vec<u8>,
    pub public: Option<Vec<u8>>,
    pub sealed: Vec<u8>,
}
impl Package {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![self.public.is_some() as u8];
        b.extend((self.key_ct.len() as u32).to_be_bytes());
        b.extend(&self.key_ct);
        if let Some(p) = &self.public {
            b.extend((p.len() as u32).to_be_bytes());
            b.extend(p);
        }
        b.extend(&self.sealed);
        b
    }
    pub fn parse(b: &[u8]) -> Option<Package> {
        let mut r = Rd(b, 0);
        let flag = r.take(1)?[0];
        if flag > 1 {
            return None;
        }
        let n = u32::from_be_bytes(r.take(4)?.try_into().unwrap());
        let key_ct = r.take(n as usize)?.to_vec();
        let public = if flag == 1 {
            let n = u32::from_be_bytes(r.take(4)?.try_into().unwrap());
            Some(r.take(n as usize)?.to_vec())
        } else {
            None
        };
        let sealed = b[r.1..].to_vec();
        if sealed.len() < 28 {
            return None;
        }
        Some(Package { key_ct, public, sealed })
    }
}

/// Is this assignment a witness of the circuit?
pub fn satisfies(c: &R1cs, w: &[Fe]) -> bool {
    if w.len() != c.n_wires as usize || w[0] != Fe::one() {
        return false;
    }
    let ev = |lc: &Lc| -> Fe {
        lc.iter().fold(Fe::ZERO, |a, (i, v)| match w.get(*i as usize) {
            Some(x) => a.add(&Fe::from_le_mod(v).mul(x)),
            None => a,
        })
    };
    c.constraints.iter().all(|[a, b, cc]| ev(a).mul(&ev(b)) == ev(cc))
}
