//! One generated case: a family (what is executed and checked), numeric parameters and two byte strings.

use crate::rng::Hash;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub fam: u32,
    pub p: [u32; 6],
    pub a: Vec<u8>,
    pub b: Vec<u8>,
}

fn hex(d: &[u8]) -> String {
    let mut s = String::with_capacity(d.len() * 2 + 1);
    s.push('x');
    for b in d {
        s.push(char::from_digit((b >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((b & 15) as u32, 16).unwrap());
    }
    s
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix('x')?.as_bytes();
    let v = |b: u8| (b as char).to_digit(16);
    s.chunks(2).map(|c| Some((v(c[0])? << 4 | v(*c.get(1)?)?) as u8)).collect()
}

impl Case {
    pub fn new(fam: u32) -> Self {
        Case { fam, ..Default::default() }
    }
    pub fn text(&self) -> String {
        let p: Vec<String> = self.p.iter().map(|x| x.to_string()).collect();
        format!("{} {} {} {}", self.fam, p.join(","), hex(&self.a), hex(&self.b))
    }
    pub fn parse(s: &str) -> Option<Case> {
        let f: Vec<&str> = s.split_whitespace().collect();
        if f.len() != 4 {
            return None;
        }
        let mut p = [0u32; 6];
        for (i, x) in f[1].split(',').enumerate() {
            *p.get_mut(i)? = x.parse().ok()?;
        }
        Some(Case { fam: f[0].parse().ok()?, p, a: unhex(f[2])?, b: unhex(f[3])? })
    }
    pub fn fingerprint(&self) -> u64 {
        let mut h = Hash::default();
        h.u64(self.fam as u64);
        for c in self.p.chunks(2) {
            h.u64((c[0] as u64) << 32 | c[1] as u64);
        }
        h.bytes(&self.a);
        if !self.b.is_empty() {
            h.bytes(&self.b);
        }
        h.get()
    }
}
