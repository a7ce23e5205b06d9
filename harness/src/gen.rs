//! Generators: configurations, elements, values of every CBOR shape.
use crate::types::*;
use banyan::Config;
use rand::{seq::SliceRandom, Rng, RngCore};

pub type Rn = rand_chacha::ChaCha8Rng;

/// a small configuration, so that few elements make complex trees
pub fn config(rng: &mut Rn) -> Config {
    let small = rng.gen_bool(0.75);
    let max_leaf_count = if small {
        *[1, 2, 2, 3, 3, 4, 5, 7, 10].choose(rng).unwrap()
    } else {
        *[16, 33, 64, 65, 200, 1 << 14].choose(rng).unwrap()
    };
    let max_key_branches = *if small { &[1, 2, 2, 3, 4, 5][..] } else { &[2, 4, 8, 32, 70][..] }
        .choose(rng)
        .unwrap();
    let max_summary_branches = *if small { &[2, 2, 3, 4, 5][..] } else { &[2, 4, 32, 70][..] }
        .choose(rng)
        .unwrap();
    let target_leaf_size = *if rng.gen_bool(0.35) {
        &[1, 30, 60, 200, 1000][..]
    } else {
        &[4000, 16384, 100_000, 1 << 20][..]
    }
    .choose(rng)
    .unwrap();
    let max_uncompressed_leaf_size = *if rng.gen_bool(0.35) {
        &[300, 500, 1000, 5000][..]
    } else {
        &[50_000, 1 << 20, 16 << 20][..]
    }
    .choose(rng)
    .unwrap();
    let zstd_level = match rng.gen_range(0..100) {
        0..=91 => rng.gen_range(1..=3),
        92..=97 => rng.gen_range(4..=8),
        _ => rng.gen_range(9..=12),
    };
    Config {
        max_summary_branches,
        max_key_branches,
        max_leaf_count,
        target_leaf_size,
        max_uncompressed_leaf_size,
        zstd_level,
    }
}
pub fn secrets(rng: &mut Rn) -> banyan::Secrets {
    let mut a = [0u8; 32];
    let mut b = [0u8; 32];
    rng.fill_bytes(&mut a);
    rng.fill_bytes(&mut b);
    banyan::Secrets::new(a.into(), b.into())
}

/// keys of a session: mostly random, sometimes special ones (zero, all bits set, almost equal)
pub fn own_secrets(rng: &mut Rn) -> banyan::Secrets {
    let s = secrets(rng);
    let (mut i, mut v): ([u8; 32], [u8; 32]) = ((*s.index_key()).into(), (*s.value_key()).into());
    match rng.gen_range(0..60) {
        0 | 1 => v = [0; 32],
        2 | 3 => i = [0; 32],
        4 => {
            i = [0; 32];
            v = [0xff; 32]
        }
        5 => {
            // differ in one bit
            v = i;
            v[rng.gen_range(0..32usize)] ^= 1 << rng.gen_range(0..8);
        }
        6 => {
            v = [0; 32];
            v[31] = 1;
        }
        _ => {}
    }
    banyan::Secrets::new(i.into(), v.into())
}

// --- raw CBOR writer
pub fn head(ma: u8, n: u64, out: &mut Vec<u8>) {
    let m = ma << 5;
    match n {
        0..=23 => out.push(m | n as u8),
        24..=0xff => out.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes())
        }
        0x1_0000..=0xffff_ffff => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes())
        }
        _ => {
            out.push(m | 27);
            out.extend(n.to_be_bytes())
        }
    }
}
pub fn bytes(b: &[u8], out: &mut Vec<u8>) {
    head(2, b.len() as u64, out);
    out.extend_from_slice(b);
}
pub fn text(b: &str, out: &mut Vec<u8>) {
    head(3, b.len() as u64, out);
    out.extend_from_slice(b.as_bytes());
}
pub fn link(c: &libipld::Cid, out: &mut Vec<u8>) {
    out.extend([0xd8, 42]);
    let mut b = vec![0];
    b.extend(c.to_bytes());
    bytes(&b, out);
}
/// a random cid: v1 dag-cbor / raw, or v0
pub fn cid(rng: &mut Rn) -> libipld::Cid {
    let mut d = [0u8; 32];
    // few distinct digests, so that duplicates happen
    if rng.gen_bool(0.3) {
        d[0] = rng.gen_range(0..4);
    } else {
        rng.fill_bytes(&mut d);
    }
    let mh = multihash::Multihash::wrap(0x12, &d).unwrap();
    match rng.gen_range(0..4) {
        0 => libipld::Cid::new_v1(0x55, mh),
        1 => libipld::Cid::new_v0(mh).unwrap(),
        2 => libipld::Cid::new_v1(0x70, multihash::Multihash::wrap(0x1e, &d[..20]).unwrap()),
        _ => libipld::Cid::new_v1(0x71, mh),
    }
}
/// random CBOR item, `size` is a rough budget
pub fn item(rng: &mut Rn, size: usize, links: bool, depth: u32, out: &mut Vec<u8>) {
    let comp = depth < 6 && size > 4;
    match rng.gen_range(0..if comp { 22 } else { 12 }) {
        0 => head(0, rng.next_u64() >> rng.gen_range(0..64), out),
        1 => head(1, rng.next_u64() >> rng.gen_range(0..64), out),
        2 => out.push(*[0xf4, 0xf5, 0xf6, 0xf7].choose(rng).unwrap()),
        3 => {
            out.push(0xfb);
            out.extend((rng.gen::<i32>() as f64 / 8.0).to_be_bytes())
        }
        4 => {
            out.push(0xfa);
            out.extend((rng.gen::<i16>() as f32).to_be_bytes())
        }
        5 | 6 => {
            let mut b = vec![0u8; rng.gen_range(0..=size)];
            if rng.gen() {
                rng.fill_bytes(&mut b)
            }
            bytes(&b, out)
        }
        7 | 8 => {
            let n = rng.gen_range(0..=size);
            let s: String = (0..n).map(|_| *['a', 'b', 'ü', '→'].choose(rng).unwrap()).collect();
            text(&s, out)
        }
        9 | 10 if links => link(&cid(rng), out),
        11 => {
            // non-minimal integer, still well-formed CBOR
            out.push(0x19);
            out.extend((rng.gen_range(0..24u16)).to_be_bytes())
        }
        12..=14 => {
            let n = rng.gen_range(0..6usize);
            head(4, n as u64, out);
            for _ in 0..n {
                item(rng, size / n, links, depth + 1, out)
            }
        }
        15..=17 => {
            let n = rng.gen_range(0..5usize);
            head(5, n as u64, out);
            for i in 0..n {
                text(&format!("k{i}"), out);
                item(rng, size / n, links, depth + 1, out)
            }
        }
        18 => {
            out.push(0x9f);
            for _ in 0..rng.gen_range(0..4) {
                item(rng, size / 4, links, depth + 1, out)
            }
            out.push(0xff)
        }
        19 => {
            out.push(0xbf);
            for i in 0..rng.gen_range(0..3) {
                head(0, i, out);
                item(rng, size / 3, links, depth + 1, out)
            }
            out.push(0xff)
        }
        // chunked strings only at the top level, see known_findings.txt (C01)
        20 if depth == 0 => {
            out.push(0x5f);
            for _ in 0..rng.gen_range(0..3) {
                let mut b = vec![0u8; rng.gen_range(0..=size / 3)];
                rng.fill_bytes(&mut b);
                bytes(&b, out)
            }
            out.push(0xff)
        }
        21 => {
            // some tag that is not a link
            head(6, *[32, 41, 43, 300, 1004].choose(rng).unwrap(), out);
            item(rng, size / 2, false, depth + 1, out)
        }
        _ => head(0, rng.gen_range(0..1000), out),
    }
}
#[derive(Clone, Debug)]
pub struct ElGen {
    /// largest size of a value
    pub max_value: usize,
    /// typical size of a value
    pub typ_value: usize,
    pub links: bool,
    pub key_pad: usize,
    pub bucket_step: u64,
    /// classes stay the same for runs of this length
    pub cls_run: u64,
    pub next_id: u64,
    pub bucket: u64,
    pub cls: u64,
    /// up to this many incompressible bytes in most values
    pub noise: usize,
}
impl ElGen {
    pub fn new(rng: &mut Rn, cfg: &Config) -> Self {
        let max_value = cfg.max_uncompressed_leaf_size.saturating_sub(40).clamp(1, 3000);
        ElGen {
            max_value,
            typ_value: (*[4, 12, 12, 40, 200, 1000].choose(rng).unwrap()).min(max_value),
            links: rng.gen_bool(0.4),
            key_pad: *[0, 0, 0, 5, 30].choose(rng).unwrap(),
            bucket_step: *[0, 1, 1, 3].choose(rng).unwrap(),
            cls_run: *[1, 1, 3, 10, 50].choose(rng).unwrap(),
            next_id: 0,
            bucket: 0,
            cls: 0,
            noise: 0,
        }
    }
    pub fn key(&mut self, rng: &mut Rn) -> Key {
        let id = self.next_id;
        self.next_id += 1;
        if self.bucket_step > 0 {
            self.bucket += rng.gen_range(0..=self.bucket_step);
        } else {
            self.bucket = rng.gen_range(0..50);
        }
        if rng.gen_range(0..self.cls_run) == 0 {
            self.cls = rng.gen_range(0..8);
        }
        Key {
            id,
            b: self.bucket,
            c: self.cls,
            l: (self.links && rng.gen_bool(0.3)).then(|| Lnk::digest(&(id / 3).to_be_bytes())),
            p: "p".repeat(if self.key_pad > 0 { rng.gen_range(0..=self.key_pad) } else { 0 }),
        }
    }
    /// a value carrying the id (in most shapes), never larger than max_value
    pub fn value(&mut self, rng: &mut Rn, id: u64) -> Val {
        let size = if rng.gen_bool(0.03) { self.max_value } else { self.typ_value };
        let size = rng.gen_range(0..=size);
        let mut out = Vec::new();
        if self.noise > 0 && rng.gen_bool(0.7) {
            // something before and after the noise
            head(4, 3, &mut out);
            item(rng, 20, self.links, 5, &mut out);
            let mut b = vec![0; rng.gen_range(0..=self.noise)];
            rng.fill_bytes(&mut b);
            bytes(&b, &mut out);
            item(rng, 20, self.links, 5, &mut out);
            return Val(out);
        }
        match rng.gen_range(0..10) {
            0 => head(0, id, &mut out),
            1 => out.push(0xf6),
            2 => {
                let mut b = id.to_be_bytes().to_vec();
                b.resize(8 + size.min(self.max_value.saturating_sub(20)), 7);
                bytes(&b, &mut out)
            }
            _ => {
                head(4, 2, &mut out);
                head(0, id, &mut out);
                item(rng, size, self.links, 0, &mut out);
            }
        }
        if out.len() > self.max_value {
            out.clear();
            head(0, id, &mut out);
        }
        if out.len() > self.max_value {
            out = vec![0xf6];
        }
        Val(out)
    }
    pub fn el(&mut self, rng: &mut Rn) -> El {
        let k = self.key(rng);
        let v = self.value(rng, k.id);
        El { k, v }
    }
    pub fn els(&mut self, rng: &mut Rn, n: usize) -> Vec<El> {
        (0..n).map(|_| self.el(rng)).collect()
    }
}
