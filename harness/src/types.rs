//! Tree types used by most monitors: keys and summaries that can carry links, a value
//! type that holds raw CBOR, a link type that is the sha2-256 digest of the block.
use banyan::{index::*, TreeTypes};
use cbor_data::{
    codec::{CodecError, ReadCbor, WriteCbor},
    Cbor, CborBuilder, Writer,
};
use libipld::{
    cbor::DagCborCodec,
    codec::{Decode, Encode},
    Cid, DagCbor,
};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lnk(pub [u8; 32]);
impl Lnk {
    pub fn digest(d: &[u8]) -> Self {
        use sha2::Digest;
        Lnk(sha2::Sha256::digest(d).into())
    }
    pub fn cid(&self) -> Cid {
        Cid::new_v1(0x71, multihash::Multihash::wrap(0x12, &self.0).unwrap())
    }
    pub fn short(&self) -> String {
        format!("{:02x}{:02x}{:02x}", self.0[0], self.0[1], self.0[2])
    }
}
impl fmt::Display for Lnk {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for b in self.0 {
            write!(f, "{b:02x}")?;
        }
        Ok(())
    }
}
impl fmt::Debug for Lnk {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.short())
    }
}
impl Encode<DagCborCodec> for Lnk {
    fn encode<W: std::io::Write>(&self, c: DagCborCodec, w: &mut W) -> anyhow::Result<()> {
        self.cid().encode(c, w)
    }
}
impl Decode<DagCborCodec> for Lnk {
    fn decode<R: std::io::Read + std::io::Seek>(
        c: DagCborCodec,
        r: &mut R,
    ) -> anyhow::Result<Self> {
        let cid = Cid::decode(c, r)?;
        Ok(Lnk(cid.hash().digest().try_into()?))
    }
}

/// key: unique id, a bucket (usually slowly growing), a class, optional link, padding
#[derive(Clone, Debug, PartialEq, Eq, DagCbor)]
pub struct Key {
    pub id: u64,
    pub b: u64,
    pub c: u64,
    pub l: Option<Lnk>,
    pub p: String,
}
/// summary: number of keys, bucket range, class mask, smallest link
#[derive(Clone, Debug, PartialEq, Eq, DagCbor)]
pub struct Sum {
    pub n: u64,
    pub lo: u64,
    pub hi: u64,
    pub m: u64,
    pub l: Option<Lnk>,
}
impl Sum {
    pub fn of(k: &Key) -> Sum {
        Sum {
            n: 1,
            lo: k.b,
            hi: k.b,
            m: 1 << k.c,
            l: k.l,
        }
    }
    pub fn join(a: Sum, b: &Sum) -> Sum {
        Sum {
            n: a.n + b.n,
            lo: a.lo.min(b.lo),
            hi: a.hi.max(b.hi),
            m: a.m | b.m,
            l: match (a.l, b.l) {
                (Some(a), Some(b)) => Some(a.min(b)),
                (a, b) => a.or(b),
            },
        }
    }
    pub fn all<'a>(it: impl IntoIterator<Item = Sum>) -> Option<Sum> {
        it.into_iter().fold(None, |a, b| {
            Some(match a {
                None => b,
                Some(a) => Sum::join(a, &b),
            })
        })
    }
}
impl Summarizable<Sum> for VecSeq<Key> {
    fn summarize(&self) -> Sum {
        Sum::all(self.as_ref().iter().map(Sum::of)).expect("empty key sequence")
    }
}
impl Summarizable<Sum> for VecSeq<Sum> {
    fn summarize(&self) -> Sum {
        Sum::all(self.as_ref().iter().cloned()).expect("empty summary sequence")
    }
}

#[derive(Clone, Debug)]
pub struct TT;
impl TreeTypes for TT {
    type Key = Key;
    type Summary = Sum;
    type KeySeq = VecSeq<Key>;
    type SummarySeq = VecSeq<Sum>;
    type Link = Lnk;
    const NONCE: &'static [u8; 24] = b"\x07bmon-nonce-\xff\x00\x13-abcdefg\x01";
}

/// arbitrary CBOR value, kept as the raw bytes
#[derive(Clone, PartialEq, Eq)]
pub struct Val(pub Vec<u8>);
impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0.len() <= 24 {
            write!(f, "x")?;
            for b in &self.0 {
                write!(f, "{b:02x}")?;
            }
            Ok(())
        } else {
            write!(f, "[{} bytes #{}]", self.0.len(), Lnk::digest(&self.0).short())
        }
    }
}
impl WriteCbor for Val {
    fn write_cbor<W: Writer>(&self, w: W) -> W::Output {
        w.write_trusting(&self.0)
    }
}
impl ReadCbor for Val {
    fn fmt(f: &mut impl fmt::Write) -> fmt::Result {
        f.write_str("Val")
    }
    fn read_cbor(cbor: &Cbor) -> Result<Self, CodecError> {
        Ok(Val(cbor.as_slice().to_vec()))
    }
}
pub fn write_val(v: &Val) -> Vec<u8> {
    let mut b = Vec::new();
    v.write_cbor(CborBuilder::append_to(&mut b));
    b
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct El {
    pub k: Key,
    pub v: Val,
}
