//! Independent reader of the on-disk format: decodes blocks (dag-cbor 3-list, XChaCha20 at
//! the recorded offset, zstd, CBOR sequence) without using banyan's codec, and rebuilds the
//! whole tree below a root. The oracles compare what banyan says with what is really stored.
use crate::{
    cborx,
    store::MonStore,
    types::{Key, Lnk, Sum, Val, TT},
};
use banyan::{
    index::{CompactSeq, Index, VecSeq},
    Config, Secrets, TreeTypes,
};
use chacha20::{
    cipher::{NewCipher, StreamCipher, StreamCipherSeek},
    XChaCha20,
};
use libipld::{
    cbor::DagCborCodec,
    codec::{Codec, Decode},
    Cid, DagCbor, Ipld,
};
use std::{
    collections::{BTreeSet, HashMap, HashSet},
    ops::Range,
    sync::Arc,
};

#[derive(DagCbor, Debug, Clone)]
struct WLeaf {
    sealed: bool,
    link: Option<Lnk>,
    keys: VecSeq<Key>,
    value_bytes: u64,
}
#[derive(DagCbor, Debug, Clone)]
struct WBranch {
    count: u64,
    level: u32,
    sealed: bool,
    link: Option<Lnk>,
    summaries: VecSeq<Sum>,
    value_bytes: u64,
    key_bytes: u64,
}

/// what a parent (or the root handle) says about a node
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Meta {
    pub link: Option<Lnk>,
    pub level: u32,
    pub sealed: bool,
    pub count: u64,
    pub value_bytes: u64,
    pub key_bytes: u64,
    pub keys: Vec<Key>,
    pub sums: Vec<Sum>,
}
impl Meta {
    pub fn of(i: &Index<TT>) -> Meta {
        match i {
            Index::Leaf(l) => Meta {
                link: l.link,
                level: 0,
                sealed: l.sealed,
                count: l.keys.as_ref().len() as u64,
                value_bytes: l.value_bytes,
                key_bytes: 0,
                keys: l.keys.as_ref().to_vec(),
                sums: vec![],
            },
            Index::Branch(b) => Meta {
                link: b.link,
                level: b.level,
                sealed: b.sealed,
                count: b.count,
                value_bytes: b.value_bytes,
                key_bytes: b.key_bytes,
                keys: vec![],
                sums: b.summaries.as_ref().to_vec(),
            },
        }
    }
    pub fn is_leaf(&self) -> bool {
        self.level == 0
    }
    pub fn summary(&self) -> Option<Sum> {
        if self.is_leaf() {
            Sum::all(self.keys.iter().map(Sum::of))
        } else {
            Sum::all(self.sums.iter().cloned())
        }
    }
}

/// public envelope of a block
#[derive(Debug, Clone)]
pub struct Env {
    pub offset: u64,
    pub links: Vec<Cid>,
    pub blob: Vec<u8>,
}
pub fn envelope(block: &[u8]) -> Result<Env, String> {
    let x: Ipld = DagCborCodec.decode(block).map_err(|e| format!("not dag-cbor: {e}"))?;
    if !cborx::well_formed(block) {
        return Err("trailing bytes after the block".into());
    }
    match x {
        Ipld::List(l) if l.len() == 3 => {
            let offset = match &l[0] {
                Ipld::Integer(i) => u64::try_from(*i).map_err(|_| "negative offset")?,
                _ => return Err("offset is not an integer".into()),
            };
            let links = match &l[1] {
                Ipld::List(l) => l
                    .iter()
                    .map(|x| match x {
                        Ipld::Link(c) => Ok(*c),
                        _ => Err("links section has a non-link".to_string()),
                    })
                    .collect::<Result<Vec<_>, _>>()?,
                _ => return Err("links section is not a list".into()),
            };
            let blob = match &l[2] {
                Ipld::Bytes(b) => b.clone(),
                _ => return Err("blob is not bytes".into()),
            };
            Ok(Env {
                offset,
                links,
                blob,
            })
        }
        _ => Err("block is not a 3-list".into()),
    }
}
pub fn xor(key: &chacha20::Key, nonce: &[u8; 24], offset: u64, data: &[u8]) -> Vec<u8> {
    let mut c = XChaCha20::new(key, chacha20::XNonce::from_slice(nonce));
    c.seek(offset);
    let mut d = data.to_vec();
    c.apply_keystream(&mut d);
    d
}
/// decrypt and decompress the content of a block
pub fn content(env: &Env, key: &chacha20::Key, nonce: &[u8; 24]) -> Result<Vec<u8>, String> {
    let c = xor(key, nonce, env.offset, &env.blob);
    zstd::stream::decode_all(&c[..]).map_err(|e| format!("zstd: {e}"))
}

#[derive(Debug)]
pub struct Block {
    pub env: Env,
    pub len: usize,
    pub plain: Vec<u8>,
    pub plain_links: BTreeSet<Cid>,
    /// leaf: the values; branch: empty
    pub values: Vec<Vec<u8>>,
    /// branch: what it says about the children
    pub children: Vec<Meta>,
}
pub fn decode_leaf(block: &[u8], s: &Secrets) -> Result<Block, String> {
    let env = envelope(block)?;
    let plain = content(&env, s.value_key(), TT::NONCE)?;
    Ok(Block {
        len: block.len(),
        plain_links: cborx::links(&plain)?,
        values: cborx::split(&plain)?,
        children: vec![],
        env,
        plain,
    })
}
pub fn decode_branch(block: &[u8], s: &Secrets) -> Result<Block, String> {
    let env = envelope(block)?;
    let plain = content(&env, s.index_key(), TT::NONCE)?;
    let mut children = vec![];
    for item in cborx::split(&plain)? {
        let ipld: Ipld = DagCborCodec.decode(&item).map_err(|e| format!("child: {e}"))?;
        let m = match &ipld {
            Ipld::Map(m) => m,
            _ => return Err("child index is not a map".into()),
        };
        let mut r = std::io::Cursor::new(&item);
        children.push(if m.contains_key("level") {
            let b = WBranch::decode(DagCborCodec, &mut r).map_err(|e| format!("child: {e}"))?;
            if b.level == 0 {
                return Err("branch with level 0".into());
            }
            Meta {
                link: b.link,
                level: b.level,
                sealed: b.sealed,
                count: b.count,
                value_bytes: b.value_bytes,
                key_bytes: b.key_bytes,
                keys: vec![],
                sums: b.summaries.to_vec(),
            }
        } else {
            let l = WLeaf::decode(DagCborCodec, &mut r).map_err(|e| format!("child: {e}"))?;
            Meta {
                link: l.link,
                level: 0,
                sealed: l.sealed,
                count: l.keys.len() as u64,
                value_bytes: l.value_bytes,
                key_bytes: 0,
                keys: l.keys.to_vec(),
                sums: vec![],
            }
        });
    }
    Ok(Block {
        len: block.len(),
        plain_links: cborx::links(&plain)?,
        values: vec![],
        children,
        env,
        plain,
    })
}

#[derive(Default, Clone)]
pub struct Memo(HashMap<(Lnk, bool), Arc<Block>>);

#[derive(Debug, Clone)]
pub enum State {
    Present(Arc<Block>),
    Purged,
    /// the block is not in the store (or hidden)
    Missing,
}
#[derive(Debug, Clone)]
pub struct Node {
    pub m: Meta,
    pub start: u64,
    pub state: State,
    pub children: Vec<Node>,
}
impl Node {
    pub fn range(&self) -> Range<u64> {
        self.start..self.start + self.m.count
    }
    /// preorder
    pub fn all<'a>(&'a self, out: &mut Vec<&'a Node>) {
        let mut stack = vec![self];
        while let Some(n) = stack.pop() {
            out.push(n);
            for c in n.children.iter().rev() {
                stack.push(c);
            }
        }
    }
    pub fn nodes(&self) -> Vec<&Node> {
        let mut v = vec![];
        self.all(&mut v);
        v
    }
    pub fn leaves(&self) -> Vec<&Node> {
        self.nodes().into_iter().filter(|n| n.m.is_leaf()).collect()
    }
    pub fn links(&self) -> HashSet<Lnk> {
        self.nodes().iter().filter_map(|n| n.m.link).collect()
    }
    pub fn present(&self) -> bool {
        matches!(self.state, State::Present(_))
    }
    pub fn block(&self) -> Option<&Arc<Block>> {
        match &self.state {
            State::Present(b) => Some(b),
            _ => None,
        }
    }
    /// content below this node, None for absent elements
    pub fn elements(&self) -> Vec<Option<(Key, Val)>> {
        let mut r = Vec::new();
        for n in self.nodes() {
            if let State::Present(b) = &n.state {
                if n.m.is_leaf() {
                    for (k, v) in n.m.keys.iter().zip(b.values.iter()) {
                        r.push(Some((k.clone(), Val(v.clone()))));
                    }
                }
            } else {
                r.extend((0..n.m.count).map(|_| None));
            }
        }
        r
    }
    pub fn depth(&self) -> usize {
        let mut d = 0;
        let mut level = vec![self];
        while !level.is_empty() {
            d += 1;
            level = level.iter().flat_map(|n| n.children.iter()).collect();
        }
        d
    }
    /// compact rendering of the shape
    pub fn shape(&self) -> String {
        fn go(n: &Node, d: usize, s: &mut String) {
            if s.len() > 300 {
                return;
            }
            if !n.present() {
                s.push('~');
            }
            if n.m.is_leaf() {
                s.push_str(&format!("{}", n.m.count));
            } else {
                s.push('(');
                for (i, c) in n.children.iter().enumerate() {
                    if i > 0 {
                        s.push(' ');
                    }
                    if d < 40 {
                        go(c, d + 1, s);
                    }
                }
                s.push(')');
            }
            if n.m.sealed {
                s.push('!');
            }
        }
        let mut s = String::new();
        go(self, 0, &mut s);
        s
    }
}

/// rebuild the tree below `root` from the raw blocks. Err: a block is malformed.
pub fn walk(store: &MonStore, root: &Meta, s: &Secrets, memo: &mut Memo) -> Result<Node, String> {
    walk0(store, root, s, memo, 0, &HashSet::new(), 0)
}
/// as walk, but treats blocks in `lost` as missing
pub fn walk_lost(
    store: &MonStore,
    root: &Meta,
    s: &Secrets,
    memo: &mut Memo,
    lost: &HashSet<Lnk>,
) -> Result<Node, String> {
    walk0(store, root, s, memo, 0, lost, 0)
}
fn walk0(
    store: &MonStore,
    m: &Meta,
    s: &Secrets,
    memo: &mut Memo,
    start: u64,
    lost: &HashSet<Lnk>,
    depth: usize,
) -> Result<Node, String> {
    if depth > 20_000 {
        return Err("tree too deep (cycle?)".into());
    }
    let mut node = Node {
        m: m.clone(),
        start,
        state: State::Purged,
        children: vec![],
    };
    let link = match m.link {
        None => return Ok(node),
        Some(l) => l,
    };
    node.state = State::Missing;
    if lost.contains(&link) {
        return Ok(node);
    }
    let key = (link, m.is_leaf());
    let block = match memo.0.get(&key) {
        Some(b) if store.raw(&link).is_some() => b.clone(),
        _ => {
            let raw = match store.raw(&link) {
                None => return Ok(node),
                Some(r) => r,
            };
            let b = if m.is_leaf() {
                decode_leaf(&raw, s)
            } else {
                decode_branch(&raw, s)
            }
            .map_err(|e| {
                format!("block {} (level {}): {}", link.short(), m.level, e)
            })?;
            let b = Arc::new(b);
            memo.0.insert(key, b.clone());
            b
        }
    };
    let mut at = start;
    for c in &block.children {
        node.children
            .push(walk0(store, c, s, memo, at, lost, depth + 1)?);
        at += c.count;
    }
    node.state = State::Present(block);
    Ok(node)
}

/// the children of a level `level` branch are limited to this
pub fn max_children(cfg: &Config, level: u32) -> usize {
    if level == 1 {
        cfg.max_key_branches
    } else {
        cfg.max_summary_branches
    }
}
