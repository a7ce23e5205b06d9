use banyan::{index::Index, store::{BlockWriter, BranchCache, MemCache, MemWriter, ReadOnlyStore}, Forest, Transaction};
use bmon::{gen, query::Q, runner, sess::*, store::*, types::*, *};
use rand::{seq::SliceRandom, Rng, RngCore};
use std::collections::{HashMap, HashSet};

type MC = MemCache<Lnk, MonStore>;
type MW = MemWriter<Lnk, MonStore>;

/// what a read gave; errors are all alike
#[derive(Clone, Debug, PartialEq)]
enum Out {
    El(Option<(Key, Val)>),
    Els(Vec<Option<(Key, Val)>>),
    Triples(Vec<Triple>),
    Chunks(Vec<(u64, u64, u64, Vec<Triple>)>),
    Nodes(Vec<(Option<Lnk>, u32, u64)>),
    Text(String),
    Err,
}
#[derive(Clone, Debug)]
enum Read {
    Get(u64),
    Collect,
    CollectFrom(u64),
    Iter(Q),
    IterRev(Q),
    From(u64),
    Stream(Q),
    Chunked(Q),
    ChunkedRev(Q),
    Index(Q, bool),
    Packed,
    LeftRoots,
    Load,
}
fn gen_read(rng: &mut gen::Rn, n: u64, max_b: u64) -> Read {
    let o = rng.gen_range(0..=n);
    let q = Q::gen(rng, n, max_b, 2);
    match rng.gen_range(0..13) {
        0 => Read::Get(o),
        1 => Read::Collect,
        2 => Read::CollectFrom(o),
        3 => Read::Iter(q),
        4 => Read::IterRev(q),
        5 => Read::From(o),
        6 => Read::Stream(q),
        7 => Read::Chunked(q),
        8 => Read::ChunkedRev(q),
        9 => Read::Index(q, rng.gen()),
        10 => Read::Packed,
        11 => Read::LeftRoots,
        _ => Read::Load,
    }
}
fn extra<R>(i: &banyan::index::NodeInfo<TT, R>) -> u64 {
    use banyan::index::NodeInfo::*;
    match i {
        Branch(b, _) => b.count,
        PurgedBranch(b) => b.count + 1_000_000,
        Leaf(l, _) => l.keys.as_ref().len() as u64 + 2_000_000,
        PurgedLeaf(l) => l.keys.as_ref().len() as u64 + 3_000_000,
    }
}
fn node(i: Index<TT>) -> (Option<Lnk>, u32, u64) {
    (*i.link(), i.level(), i.count())
}
fn perform<R: ReadOnlyStore<Lnk>>(f: &Forest<TT, R>, b: &Builder, secrets: &banyan::Secrets, r: &Read) -> Out {
    fn go<R: ReadOnlyStore<Lnk>>(f: &Forest<TT, R>, b: &Builder, secrets: &banyan::Secrets, r: &Read) -> anyhow::Result<Out> {
        let t: T = b.snapshot();
        Ok(match r {
            Read::Get(o) => Out::El(f.get(&t, *o)?),
            Read::Collect => Out::Els(f.collect(&t)?),
            Read::CollectFrom(o) => Out::Els(f.collect_from(&t, *o)?),
            Read::Iter(q) => Out::Triples(f.iter_filtered(&t, q.build()).collect::<Result<_, _>>()?),
            Read::IterRev(q) => Out::Triples(f.iter_filtered_reverse(&t, q.build()).collect::<Result<_, _>>()?),
            Read::From(o) => Out::Triples(f.iter_filtered(&t, banyan::query::OffsetRangeQuery::from(*o..)).collect::<Result<_, _>>()?),
            Read::Stream(q) => Out::Triples(futures::executor::block_on_stream(Box::pin(f.stream_filtered(&t, q.build()))).collect::<Result<_, _>>()?),
            Read::Chunked(q) => Out::Chunks(f.iter_filtered_chunked(&t, q.build(), &extra).map(|c| c.map(|c| (c.range.start, c.range.end, c.extra, c.data))).collect::<Result<_, _>>()?),
            Read::ChunkedRev(q) => Out::Chunks(f.iter_filtered_chunked_reverse(&t, q.build(), &extra).map(|c| c.map(|c| (c.range.start, c.range.end, c.extra, c.data))).collect::<Result<_, _>>()?),
            Read::Index(q, rev) => Out::Nodes(if *rev { f.iter_index_reverse(&t, q.build()).map(|x| x.map(node)).collect::<Result<_, _>>()? } else { f.iter_index(&t, q.build()).map(|x| x.map(node)).collect::<Result<_, _>>()? }),
            Read::Packed => Out::Text(format!("{}", f.is_packed(&t)?)),
            Read::LeftRoots => Out::Text(format!("{:?}", f.left_roots(&t)?.iter().map(|t| (t.link(), t.level(), t.count())).collect::<Vec<_>>())),
            Read::Load => match b.link() {
                Some(l) if b.level() > 0 => {
                    let t: T = f.load_tree(secrets.clone(), l)?;
                    Out::Text(format!("{} {} {:?}", t.count(), t.level(), t.link()))
                }
                _ => Out::Text(String::new()),
            },
        })
    }
    go(f, b, secrets, r).unwrap_or(Out::Err)
}
/// the right answer where the content of the stream decides it
fn right(s: &Sess, r: &Read) -> Option<Out> {
    Some(match r {
        Read::Get(o) => Out::El(s.model.get(*o as usize).cloned().flatten()),
        Read::Collect => Out::Els(s.model.clone()),
        Read::CollectFrom(o) => Out::Els(s.model[*o as usize..].to_vec()),
        Read::Iter(q) | Read::Stream(q) => Out::Triples(expected(&s.model, q)),
        Read::IterRev(q) => Out::Triples(expected(&s.model, q).into_iter().rev().collect()),
        Read::From(o) => Out::Triples(expected(&s.model, &Q::range(*o, u64::MAX))),
        _ => return None,
    })
}
enum Kind {
    Plain(Txn),
    Mem(Transaction<TT, MC, MW>, MC, usize, usize),
}
struct Variant {
    name: String,
    store: MonStore,
    kind: Kind,
    cache: BranchCache<TT>,
    cap: usize,
    b: Builder,
    /// other streams that use the same forest, store and cache
    other: Option<Box<Sess>>,
}
impl Variant {
    fn exec(&mut self, s: &Sess, op: &Op) -> anyhow::Result<bool> {
        if let Op::Reload = op {
            if self.b.level() > 0 && self.b.link().is_some() {
                let l = self.b.link().unwrap();
                self.b = match &self.kind {
                    Kind::Plain(t) => t.load_stream_builder(s.secrets.clone(), s.cfg.clone(), l)?,
                    Kind::Mem(t, ..) => t.load_stream_builder(s.secrets.clone(), s.cfg.clone(), l)?,
                };
            }
            return Ok(true);
        }
        match &mut self.kind {
            Kind::Plain(t) => exec(t, &mut self.b, op),
            Kind::Mem(t, ..) => exec(t, &mut self.b, op),
        }
    }
    fn read(&self, s: &Sess, r: &Read) -> Out {
        match &self.kind {
            Kind::Plain(t) => perform(t, &self.b, &s.secrets, r),
            Kind::Mem(t, ..) => perform(t, &self.b, &s.secrets, r),
        }
    }
    /// what the branch cache holds must fit into its capacity
    fn capacity(&self, c: &mut Case, links: &[Lnk]) -> Res {
        let (mut bytes, mut n) = (0, 0);
        for l in links {
            if let Some(b) = self.cache.get(l) {
                n += 1;
                for ch in b.children.iter() {
                    // less than any sensible measure of the size
                    bytes += std::mem::size_of::<Index<TT>>();
                    match ch {
                        Index::Leaf(l) => bytes += l.keys.as_ref().len() * std::mem::size_of::<Key>(),
                        Index::Branch(b) => bytes += b.summaries.as_ref().len() * std::mem::size_of::<Sum>(),
                    }
                }
            }
        }
        check!(bytes <= self.cap, "{}: the branch cache with capacity {} holds {n} branches with {bytes} bytes", self.name, self.cap);
        c.count("cached_branches_seen", n);
        Ok(())
    }
}
fn lockstep(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    s.scale = s.scale.min(80);
    s.cache = 0;
    s.txn = txn(&s.store, 0);
    let mut vs: Vec<Variant> = vec![];
    for _ in 0..c.rng.gen_range(2..=4) {
        let store = MonStore::new();
        let cap = *[1usize, 300, 2000, 10_000, 1 << 18, 64 << 20].choose(&mut c.rng).unwrap();
        let cache = BranchCache::new(cap);
        let mut other = None;
        let kind = if c.rng.gen_bool(0.4) {
            let size = *[0usize, 1, 100, 300, 1000, 1 << 20].choose(&mut c.rng).unwrap();
            let mcap = *[0usize, 1, 200, 2000, 20_000, 1 << 22].choose(&mut c.rng).unwrap();
            let m = MC::new(store.clone(), size, mcap);
            let w = m.write(|s| Ok(s.clone())).unwrap();
            Kind::Mem(Transaction::new(Forest::new(m.clone(), cache.clone()), w), m, size, mcap)
        } else {
            let t: Txn = Transaction::new(Forest::new(store.clone(), cache.clone()), store.clone());
            if c.rng.gen() {
                let same = c.rng.gen();
                let sec = if same { s.secrets.clone() } else { gen::secrets(&mut c.rng) };
                let cfg = gen::config(&mut c.rng);
                let mut o = Sess::with_store(&mut c.rng, cfg, sec, store.clone(), cap);
                o.scale = o.scale.min(40);
                o.txn = Transaction::new((*t).clone(), store.clone());
                other = Some(Box::new(o));
            }
            Kind::Plain(t)
        };
        let name = format!("branch cache {cap}{}{}", match &kind { Kind::Mem(_, _, a, b) => format!(", block cache {b} for blocks up to {a}"), _ => "".into() }, if other.is_some() { ", shared" } else { "" });
        vs.push(Variant { name, store, kind, cache, cap, b: banyan::StreamBuilder::new(s.cfg.clone(), s.secrets.clone()), other });
    }
    let w = *[Weights::ALL, Weights { from: 0, ..Weights::APPEND }].choose(&mut c.rng).unwrap();
    for step in 0..c.rng.gen_range(2..=12) {
        let op = s.op(&mut c.rng, &w);
        let fault = if c.rng.gen_bool(0.15) { Some((c.rng.gen_range(0..5), *[PutFault::Lost, PutFault::StoredButError].choose(&mut c.rng).unwrap())) } else { None };
        for st in vs.iter().map(|v| &v.store).chain(std::iter::once(&s.store)) {
            st.with(|st| st.put_fault = fault);
        }
        let mark = s.store.mark();
        let r = s.apply(&op);
        let want = s.store.puts_since(mark);
        c.desc = format!("{} vs {}", s.describe(), vs.iter().map(|v| v.name.clone()).collect::<Vec<_>>().join(" / "));
        check!(r.is_ok() || fault.is_some(), "{} failed: {:#}", op.name(), r.unwrap_err());
        for v in &mut vs {
            let m = v.store.mark();
            let r2 = v.exec(&s, &op);
            check!(r.is_ok() == r2.is_ok(), "{}: {} {r:?} without caches, {r2:?}", v.name, op.name());
            let got = v.store.puts_since(m);
            check!(got == want, "{}: {} wrote {got:?}, without caches {want:?}", v.name, op.name());
            check!(v.b.link() == s.b.link() && v.b.count() == s.b.count() && v.b.level() == s.b.level(), "{}: {} leads to another root", v.name, op.name());
            c.count("operations", 1);
            c.count("same_blocks", want.len() as u64);
        }
        s.store.heal();
        vs.iter().for_each(|v| v.store.heal());
        if matches!(op, Op::Retain(_) | Op::Repair) && r.is_ok() {
            s.sync_absent()?;
        }
        // others use the cache, or it is reset
        for v in &mut vs {
            if let Some(o) = &mut v.other {
                let op = o.op(&mut c.rng, &Weights::ALL);
                o.must(&op)?;
                if matches!(op, Op::Retain(_) | Op::Repair) { o.sync_absent()?; }
                let t = o.tree();
                same(&ok(o.txn.collect(&t), "collect")?, &o.model, &format!("{}: the other stream", v.name))?;
            }
            if c.rng.gen_bool(0.15) {
                v.cap = *[1usize, 500, 3000, 1 << 18].choose(&mut c.rng).unwrap();
                v.cache.reset(std::num::NonZeroUsize::new(v.cap).unwrap());
                c.count("resets", 1);
            }
        }
        let branches: Vec<Lnk> = s.walk()?.map(|n| n.nodes().iter().filter(|n| n.m.level > 0).filter_map(|n| n.m.link).collect()).unwrap_or_default();
        // reads, in part with missing blocks
        for _ in 0..4 {
            let rd = gen_read(&mut c.rng, s.n(), s.gen.bucket);
            let mut hidden = HashSet::new();
            if c.rng.gen_bool(0.25) {
                if let Some(n) = s.walk()? {
                    let l: Vec<Lnk> = n.links().into_iter().collect();
                    let k = c.rng.gen_range(1..=3);
                    hidden.extend(l.choose_multiple(&mut c.rng, k).copied());
                }
            }
            for st in vs.iter().map(|v| &v.store).chain(std::iter::once(&s.store)) {
                st.with(|st| st.hidden = hidden.clone());
            }
            let want = perform(&s.txn, &s.b, &s.secrets, &rd);
            if let (Some(r), true) = (right(&s, &rd), want != Out::Err) {
                check!(r == want, "without caches: {rd:?} gives {want:?} instead of {r:?}");
            }
            check!(want != Out::Err || !hidden.is_empty(), "without caches: {rd:?} fails");
            for v in &vs {
                let got = v.read(&s, &rd);
                c.count("reads", 1);
                if want != Out::Err {
                    check!(got == want, "{}: {rd:?} gives {got:?}, without caches {want:?}", v.name);
                    c.count("equal_reads", 1);
                } else if got != Out::Err {
                    // the cache made it possible: then it must be right
                    s.store.heal();
                    let want = perform(&s.txn, &s.b, &s.secrets, &rd);
                    s.store.with(|st| st.hidden = hidden.clone());
                    check!(got == want, "{}: {rd:?} gives {got:?} with blocks missing, without caches and missing blocks {want:?}", v.name);
                    c.count("reads_from_cache_only", 1);
                } else {
                    c.count("equal_errors", 1);
                }
            }
            s.store.heal();
            vs.iter().for_each(|v| v.store.heal());
        }
        for v in &vs {
            v.capacity(c, &branches)?;
            if let Kind::Mem(_, m, size, cap) = &v.kind {
                let all: Vec<(Lnk, usize)> = v.store.with(|s| s.blocks.iter().map(|(l, b)| (*l, b.len())).collect());
                held(c, m, &v.store, &all, *size, *cap)?;
            }
        }
        if step > 3 { c.nontrivial = true }
    }
    if let Some(n) = s.walk()? {
        c.saw(n.shape());
    }
    Ok(())
}
/// what a block cache holds, seen by making the store unavailable
fn held(c: &mut Case, m: &MC, store: &MonStore, all: &[(Lnk, usize)], size: usize, cap: usize) -> Res {
    store.with(|s| s.down = true);
    let mut bytes = 0;
    for (l, n) in all {
        if let Ok(d) = m.get(l) {
            check!(d.len() == *n && store.raw(l).map(|r| *r == *d).unwrap_or(true), "the block cache returns other bytes for {l:?}");
            check!(*n <= size, "a block of {n} bytes is cached, the limit is {size}");
            bytes += n;
            c.count("cached_blocks_seen", 1);
        }
    }
    store.heal();
    check!(bytes <= cap, "the block cache holds {bytes} bytes, its capacity is {cap}");
    Ok(())
}
/// what was just put or offered, and is within both limits, is in the cache
fn fresh(c: &mut Case, m: &MC, store: &MonStore, l: &Lnk, d: &[u8], size: usize, cap: usize) -> Res {
    if d.is_empty() || d.len() > size.min(cap) || c.rng.gen_bool(0.5) { return Ok(()) }
    let mark = store.mark();
    check!(m.get(l).ok().as_deref() == Some(d), "a block of {} bytes that was just offered to the cache is not there", d.len());
    check!(store.mark() == mark, "a block of {} bytes was just offered to a cache for blocks of up to {size} and {cap} bytes, but is read from the store", d.len());
    c.count("cached_reads", 1);
    Ok(())
}
/// the block cache by itself, with puts, offers and reads in any order
fn blocks(c: &mut Case) -> Res {
    let size = *[0usize, 1, 10, 100, 1000].choose(&mut c.rng).unwrap();
    let cap = *[0usize, 1, 50, 500, 5000, 1 << 20].choose(&mut c.rng).unwrap();
    c.desc = format!("block cache of {cap} bytes for blocks up to {size}");
    let store = MonStore::new();
    let m = MC::new(store.clone(), size, cap);
    let mut ws = vec![m.write(|s| Ok(s.clone())).unwrap(), m.clone().write(|s| Ok(s.clone())).unwrap()];
    let mut known: HashMap<Lnk, Vec<u8>> = HashMap::new();
    let mut links: Vec<Lnk> = vec![];
    // only offered, never written
    let mut offered: HashSet<Lnk> = HashSet::new();
    for _ in 0..c.rng.gen_range(20..=150) {
        let n = match c.rng.gen_range(0..5) {
            0 => size,
            1 => size + 1,
            2 => c.rng.gen_range(0..=size),
            3 => cap.min(3000),
            _ => c.rng.gen_range(0..200),
        };
        let mut d = vec![0; n];
        c.rng.fill_bytes(&mut d);
        let mark = store.mark();
        match c.rng.gen_range(0..8) {
            0..=2 => {
                if c.rng.gen_bool(0.2) && !links.is_empty() {
                    d = known[links.choose(&mut c.rng).unwrap()].clone();
                }
                let fault = c.rng.gen_bool(0.1);
                if fault {
                    store.with(|s| s.put_fault = Some((0, PutFault::Lost)));
                }
                let i = c.rng.gen_range(0..2);
                let r = ws[i].put(d.clone());
                store.heal();
                let l = Lnk::digest(&d);
                check!(r.is_ok() != fault, "put returns {r:?}");
                let puts = store.puts_since(mark);
                check!(puts == vec![l], "one put through the block cache wrote {puts:?}");
                if !fault {
                    check!(r.unwrap() == l, "put returned another link");
                    offered.remove(&l);
                    fresh(c, &m, &store, &l, &d, size, cap)?;
                    if known.insert(l, d).is_none() { links.push(l) }
                } else if !known.contains_key(&l) {
                    check!(m.get(&l).is_err(), "a block that could not be written is readable");
                    c.count("failed_puts", 1);
                }
                c.count("puts", 1);
            }
            3 => {
                let l = Lnk::digest(&d);
                m.offer(&l, &d);
                check!(store.mark() == mark, "offering a block accessed the store");
                fresh(c, &m, &store, &l, &d, size, cap)?;
                if known.insert(l, d).is_none() { links.push(l); offered.insert(l); }
                c.count("offers", 1);
            }
            4 => {
                let l = Lnk::digest(&d);
                if !known.contains_key(&l) {
                    check!(m.get(&l).is_err(), "an unknown link is readable");
                }
            }
            _ => if let Some(l) = links.choose(&mut c.rng) {
                match m.get(l) {
                    Ok(x) => {
                        check!(*x == known[l][..], "the block cache returns other bytes for {l:?}");
                        c.count("block_reads", 1);
                        if known[l].len() > size {
                            check!(store.mark() > mark, "a block of {} bytes is cached, the limit is {size}", known[l].len());
                        }
                    }
                    Err(e) => check!(offered.contains(l), "a stored block can not be read: {e:#}"),
                }
                check!(store.puts_since(mark).is_empty(), "a read wrote to the store");
            },
        }
        if c.rng.gen_bool(0.2) {
            let all: Vec<(Lnk, usize)> = links.iter().map(|l| (*l, known[l].len())).collect();
            held(c, &m, &store, &all, size, cap)?;
        }
    }
    c.nontrivial = known.len() > 3;
    c.saw((size, cap));
    // many users at once
    if c.rng.gen_bool(0.2) {
        let seeds: Vec<u64> = (0..4).map(|_| c.rng.gen()).collect();
        let r: Vec<Res<u64>> = std::thread::scope(|sc| {
            let hs: Vec<_> = seeds.iter().map(|seed| {
                let (m, known, links, offered) = (&m, &known, &links, &offered);
                sc.spawn(move || runner::guarded(|| {
                    let mut x = *seed | 1;
                    let mut w = m.write(|s| Ok(s.clone())).unwrap();
                    let mut n = 0;
                    for _ in 0..100 {
                        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                        if links.is_empty() { break }
                        let l = links[x as usize % links.len()];
                        match x >> 60 {
                            0..=3 => { ok(w.put(known[&l].clone()), "put")?; }
                            4..=6 => m.offer(&l, &known[&l]),
                            _ => match m.get(&l) {
                                Ok(d) => { check!(*d == known[&l][..], "the block cache returns other bytes for {l:?} under concurrent use"); n += 1 }
                                Err(e) => check!(offered.contains(&l), "a stored block can not be read: {e:#}"),
                            },
                        }
                    }
                    Ok(n)
                }))
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for x in r { c.count("concurrent_block_reads", x?) }
        let all: Vec<(Lnk, usize)> = links.iter().map(|l| (*l, known[l].len())).collect();
        held(c, &m, &store, &all, size, cap)?;
    }
    Ok(())
}
fn case(c: &mut Case) -> Res {
    if c.rng.gen_bool(0.25) { blocks(c) } else { lockstep(c) }
}
fn main() {
    runner::main(Prop {
        require: &[("operations", 10_000), ("same_blocks", 20_000), ("equal_reads", 20_000), ("equal_errors", 1000), ("reads_from_cache_only", 500), ("resets", 500), ("cached_branches_seen", 5000), ("cached_blocks_seen", 5000), ("offers", 1000), ("cached_reads", 1000), ("concurrent_block_reads", 1000)],
        ..Prop::new("C18", "lockstep: the same random history (with write faults) on a stream without caches and on 2-4 streams with different branch caches (1 byte to unlimited, reset in between, shared with another stream of equal or different secrets on the same forest) and block caches in front of the store: outcomes, blocks written and results of random reads (in part with missing blocks) must be equal, results that only the cache makes possible must be right; what branch and block caches hold is probed against their limits; separately, random puts, offers and reads on a block cache, also from many threads; non-trivial: more than 3 steps or blocks; distinct: final shapes and limits", case)
    });
}
