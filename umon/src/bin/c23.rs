use banyan::{
    query::{AllQuery, AndQuery, OffsetRangeQuery, QueryExt},
    index::{CompactSeq, Index, Summarizable},
    store::{BlockWriter, BranchCache, MemStore, ReadOnlyStore},
    Forest, Secrets, StreamBuilder, Transaction, Tree,
};
use banyan_utils::{tag_index::{Tag, TagSet}, tags::{DnfQuery, Key, KeySeq, Sha256Digest, TT}};
use bmon::{check, gen, runner, runner::*, sess::{drain, drain_stream, ok, Fail, Res}};
use libipld::{cbor::DagCborCodec, codec::Codec};
use rand::{seq::SliceRandom, Rng, RngCore};
use std::{collections::{BTreeSet, HashMap}, sync::{Arc, Mutex}};

/// a memory store that knows what was read
#[derive(Clone)]
struct Store(MemStore<Sha256Digest>, Arc<Mutex<Vec<Sha256Digest>>>);
impl Store {
    fn new() -> Store {
        Store(MemStore::new(usize::MAX, Sha256Digest::new), Default::default())
    }
    fn reads(&self) -> Vec<Sha256Digest> {
        std::mem::take(&mut self.1.lock().unwrap())
    }
}
impl ReadOnlyStore<Sha256Digest> for Store {
    fn get(&self, link: &Sha256Digest) -> anyhow::Result<Box<[u8]>> {
        self.1.lock().unwrap().push(*link);
        self.0.get(link)
    }
}
impl BlockWriter<Sha256Digest> for Store {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Sha256Digest> {
        self.0.put(data)
    }
}
/// the nodes of the tree that can be read: link, whether it is a leaf, elements
type Nodes = HashMap<Sha256Digest, (bool, std::ops::Range<usize>)>;
fn nodes(f: &Forest<TT, Store>, t: &Tree<TT, String>) -> Res<Nodes> {
    let (mut at, mut r) = (0, Nodes::new());
    for i in f.iter_index(t, AllQuery) {
        let i = ok(i, "iter_index")?;
        let leaf = matches!(i, Index::Leaf(_));
        if let Some(l) = i.link() {
            r.insert(*l, (leaf, at..at + i.count() as usize));
        }
        if leaf || i.link().is_none() {
            at += i.count() as usize;
        }
    }
    Ok(r)
}
/// only what may contain matching elements is read
fn needed(c: &mut Case, s: &Store, n: &Nodes, root: Option<Sha256Digest>, m: &[El], alts: &[Alt], what: &str) -> Res {
    for l in s.reads() {
        let (leaf, r) = n.get(&l).cloned().ok_or_else(|| Fail(format!("{what}: {l} is not part of the tree")))?;
        let els = &m[r.clone()];
        if leaf {
            // a tree with a single leaf, too
            check!(els.iter().any(|e| alts.iter().any(|a| a.has(e))), "{what}: the leaf {r:?} was read, but no element matches {alts:?}");
            c.count("leaves_read", 1);
        } else if Some(l) != root {
            let (lo, hi) = (els.iter().map(|e| e.time).min().unwrap(), els.iter().map(|e| e.time).max().unwrap());
            let may = |a: &Alt| a.min <= hi && lo <= a.max && els.iter().any(|e| !e.tags.is_disjoint(&a.tags));
            check!(alts.iter().any(may), "{what}: the branch {r:?} was read, but its times {lo}..={hi} and tags exclude all of {alts:?}");
            c.count("branches_read", 1);
        }
    }
    Ok(())
}
#[derive(Clone, Debug, PartialEq)]
struct El {
    lamport: u64,
    time: u64,
    tags: BTreeSet<usize>,
    value: String,
    /// every retain so far asked for it
    kept: bool,
}
#[derive(Clone, Debug)]
struct Alt {
    min: u64,
    max: u64,
    tags: BTreeSet<usize>,
    how: u8,
}
impl Alt {
    fn has(&self, e: &El) -> bool {
        self.min <= e.time && e.time <= self.max && e.tags.is_subset(&self.tags)
    }
}
struct Gen {
    tags: Vec<Tag>,
    times: u8,
    clock: u64,
    density: f64,
    /// some elements have no tags
    untagged: bool,
}
impl Gen {
    fn new(rng: &mut gen::Rn) -> Gen {
        let n = *[1usize, 2, 3, 6, 12, 40].choose(rng).unwrap();
        let mut s = BTreeSet::new();
        while s.len() < n {
            s.insert(match rng.gen_range(0..6) {
                0 => format!("a rather long tag with the number {}", rng.gen_range(0..100)),
                1 => ["", "'", "ä", "\0", "a", "b"].choose(rng).unwrap().to_string(),
                _ => format!("t{}", rng.gen_range(0..100)),
            });
        }
        let mut tags: Vec<Tag> = s.into_iter().map(Tag::from).collect();
        tags.shuffle(rng);
        Gen { tags, times: rng.gen_range(0..4), clock: rng.gen_range(0..1000), density: *[0.05, 0.2, 0.6].choose(rng).unwrap(), untagged: rng.gen_bool(0.2) }
    }
    fn set(&self, s: &BTreeSet<usize>) -> TagSet {
        s.iter().map(|i| self.tags[*i].clone()).collect()
    }
    /// hardly ever empty; not all tags are used by elements
    fn some_tags(&self, rng: &mut gen::Rn) -> BTreeSet<usize> {
        if self.untagged && rng.gen_bool(0.3) {
            return BTreeSet::new();
        }
        let n = (self.tags.len() * 3 + 3) / 4;
        let mut s: BTreeSet<usize> = (0..n).filter(|_| rng.gen_bool(self.density)).take(8).collect();
        if s.is_empty() {
            s.insert(rng.gen_range(0..n));
        }
        s
    }
    fn el(&mut self, rng: &mut gen::Rn) -> El {
        let time = match self.times {
            0 => { self.clock += rng.gen_range(0..5); self.clock }
            1 => rng.gen_range(0..300),
            2 => *[0, 1, 5, u64::MAX, u64::MAX - 1, 1 << 63].choose(rng).unwrap(),
            _ => rng.next_u64() >> rng.gen_range(0..64),
        };
        El { lamport: rng.next_u64() >> rng.gen_range(0..64), time, tags: self.some_tags(rng), value: format!("v{}", rng.gen::<u32>()), kept: true }
    }
    fn key(&self, e: &El) -> Key {
        Key::single(e.lamport, e.time, self.set(&e.tags))
    }
    fn alt(&self, rng: &mut gen::Rn, m: &[El]) -> Alt {
        let t = |rng: &mut gen::Rn| match m.choose(rng) {
            Some(e) if rng.gen_bool(0.8) => match rng.gen_range(0..4) {
                0 => e.time.saturating_add(1),
                1 => e.time.saturating_sub(1),
                _ => e.time,
            },
            _ => *[0, u64::MAX, 100].choose(rng).unwrap(),
        };
        let all = self.tags.len();
        let mut tags: BTreeSet<usize> = match rng.gen_range(0..6) {
            0 => (0..all).collect(),
            1 => (0..all).filter(|_| rng.gen()).collect(),
            2 => m.choose(rng).map(|e| e.tags.clone()).unwrap_or_default(),
            3 => m.choose(rng).iter().chain(m.choose(rng).iter()).flat_map(|e| e.tags.clone()).collect(),
            4 => (0..all).filter(|_| rng.gen_bool(0.1)).collect(),
            _ => [rng.gen_range(0..all)].into(),
        };
        if rng.gen_bool(0.3) {
            // a tag that does not occur (maybe)
            tags.insert(all - 1);
        }
        let (a, b) = (t(rng), t(rng));
        let how = rng.gen_range(0..6);
        let (min, max) = match how {
            0 => (0, u64::MAX),
            1 => (a, a),
            2 if rng.gen_bool(0.2) => (a.max(b), a.min(b)),
            _ => (a.min(b), a.max(b)),
        };
        Alt { min, max, tags, how }
    }
    fn alts(&self, rng: &mut gen::Rn, m: &[El]) -> Vec<Alt> {
        let n = *[0usize, 1, 1, 1, 2, 2, 3, 6].choose(rng).unwrap();
        (0..n).map(|_| self.alt(rng, m)).collect()
    }
    fn query(&self, a: &[Alt]) -> DnfQuery {
        DnfQuery(a.iter().map(|a| match a.how {
            0 => Key::filter_tags(self.set(&a.tags)),
            1 => Key::single(a.min / 2, a.min, self.set(&a.tags)),
            _ => Key::range(a.min, a.max, self.set(&a.tags)),
        }).collect())
    }
}
type Got = Vec<(u64, Key, String)>;
const UNTAGGED: &str = "an element without tags that is covered by an alternative of the query is not selected, since the summaries do not tell that it is there";
fn judge(c: &mut Case, got: &Got, g: &Gen, m: &[El], alts: &[Alt], range: &std::ops::Range<u64>, levels: bool, what: &str) -> Res {
    let mut j = 0;
    for (i, e) in m.iter().enumerate() {
        let o = i as u64;
        let hit = alts.iter().any(|a| a.has(e)) && range.contains(&o);
        let found = got.get(j).map(|x| x.0) == Some(o);
        if found {
            check!(hit, "{what}: element {o} {e:?} does not match {alts:?} {range:?}, but was returned");
            c.count("untagged_found", e.tags.is_empty() as u64);
            check!(got[j].1 == g.key(e) && got[j].2 == e.value, "{what}: element {o} is {:?} instead of {e:?}", got[j]);
            j += 1;
        } else if hit && e.kept && e.tags.is_empty() && levels {
            // looked up in the summaries, and not found there
            c.known.push(UNTAGGED.into());
            c.count("untagged_missed", 1);
        } else {
            check!(!hit || !e.kept, "{what}: element {o} {e:?} matches {alts:?} {range:?}, but was not returned");
        }
    }
    check!(j == got.len(), "{what}: unexpected element {:?} (order or offset)", got[j]);
    c.count("filtered_reads", 1);
    c.count("matches", got.len() as u64);
    if !got.is_empty() && got.len() < m.len() { c.count("partial_matches", 1) }
    Ok(())
}
fn sequences(c: &mut Case, g: &mut Gen) -> Res {
    let n = *[1usize, 2, 5, 40].choose(&mut c.rng).unwrap();
    let els: Vec<El> = (0..n).map(|_| g.el(&mut c.rng)).collect();
    let keys: Vec<Key> = els.iter().map(|e| {
        if c.rng.gen_bool(0.3) {
            // a summary
            Key::range(e.time, e.time.saturating_add(c.rng.gen_range(0..1000)), g.set(&e.tags))
        } else { g.key(e) }
    }).collect();
    let s: KeySeq = keys.iter().cloned().collect();
    let cbor = DagCborCodec.encode(&s).map_err(|e| Fail(format!("encode: {e:#}")))?;
    let d: KeySeq = DagCborCodec.decode(&cbor).map_err(|e| Fail(format!("decode: {e:#}")))?;
    let j: KeySeq = serde_json::from_str(&serde_json::to_string(&s).map_err(|e| Fail(e.to_string()))?).map_err(|e| Fail(e.to_string()))?;
    // what the summary must be, from the serialized keys
    let v: Vec<serde_json::Value> = keys.iter().map(|k| serde_json::to_value(k).unwrap()).collect();
    let num = |f: &str| v.iter().map(|k| k["time"][f].as_u64().unwrap()).collect::<Vec<_>>();
    let mut tags: Vec<String> = v.iter().flat_map(|k| k["tags"].as_array().unwrap().iter().map(|t| t.as_str().unwrap().to_string())).collect();
    tags.sort();
    tags.dedup();
    let want: Key = serde_json::from_value(serde_json::json!({
        "time": {"min_lamport": num("min_lamport").iter().min(), "min_time": num("min_time").iter().min(), "max_time": num("max_time").iter().max()},
        "tags": tags,
    })).map_err(|e| Fail(e.to_string()))?;
    for (what, s) in [("from_iter", &s), ("cbor", &d), ("json", &j)] {
        check!(s.len() == n, "{what}: len {} of {n}", s.len());
        for (i, k) in keys.iter().enumerate() {
            check!(s.get(i).as_ref() == Some(k), "{what}: get({i}) is {:?} instead of {k:?}", s.get(i));
        }
        check!(s.get(n).is_none(), "{what}: get beyond the end");
        check!(s.to_vec() == keys, "{what}: to_vec");
        let sum: Key = s.summarize();
        check!(sum == want, "{what}: summary {sum:?} of {keys:?}");
    }
    check!(DagCborCodec.encode(&d).ok() == Some(cbor), "encoding again gives other bytes");
    c.count("sequences", 1);
    Ok(())
}
fn case(c: &mut Case) -> Res {
    let mut g = Gen::new(&mut c.rng);
    for _ in 0..3 {
        sequences(c, &mut g)?;
    }
    let store = Store::new();
    let mut cfg = gen::config(&mut c.rng);
    cfg.zstd_level = cfg.zstd_level.min(3);
    let secrets: Secrets = gen::secrets(&mut c.rng);
    let mut txn: Transaction<TT, _, _> = Transaction::new(Forest::new(store.clone(), BranchCache::new(1 << 20)), store.clone());
    let mut b = StreamBuilder::<TT, String>::new(cfg.clone(), secrets.clone());
    let mut m: Vec<El> = vec![];
    let ops = c.rng.gen_range(1..12);
    let max = *[3usize, 20, 60, 300].choose(&mut c.rng).unwrap();
    let mut names = vec![];
    let retains = c.rng.gen_bool(0.4);
    for _ in 0..ops {
        match c.rng.gen_range(0..10) {
            k @ 0..=5 => {
                let n = c.rng.gen_range(0..max);
                let els: Vec<El> = (0..n).map(|_| g.el(&mut c.rng)).collect();
                let kv: Vec<(Key, String)> = els.iter().map(|e| (g.key(e), e.value.clone())).collect();
                if k < 3 { ok(txn.extend(&mut b, kv), "extend")? } else { ok(txn.extend_unpacked(&mut b, kv), "extend_unpacked")? }
                m.extend(els);
                names.push(format!("{}{n}", if k < 3 { "x" } else { "u" }));
            }
            6 => {
                ok(txn.pack(&mut b), "pack")?;
                names.push("pack".into());
            }
            7 => if let Some(l) = b.link() {
                b = ok(txn.load_stream_builder(secrets.clone(), cfg.clone(), l), "load")?;
                names.push("load".into());
            },
            _ => if retains {
                let a = g.alts(&mut c.rng, &m);
                ok(txn.retain(&mut b, &g.query(&a)), "retain")?;
                for e in m.iter_mut() {
                    e.kept = e.kept && a.iter().any(|a| a.has(e));
                }
                names.push(format!("retain{}", a.len()));
                c.count("retains", 1);
            },
        }
    }
    check!(b.count() == m.len() as u64, "count is {} instead of {}", b.count(), m.len());
    c.desc = format!("{} elements, {} tags, level {}: {}", m.len(), g.tags.len(), b.level(), names.join(" "));
    let tree: Tree<TT, String> = b.snapshot();
    let fresh = Forest::<TT, _>::new(store.clone(), BranchCache::new(0));
    let limit = m.len() + 10;
    let nodes = nodes(&fresh, &tree)?;
    let root = tree.link();
    let skipped = |c: &mut Case, s: &Store, alts: &[Alt], what: &str| {
        let all = nodes.len() as u64;
        let read = s.1.lock().unwrap().iter().collect::<std::collections::HashSet<_>>().len() as u64;
        c.count("blocks_not_read", all - read.min(all));
        needed(c, s, &nodes, root, &m, alts, what)
    };
    for _ in 0..8 {
        let alts = g.alts(&mut c.rng, &m);
        let f: &Forest<TT, Store> = if c.rng.gen() { &fresh } else { &txn };
        let n = m.len() as u64;
        let all = 0..u64::MAX;
        let levels = b.level() > 0;
        let q = || g.query(&alts).boxed();
        store.reads();
        let got: Got = drain(f.iter_filtered(&tree, q()), limit, "iter_filtered")?;
        judge(c, &got, &g, &m, &alts, &all, levels, "iter_filtered")?;
        skipped(c, &store, &alts, "iter_filtered")?;
        let matching = got.len();
        let mut got: Got = drain(f.iter_filtered_reverse(&tree, q()), limit, "iter_filtered_reverse")?;
        got.reverse();
        judge(c, &got, &g, &m, &alts, &all, levels, "iter_filtered_reverse")?;
        skipped(c, &store, &alts, "iter_filtered_reverse")?;
        let got: Got = drain_stream(f.stream_filtered(&tree, q()), limit, "stream_filtered")?;
        judge(c, &got, &g, &m, &alts, &all, levels, "stream_filtered")?;
        skipped(c, &store, &alts, "stream_filtered")?;
        let ch = drain(f.iter_filtered_chunked(&tree, q(), &|_| ()), 2 * limit, "iter_filtered_chunked")?;
        let got: Got = ch.into_iter().flat_map(|x| x.data).collect();
        judge(c, &got, &g, &m, &alts, &all, levels, "iter_filtered_chunked")?;
        skipped(c, &store, &alts, "iter_filtered_chunked")?;
        let mut ch = drain(f.iter_filtered_chunked_reverse(&tree, q(), &|_| ()), 2 * limit, "iter_filtered_chunked_reverse")?;
        ch.reverse();
        let mut got: Got = ch.into_iter().flat_map(|x| x.data).collect();
        got.sort_by_key(|x| x.0);
        judge(c, &got, &g, &m, &alts, &all, levels, "iter_filtered_chunked_reverse")?;
        skipped(c, &store, &alts, "iter_filtered_chunked_reverse")?;
        // together with an offset range
        let (x, y) = (c.rng.gen_range(0..=n), c.rng.gen_range(0..=n));
        let r = x.min(y)..x.max(y);
        let range = || OffsetRangeQuery::from(r.clone());
        // (the result of the first part is handed to the second)
        let both = if c.rng.gen() { AndQuery(g.query(&alts), range()).boxed() } else { AndQuery(range(), g.query(&alts)).boxed() };
        store.reads();
        let got: Got = drain(f.iter_filtered(&tree, both), limit, "and")?;
        judge(c, &got, &g, &m, &alts, &r, levels, "query and range")?;
        skipped(c, &store, &alts, "query and range")?;
        if !r.is_empty() {
            let one = futures::stream::iter(vec![tree.clone()]);
            let (lo, hi) = (r.start, r.end - 1);
            let ch = if c.rng.gen() {
                drain_stream(Box::pin(f.stream_trees_chunked(q(), one, lo..=hi, &|_| ())), 2 * limit, "stream_trees_chunked")?
            } else {
                let mut ch = drain_stream(Box::pin(f.stream_trees_chunked_reverse(q(), one, lo..=hi, &|_| ())), 2 * limit, "stream_trees_chunked_reverse")?;
                ch.reverse();
                ch
            };
            let got: Got = ch.into_iter().flat_map(|x| x.data).collect();
            judge(c, &got, &g, &m, &alts, &r, levels, "live stream")?;
            skipped(c, &store, &alts, "live stream")?;
            c.count("live_reads", 1);
        }
        c.saw((b.level(), alts.len(), matching, n));
    }
    c.max("elements", m.len() as u64);
    c.max("level", b.level().max(0) as u64);
    c.nontrivial = b.level() > 1;
    if c.nontrivial { c.count("trees_with_several_levels", 1) }
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("filtered_reads", 20_000), ("matches", 100_000), ("partial_matches", 2000), ("untagged_found", 500), ("untagged_missed", 500), ("sequences", 1000), ("retains", 300), ("live_reads", 2000), ("leaves_read", 10_000), ("branches_read", 5000), ("blocks_not_read", 10_000), ("trees_with_several_levels", 300)],
        ..Prop::new("C23", "random histories (extend, extend_unpacked, pack, reload, retain with tag queries) of elements with random times and 0-8 tags (elements without tags that are missed are a known finding), queried with random alternatives (ranges at, just before and after element times, all constructors, tags that do not occur, empty alternatives) through all filtered read paths, alone and combined with offset ranges, compared with a reference list; key sequences are compared with the list they were built from, also after CBOR and JSON, and their summaries recomputed; every block that a read fetches must be a leaf with a matching element or a branch whose times and tags have something in common with an alternative; non-trivial: more than one branch level; distinct: shapes and number of matches", case)
    });
}
