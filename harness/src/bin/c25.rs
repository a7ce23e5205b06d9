use bmon::{query::Q, runner, sess::*, types::*, walk::Node, *};
use rand::{seq::SliceRandom, Rng};
use std::{
    collections::{HashMap, HashSet},
    ops::Bound,
};

/// can the subtree contain a match? Bounds of a range are taken as they are, so that the test is
/// not exact for exclusive lower bounds and for empty ranges.
fn may(q: &Q, start: u64, count: u64, s: &Sum) -> bool {
    match q {
        Q::Range(a, b) => {
            let lo = match a {
                Bound::Included(a) | Bound::Excluded(a) => *a,
                Bound::Unbounded => 0,
            };
            (match b {
                Bound::Included(b) => *b >= start,
                Bound::Excluded(b) => *b > start,
                Bound::Unbounded => true,
            }) && lo < start + count
        }
        Q::And(a, b) => may(a, start, count, s) && may(b, start, count, s),
        Q::Or(a, b) => may(a, start, count, s) || may(b, start, count, s),
        q => q.may(start, count, s),
    }
}
/// may a read with this query fetch the block of this node?
fn needed(n: &Node, q: &Q, s: &Sess) -> bool {
    if n.m.is_leaf() {
        n.range().any(|o| q.has(o, &n.m.keys[(o - n.start) as usize]))
    } else {
        let _ = s;
        n.m.sums.iter().any(|x| may(q, n.start, n.m.count, x))
    }
}
/// nodes that an index traversal reports
fn reported(root: &Node, q: &Q) -> HashSet<Option<Lnk>> {
    let mut r = HashSet::from([root.m.link]);
    let mut stack = vec![root];
    while let Some(n) = stack.pop() {
        for (c, s) in n.children.iter().zip(&n.m.sums) {
            if may(q, n.start, n.m.count, s) {
                r.insert(c.m.link);
                stack.push(c);
            }
        }
    }
    r
}
struct T0<'a> {
    by: HashMap<Lnk, &'a Node>,
}
impl<'a> T0<'a> {
    fn judge(&self, c: &mut Case, gets: &[Lnk], ok: impl Fn(&Node) -> bool, leaves: bool, twice: bool, what: &str) -> Res {
        let mut seen = HashSet::new();
        for g in gets {
            let n = match self.by.get(g) {
                Some(n) => n,
                None => fail!("{what}: read the block {} which is not in the tree", g.short()),
            };
            check!(
                ok(n),
                "{what}: read the block at offset {} level {} count {} which is not needed",
                n.start, n.m.level, n.m.count
            );
            check!(leaves || !n.m.is_leaf(), "{what}: read the leaf at offset {}", n.start);
            check!(seen.insert(*g) || twice, "{what}: read the block at offset {} level {} twice", n.start, n.m.level);
        }
        c.count("blocks_read", gets.len() as u64);
        c.count("blocks_not_read", (self.by.len() - seen.len()) as u64);
        c.count("reads", 1);
        Ok(())
    }
}
/// reads that are given up before their end
fn partly(c: &mut Case, s: &Sess, t0: &T0, t: &T) -> Res {
    let f = forest(&s.store, *[0, 1 << 30].choose(&mut c.rng).unwrap());
    let q = if c.rng.gen() { Q::All } else { Q::gen(&mut c.rng, s.n(), s.gen.bucket, 1) };
    let k = c.rng.gen_range(0..4) * c.rng.gen_range(0..=s.model.len() / 3 + 1);
    let kind = c.rng.gen_range(0..6);
    let mark = s.store.mark();
    // the ranges of the items that were taken
    let one = |x: Triple| x.0..x.0 + 1;
    fn go<X>(it: impl Iterator<Item = anyhow::Result<X>>, k: usize, f: impl Fn(X) -> std::ops::Range<u64>) -> Res<Vec<std::ops::Range<u64>>> {
        it.take(k).map(|x| ok(x, "a part of a read").map(&f)).collect()
    }
    let (name, rev, got) = match kind {
        0 => ("iter_filtered", false, go(f.iter_filtered(t, q.build()), k, one)?),
        1 => ("iter_filtered_reverse", true, go(f.iter_filtered_reverse(t, q.build()), k, one)?),
        2 => ("iter_filtered_chunked", false, go(f.iter_filtered_chunked::<_, Val, _, _>(t, q.build(), &|_| ()), k, |x| x.range)?),
        3 => ("iter_filtered_chunked_reverse", true, go(f.iter_filtered_chunked_reverse::<_, Val, _, _>(t, q.build(), &|_| ()), k, |x| x.range)?),
        4 => ("stream_filtered", false, go(futures::executor::block_on_stream(Box::pin(f.stream_filtered(t, q.build()))), k, one)?),
        _ => ("stream_filtered_chunked", false, go(futures::executor::block_on_stream(Box::pin(f.stream_filtered_chunked::<_, Val, _, _>(t, q.build(), &|_| ()))), k, |x| x.range)?),
    };
    let g = s.store.gets_since(mark);
    if got.len() < k {
        // all of it
        return Ok(());
    }
    let what = format!("{k} items of {name} {q:?}");
    if k == 0 {
        check!(g.is_empty(), "{what}: {} blocks have been read before anything was asked for", g.len());
    }
    let (lo, hi) = (got.iter().map(|r| r.start).min().unwrap_or(0), got.iter().map(|r| r.end).max().unwrap_or(0));
    t0.judge(c, &g, |n| needed(n, &q, s) && if rev { n.range().end > lo } else { n.start < hi }, true, true, &what)?;
    c.count("partial_reads", 1);
    Ok(())
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let w = *[Weights { repair: 0, ..Weights::ALL }, Weights::APPEND, Weights { unpacked: 0, from: 0, ..Weights::APPEND }, Weights { extend: 1, push: 1, from: 0, ..Weights::APPEND }].choose(&mut c.rng).unwrap();
    let n = c.rng.gen_range(1..=10);
    let r = s.run(&mut c.rng, &w, n);
    c.desc = s.describe();
    r?;
    let root = match s.walk()? {
        None => return Ok(()),
        Some(r) => r,
    };
    s.model = root.elements();
    c.saw(root.shape());
    let by: HashMap<Lnk, &Node> = root.nodes().into_iter().filter_map(|n| n.m.link.map(|l| (l, n))).collect();
    c.nontrivial = by.len() > 4;
    let t0 = T0 { by };
    let max = s.model.len();
    let f0 = || forest(&s.store, 0);
    // handles only
    let mark = s.store.mark();
    let t = s.b.snapshot();
    let _ = (t.count(), t.link(), t.level(), t.is_empty(), s.b.count(), s.b.level(), s.b.is_empty(), format!("{t} {t:?} {:?}", s.b));
    check!(s.store.gets_since(mark).is_empty(), "taking a snapshot reads {:?}", s.store.gets_since(mark));
    if s.can_reload() {
        let link = s.b.link().unwrap();
        let mark = s.store.mark();
        let t: T = ok(f0().load_tree(s.secrets.clone(), link), "load_tree")?;
        check!(t.count() == s.n(), "count");
        let b: Builder = ok(f0().load_stream_builder(s.secrets.clone(), s.cfg.clone(), link), "load_stream_builder")?;
        check!(b.snapshot().count() == s.n(), "count");
        let g = s.store.gets_since(mark);
        check!(g.iter().all(|x| *x == link) && g.len() <= 2, "loading a count reads {g:?}");
        c.count("loads", 1);
    }
    // single elements
    for _ in 0..10 {
        let o = c.rng.gen_range(0..=s.n());
        let mark = s.store.mark();
        ok(f0().get(&t, o), "get")?;
        let g = s.store.gets_since(mark);
        t0.judge(c, &g, |n| n.range().contains(&o), true, false, &format!("get({o})"))?;
        let mut levels: Vec<u32> = g.iter().map(|l| t0.by[l].m.level).collect();
        levels.dedup();
        check!(levels.len() == g.len(), "get({o}) reads more than one block on a level: {levels:?}");
        c.count("gets", 1);
    }
    let o = c.rng.gen_range(0..=s.n());
    let mark = s.store.mark();
    ok(f0().collect_from(&t, o), "collect_from")?;
    t0.judge(c, &s.store.gets_since(mark), |n| n.range().end > o, true, true, &format!("collect_from({o})"))?;
    // ranges and queries
    for i in 0..if c.thorough { 20 } else { 8 } {
        let q = match i {
            0 | 1 => Q::gen_range(&mut c.rng, s.n()),
            2 => Q::Cls(1 << c.rng.gen_range(0..8)),
            3 => Q::And(Box::new(Q::gen_range(&mut c.rng, s.n())), Box::new(Q::Cls(c.rng.gen_range(0..256)))),
            _ => Q::gen(&mut c.rng, s.n(), s.gen.bucket, 2),
        };
        let big = c.rng.gen_bool(0.4);
        let f = if big { forest(&s.store, 1 << 30) } else { f0() };
        let kind = c.rng.gen_range(0..9);
        let read = |f: &F| -> Res<&'static str> {
            Ok(match kind {
                0 => {
                    drain(f.iter_filtered(&t, q.build()), max, "iter_filtered")?;
                    "iter_filtered"
                }
                1 => {
                    drain(f.iter_filtered_reverse(&t, q.build()), max, "iter_filtered_reverse")?;
                    "iter_filtered_reverse"
                }
                2 => {
                    drain_stream(f.stream_filtered(&t, q.build()), max, "stream_filtered")?;
                    "stream_filtered"
                }
                3 => {
                    drain(f.iter_filtered_chunked(&t, q.build(), &|_| ()), 4 * max + 4, "chunked")?;
                    "iter_filtered_chunked"
                }
                4 => {
                    drain(f.iter_filtered_chunked_reverse(&t, q.build(), &|_| ()), 4 * max + 4, "chunked")?;
                    "iter_filtered_chunked_reverse"
                }
                5 => {
                    drain_stream(f.stream_filtered_chunked_reverse(&t, q.build(), &|_| ()), 4 * max + 4, "chunked")?;
                    "stream_filtered_chunked_reverse"
                }
                6 => {
                    drain(f.iter_index(&t, q.build()), 4 * max + 4, "iter_index")?;
                    "iter_index"
                }
                7 => {
                    drain(f.iter_index_reverse(&t, q.build()), 4 * max + 4, "iter_index")?;
                    "iter_index_reverse"
                }
                _ => {
                    let trees = futures::stream::iter(vec![t.clone()]);
                    drain_stream(f.stream_trees(q.build(), trees), max, "stream_trees")?;
                    "stream_trees"
                }
            })
        };
        let mark = s.store.mark();
        let name = read(&f)?;
        let g = s.store.gets_since(mark);
        // an index traversal looks into each branch it reports
        let shown = if kind == 6 || kind == 7 { reported(&root, &q) } else { HashSet::new() };
        t0.judge(c, &g, |n| needed(n, &q, &s) || shown.contains(&n.m.link), kind != 6 && kind != 7, !big, &format!("{name} {q:?}"))?;
        c.count("query_reads", 1);
        if big {
            let mark = s.store.mark();
            read(&f)?;
            for l in s.store.gets_since(mark) {
                check!(t0.by[&l].m.is_leaf(), "{name} {q:?}: the second time, index block {} is read again", l.short());
            }
            c.count("repeated", 1);
        }
    }
    for _ in 0..4 {
        partly(c, &s, &t0, &t)?;
    }
    // ranges of live streams
    for rev in [false, true] {
        let a = c.rng.gen_range(0..=s.n());
        let b = c.rng.gen_range(a..=s.n() + 1);
        let q = Q::gen(&mut c.rng, s.n(), s.gen.bucket, 1);
        let both = Q::And(Box::new(Q::Range(std::ops::Bound::Included(a), std::ops::Bound::Included(b))), Box::new(q.clone()));
        let trees = futures::stream::iter(vec![t.clone()]);
        let mark = s.store.mark();
        if rev {
            drain_stream(f0().stream_trees_chunked_reverse(q.build(), trees, a..=b, &|_| ()), 4 * max + 4, "reverse")?;
        } else {
            drain_stream(f0().stream_trees_chunked(q.build(), trees, a..=b, &|_| ()), 4 * max + 4, "forward")?;
        }
        t0.judge(c, &s.store.gets_since(mark), |n| needed(n, &both, &s), true, true, &format!("stream_trees_chunked (reverse: {rev}) {a}..={b} {q:?}"))?;
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("gets", 20_000), ("query_reads", 20_000), ("repeated", 5_000), ("blocks_read", 100_000), ("blocks_not_read", 200_000), ("loads", 1000), ("partial_reads", 5000)],
        ..Prop::new("C25", "random trees and reads of 14 kinds on forests without (or with a huge) branch cache; the store's access log of each read is compared with the set of blocks that the range and the summaries and keys above do not exclude, computed from the decoded blocks; repeated reads; reads that are given up after some items must not have read ahead; handles; non-trivial: more than four blocks; distinct: shapes", case)
    });
}
