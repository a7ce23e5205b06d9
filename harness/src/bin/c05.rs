use banyan::{index::NodeInfo, FilteredChunk};
use bmon::{query::*, runner, sess::*, store::MonStore, types::*, walk::Node, *};
use rand::Rng;
use std::collections::HashMap;

/// identifies the node a chunk was computed from
#[derive(Debug, Clone, PartialEq, Eq)]
struct X {
    link: Option<Lnk>,
    level: u32,
    count: u64,
    purged: bool,
    first: u64,
}
fn extra(i: &NodeInfo<TT, MonStore>) -> X {
    match i {
        NodeInfo::Leaf(l, _) => X { link: l.link, level: 0, count: l.keys.as_ref().len() as u64, purged: false, first: l.keys.as_ref()[0].id },
        NodeInfo::PurgedLeaf(l) => X { link: l.link, level: 0, count: l.keys.as_ref().len() as u64, purged: true, first: l.keys.as_ref()[0].id },
        NodeInfo::Branch(b, _) => X { link: b.link, level: b.level, count: b.count, purged: false, first: b.summaries.as_ref()[0].lo },
        NodeInfo::PurgedBranch(b) => X { link: b.link, level: b.level, count: b.count, purged: true, first: b.summaries.as_ref()[0].lo },
    }
}
fn of(n: &Node) -> X {
    X {
        link: n.m.link,
        level: n.m.level,
        count: n.m.count,
        purged: n.m.link.is_none(),
        first: if n.m.is_leaf() { n.m.keys[0].id } else { n.m.sums[0].lo },
    }
}
type Chunk = FilteredChunk<(u64, Key, Val), X>;

fn judge(c: &mut Case, s: &Sess, root: Option<&Node>, q: &Q, chunks: &[Chunk], rev: bool, what: &str) -> Res {
    let n = s.n();
    let mut at = if rev { n } else { 0 };
    let nodes: HashMap<(u64, u64), Vec<&Node>> = {
        let mut m: HashMap<_, Vec<&Node>> = HashMap::new();
        for n in root.iter().flat_map(|r| r.nodes()) {
            m.entry((n.start, n.m.count)).or_default().push(n);
        }
        m
    };
    for (i, ch) in chunks.iter().enumerate() {
        let r = ch.range.clone();
        check!(r.start < r.end, "{what}: chunk {i} has the range {r:?}");
        let edge = if rev { r.end } else { r.start };
        check!(edge == at, "{what}: chunk {i} is {r:?}, expected it to begin at {at}");
        at = if rev { r.start } else { r.end };
        let want: Vec<_> = expected(&s.model[r.start as usize..(r.end as usize).min(s.model.len())], &Q::All)
            .into_iter()
            .map(|(o, k, v)| (o + r.start, k, v))
            .filter(|(o, k, _)| q.has(*o, k))
            .collect();
        same_triples(&ch.data, &want, &format!("{what}: chunk {r:?} of {q:?}"))?;
        let cand = nodes.get(&(r.start, r.end - r.start));
        check!(
            cand.map(|c| c.iter().any(|n| of(n) == ch.extra)).unwrap_or(false),
            "{what}: chunk {r:?} was computed from {:?}, the nodes with that range are {:?}",
            ch.extra,
            cand.map(|c| c.iter().map(|n| of(n)).collect::<Vec<_>>())
        );
        if ch.extra.purged {
            c.count("forgotten_chunks", 1);
        } else if ch.extra.level > 0 || ch.data.is_empty() {
            c.count("skipped_chunks", 1);
        }
        c.count("chunks", 1);
    }
    check!(at == if rev { 0 } else { n }, "{what}: chunks end at {at}, the tree has {n} elements");
    Ok(())
}
fn asked(spy: &Spy, root: Option<&Node>, what: &str) -> Res {
    let by: HashMap<Lnk, &Node> = root
        .iter()
        .flat_map(|r| r.nodes())
        .filter_map(|n| n.m.link.map(|l| (l, n)))
        .collect();
    for a in spy.take() {
        let n = a.link.and_then(|l| by.get(&l).copied());
        let n = match n {
            Some(n) => n,
            None => fail!("{what}: the query was evaluated for a node that is not in the tree"),
        };
        check!(
            n.start == a.offset && n.m.count == a.count,
            "{what}: the query was evaluated for the node {:?} at offset {}",
            n.range(),
            a.offset
        );
    }
    Ok(())
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let w = Weights { retain: if c.rng.gen() { 3 } else { 0 }, ..Weights::ALL };
    let ops = c.rng.gen_range(1..=12);
    let r = s.run(&mut c.rng, &w, ops);
    c.desc = s.describe();
    r?;
    let (t, f) = (s.tree(), (*s.txn).clone());
    let root = s.walk()?;
    let max = 10 * s.n() as usize + 1000;
    for _ in 0..6 {
        let q = Q::gen(&mut c.rng, s.n(), s.gen.bucket, 2);
        c.desc = format!("{} query={q:?}", s.describe());
        let spy = Spy::new(q.build());
        let ch = drain(f.iter_filtered_chunked(&t, spy.clone(), &|i| extra(i)), max, "forward")?;
        judge(c, &s, root.as_ref(), &q, &ch, false, "iter_filtered_chunked")?;
        asked(&spy, root.as_ref(), "iter_filtered_chunked")?;
        let chr = drain(f.iter_filtered_chunked_reverse(&t, spy.clone(), &|i| extra(i)), max, "reverse")?;
        judge(c, &s, root.as_ref(), &q, &chr, true, "iter_filtered_chunked_reverse")?;
        asked(&spy, root.as_ref(), "iter_filtered_chunked_reverse")?;
        let ch2 = drain_stream(f.stream_filtered_chunked(&t, spy.clone(), &|i| extra(i)), max, "forward")?;
        judge(c, &s, root.as_ref(), &q, &ch2, false, "stream_filtered_chunked")?;
        let ch2 = drain_stream(f.stream_filtered_chunked_reverse(&t, spy.clone(), &|i| extra(i)), max, "reverse")?;
        judge(c, &s, root.as_ref(), &q, &ch2, true, "stream_filtered_chunked_reverse")?;
        c.nontrivial |= ch.len() > 2;
        c.saw((root.as_ref().map(|r| r.shape()), ch.iter().map(|c| (c.range.clone(), c.data.len())).collect::<Vec<_>>()));
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("chunks", 50_000), ("skipped_chunks", 5000), ("forgotten_chunks", 300)],
        ..Prop::new("C05", "random trees (all operations including retain) and queries; the chunk sequences of forward and reverse iteration and streaming are judged online for contiguity, coverage, exact matching content, and that the extra was computed from a node with exactly that range; a spying query checks that every evaluation happened at the node's true offset; non-trivial: more than two chunks; distinct: tree shape and chunk partition", case)
    });
}
