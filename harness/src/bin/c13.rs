use banyan::{index::Index, query::{AllQuery, Query}};
use bmon::{inv, query::Q, runner, sess::*, walk::Node, *};
use rand::Rng;
use std::collections::HashMap;

/// all read paths agree with the model
fn reads(c: &mut Case, s: &mut Sess) -> Res {
    let t = s.tree();
    check!(t.count() == s.n(), "count is {} instead of {}", t.count(), s.n());
    same(&ok(s.txn.collect(&t), "collect")?, &s.model, "collect")?;
    let from = c.rng.gen_range(0..=s.n());
    same(&ok(s.txn.collect_from(&t, from), "collect_from")?, &s.model[from as usize..], "collect_from")?;
    for _ in 0..6 {
        let o = c.rng.gen_range(0..=s.n() + 1);
        let got = ok(s.txn.get(&t, o), "get")?;
        let want = s.model.get(o as usize).cloned().flatten();
        check!(got == want, "get({o}) is {got:?} instead of {want:?}");
    }
    let max = s.model.len();
    for i in 0..3 {
        let q = if i == 0 { Q::All } else { Q::gen(&mut c.rng, s.n(), s.gen.bucket, 2) };
        let want = expected(&s.model, &q);
        let got = drain(s.txn.iter_filtered(&t, q.build()), max, "iter_filtered")?;
        same_triples(&got, &want, &format!("iter_filtered {q:?}"))?;
        let mut got = drain(s.txn.iter_filtered_reverse(&t, q.build()), max, "iter_filtered_reverse")?;
        got.reverse();
        same_triples(&got, &want, &format!("iter_filtered_reverse {q:?}"))?;
        let got = drain_stream(s.txn.stream_filtered(&t, q.build()), max, "stream_filtered")?;
        same_triples(&got, &want, &format!("stream_filtered {q:?}"))?;
        let chunks = drain(s.txn.iter_filtered_chunked(&t, q.build(), &|_| ()), 3 * max + 1, "chunked")?;
        let got: Vec<_> = chunks.into_iter().flat_map(|c| c.data).collect();
        same_triples(&got, &want, &format!("iter_filtered_chunked {q:?}"))?;
        // forgotten elements do not appear in the index, but their ranges do
        let n = ok(s.txn.iter_index(&t, q.build()).collect::<anyhow::Result<Vec<_>>>(), "iter_index")?;
        c.count("index_nodes", n.len() as u64);
    }
    Ok(())
}
/// old and new tree, node by node
fn compare<'a>(old: &'a Node, new: &Node, reusable: bool, keep: &HashMap<*const Node, ()>, q: &Q, s: &Sess, gone: &mut Vec<&'a Node>) -> Res {
    let packed = reusable || keep.contains_key(&(old as *const Node));
    let at = format!("node level={} offset={} count={}", old.m.level, old.start, old.m.count);
    let (a, b) = (&old.m, &new.m);
    check!(a.level == b.level && a.count == b.count && a.sealed == b.sealed, "{at}: changed to level={} count={} sealed={}", b.level, b.count, b.sealed);
    check!(a.keys == b.keys, "{at}: the keys have changed");
    check!(a.sums == b.sums, "{at}: the summaries have changed");
    check!(a.value_bytes == b.value_bytes, "{at}: value_bytes have changed");
    match (old.m.link, new.m.link) {
        (None, None) => return Ok(()),
        (None, Some(_)) => fail!("{at}: has come back"),
        (Some(_), None) => {
            check!(old.m.sealed, "{at}: forgotten though not sealed");
            check!(packed, "{at}: forgotten though not in the packed part");
            let r = old.range();
            for o in r {
                if let Some((k, _)) = &s.model[o as usize] {
                    check!(!q.has(o, k), "{at}: forgotten, but element {o} matches");
                }
            }
            gone.push(old);
            return Ok(());
        }
        (Some(a), Some(b)) => {
            check!(new.present(), "{at}: block {b} is not in the store");
            if a == b {
                return Ok(());
            }
            check!(!old.m.is_leaf(), "{at}: a leaf was rewritten");
        }
    }
    check!(old.children.len() == new.children.len(), "{at}: {} children instead of {}", new.children.len(), old.children.len());
    for (o, n) in old.children.iter().zip(&new.children) {
        check!(o.start == n.start, "{at}: child moved from {} to {}", o.start, n.start);
        compare(o, n, packed, keep, q, s, gone)?;
    }
    Ok(())
}
/// the node with that offset and level
fn at(n: &Node, start: u64, level: u32) -> Option<&Node> {
    n.nodes().into_iter().find(|x| x.start == start && x.m.level == level && x.m.count > 0)
}
fn retain(c: &mut Case, s: &mut Sess) -> Res {
    let q = match c.rng.gen_range(0..4) {
        // typical: forget everything before an offset, or all but some classes
        0 => Q::range(c.rng.gen_range(0..=s.n()), u64::MAX),
        1 => Q::Cls(1 << c.rng.gen_range(0..8)),
        _ => Q::gen(&mut c.rng, s.n(), s.gen.bucket, 2),
    };
    let old = s.walk()?;
    if c.rng.gen_bool(0.3) {
        s.txn = txn(&s.store, s.cache);
    }
    // the branches as the query sees them
    let mut branches = HashMap::new();
    for i in s.txn.iter_index(&s.tree(), AllQuery) {
        if let Index::Branch(b) = ok(i, "iter_index")? {
            b.link.map(|l| branches.insert(l, b));
        }
    }
    let mark = s.store.mark();
    s.must(&Op::Retain(q.clone()))?;
    c.count("retains", 1);
    let new = s.walk()?;
    let (old, new) = match (old, new) {
        (None, None) => return Ok(()),
        (Some(a), Some(b)) => (a, b),
        _ => fail!("retain made the tree (non-)empty"),
    };
    let reusable: Vec<&Node> = inv::reusable(&old);
    let keep: HashMap<*const Node, ()> = reusable.iter().map(|n| (*n as *const Node, ())).collect();
    let mut gone = vec![];
    compare(&old, &new, false, &keep, &q, s, &mut gone)?;
    // what must be gone
    let links = new.links();
    let reach: std::collections::HashSet<_> = new.nodes().iter().filter_map(|n| n.block()).flat_map(|b| b.env.links.iter().copied()).collect();
    for n in &gone {
        for d in n.nodes() {
            if let Some(l) = d.m.link {
                check!(!links.contains(&l), "block {} of a forgotten node is still in the tree", l.short());
                check!(!reach.contains(&l.cid()), "block {} of a forgotten node is still referred to", l.short());
            }
        }
        c.count(if n.m.is_leaf() { "forgotten_leaves" } else { "forgotten_branches" }, 1);
        c.saw((n.m.level, n.start, n.m.count));
        c.nontrivial = true;
    }
    for l in reusable.iter().flat_map(|r| r.leaves()) {
        let some = l.range().any(|o| s.model[o as usize].as_ref().map(|(k, _)| q.has(o, k)).unwrap_or(false));
        if let (false, Some(link)) = (some, l.m.link) {
            check!(
                !links.contains(&link),
                "the leaf at offset {} is sealed and in the packed part, nothing in it matches, but it is still there",
                l.start
            );
            c.count("leaves_that_must_go", 1);
        }
    }
    // at the start of the tree, branches that are excluded by their summaries go as a whole, not just
    // their leaves (further to the right, the library may keep them)
    let mut stack: Vec<&Node> = reusable.iter().rev().copied().collect();
    let mut level = u32::MAX;
    while let Some(n) = stack.pop() {
        if n.m.is_leaf() || n.m.level > level { break }
        level = n.m.level;
        if let Some(b) = n.m.link.and_then(|l| branches.get(&l)) {
            let mut some = vec![true; n.m.sums.len()];
            q.build().intersecting(n.start, b, &mut some);
            if some.contains(&true) {
                stack.extend(n.children.iter().rev());
                continue;
            }
            check!(
                at(&new, n.start, n.m.level).map_or(true, |x| x.m.link.is_none()),
                "the branch at offset {} (level {}) is sealed and at the start of the packed part, and its summaries exclude every match, but it is still there",
                n.start, n.m.level
            );
            c.count("branches_that_must_go", 1);
        }
    }
    // only rewritten branches are written
    for p in s.store.puts_since(mark) {
        check!(links.contains(&p) || s.model.is_empty(), "retain wrote the block {} which is not in the tree", p.short());
    }
    for n in &gone {
        for o in n.range() {
            s.model[o as usize] = None;
        }
    }
    same(&new.elements(), &s.model, "blocks after retain")?;
    reads(c, s)?;
    // a second time changes nothing
    if c.rng.gen_bool(0.4) {
        let (mark, before) = (s.store.mark(), s.root_meta());
        s.must(&Op::Retain(q.clone()))?;
        let again = s.walk()?.unwrap();
        let mut more = vec![];
        let keep = HashMap::new();
        compare(&new, &again, true, &keep, &q, s, &mut more)?;
        // forgetting leaves can not make more branches go unless the traversal did not look at them
        for n in more {
            for o in n.range() {
                check!(s.model[o as usize].is_none(), "the second retain has forgotten element {o}");
            }
        }
        if s.store.puts_since(mark).is_empty() && s.root_meta() != before {
            check!(s.root_meta().unwrap().link.is_none(), "the root changed without a write");
        }
        c.count("repeated", 1);
        reads(c, s)?;
    }
    Ok(())
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let w = match c.rng.gen_range(0..3) {
        0 => Weights { unpacked: 0, retain: 0, repair: 0, from: 0, ..Weights::ALL },
        1 => Weights { retain: 0, repair: 0, from: 0, ..Weights::ALL },
        _ => Weights { unpacked: 2, push: 1, pack: 1, retain: 0, repair: 0, from: 0, ..Weights::ALL },
    };
    let mut go = || -> Res {
        for _ in 0..c.rng.gen_range(1..=4) {
            for _ in 0..c.rng.gen_range(1..=6) {
                let op = s.op(&mut c.rng, &w);
                s.must(&op)?;
                let els = s.walk()?.map(|w| w.elements()).unwrap_or_default();
                same(&els, &s.model, &format!("blocks after {}", op.name()))?;
                c.count(op.kind(), 1);
            }
            reads(c, &mut s)?;
            retain(c, &mut s)?;
        }
        Ok(())
    };
    let r = go();
    c.desc = s.describe();
    r
}
fn main() {
    runner::main(Prop {
        require: &[("retains", 5000), ("forgotten_leaves", 5000), ("forgotten_branches", 1000), ("leaves_that_must_go", 10_000), ("branches_that_must_go", 500), ("repeated", 1000), ("pack", 500), ("reload", 500)],
        ..Prop::new("C13", "random histories of append, unpacked append, pack and reload, interleaved with several retains by offset and key queries; trees before and after each retain are decoded from raw blocks and compared node by node: a node may only be forgotten if sealed, in the packed part and without a match, a sealed packed leaf without a match must be forgotten, everything else is unchanged; all read paths afterwards; non-trivial: something was forgotten; distinct: sets of forgotten nodes", case)
    });
}
