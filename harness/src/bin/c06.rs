use banyan::{index::*, query::Query};
use bmon::{query::*, runner, sess::*, store::MonStore, types::*, walk::*, *};
use rand::Rng;
use std::collections::{BTreeMap, HashMap};

fn filter(n: &Node, q: &BQ) -> Vec<bool> {
    let idx = BranchIndex::<TT> {
        count: n.m.count,
        level: n.m.level,
        sealed: n.m.sealed,
        link: n.m.link,
        summaries: n.m.sums.iter().cloned().collect(),
        value_bytes: n.m.value_bytes,
        key_bytes: n.m.key_bytes,
    };
    let mut r = vec![true; n.m.sums.len()];
    q.intersecting(n.start, &idx, &mut r);
    r
}
/// the nodes the traversal must report, in order
fn want<'a>(root: &'a Node, q: &BQ, rev: bool) -> Vec<&'a Node> {
    let mut out = vec![];
    let mut stack = vec![root];
    while let Some(n) = stack.pop() {
        out.push(n);
        if n.present() && !n.m.is_leaf() {
            let f = filter(n, q);
            let mut next: Vec<&Node> = n.children.iter().zip(f).filter(|x| x.1).map(|x| x.0).collect();
            if !rev {
                next.reverse();
            }
            stack.extend(next);
        }
    }
    out
}
fn judge(got: &[Index<TT>], want: &[&Node], what: &str) -> Res {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let g = Meta::of(g);
        check!(
            g == w.m,
            "{what}: node {i} is level {} count {} link {:?} instead of level {} {:?} link {:?}",
            g.level,
            g.count,
            g.link,
            w.m.level,
            w.range(),
            w.m.link
        );
    }
    check!(got.len() == want.len(), "{what}: {} nodes instead of {}", got.len(), want.len());
    Ok(())
}
fn asked(spy: &Spy, root: &Node, what: &str) -> Res<usize> {
    let by: HashMap<Lnk, &Node> = root.nodes().into_iter().filter_map(|n| n.m.link.map(|l| (l, n))).collect();
    let asked = spy.take();
    for a in &asked {
        let n = match a.link.and_then(|l| by.get(&l)) {
            Some(n) => n,
            None => fail!("{what}: the query was evaluated for an unknown node"),
        };
        check!(
            n.start == a.offset && n.m.count == a.count,
            "{what}: the query was evaluated for the node {:?} at offset {}",
            n.range(),
            a.offset
        );
    }
    Ok(asked.len())
}
#[derive(Debug, Clone, PartialEq, Eq)]
struct X {
    meta: Meta,
    purged: bool,
}
fn info(i: &NodeInfo<TT, MonStore>) -> X {
    let (idx, purged): (Index<TT>, bool) = match i {
        NodeInfo::Leaf(x, _) => (Index::Leaf(x.clone()), false),
        NodeInfo::PurgedLeaf(x) => (Index::Leaf(x.clone()), true),
        NodeInfo::Branch(x, _) => (Index::Branch(x.clone()), false),
        NodeInfo::PurgedBranch(x) => (Index::Branch(x.clone()), true),
    };
    X { meta: Meta::of(&idx), purged }
}
fn graph(f: &F, t: &T, root: &Node) -> Res<usize> {
    let (edges, nodes) = ok(f.dump_graph(t, |(id, n)| (id, info(n))), "dump_graph")?;
    let mut kids: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut parents: BTreeMap<usize, usize> = BTreeMap::new();
    for (p, c) in &edges {
        check!(nodes.contains_key(p) && nodes.contains_key(c), "dump_graph: edge {p}->{c} to an unknown node");
        check!(parents.insert(*c, *p).is_none(), "dump_graph: node {c} has two parents");
        kids.entry(*p).or_default().push(*c);
    }
    let roots: Vec<usize> = nodes.keys().filter(|n| !parents.contains_key(n)).cloned().collect();
    check!(roots.len() == 1, "dump_graph: {} roots", roots.len());
    let mut stack = vec![(roots[0], root)];
    let mut seen = 0;
    while let Some((id, n)) = stack.pop() {
        seen += 1;
        let (id2, x) = &nodes[&id];
        check!(*id2 == id, "dump_graph: node {id} was created as {id2}");
        check!(
            x.meta == n.m && x.purged == n.m.link.is_none(),
            "dump_graph: node {id} is {:?} instead of {:?}",
            x.meta,
            n.m
        );
        let mut k = kids.remove(&id).unwrap_or_default();
        k.sort();
        check!(k.len() == n.children.len(), "dump_graph: node {id} has {} children instead of {}", k.len(), n.children.len());
        stack.extend(k.into_iter().zip(&n.children));
    }
    check!(seen == nodes.len() && edges.len() + 1 == nodes.len(), "dump_graph: {} nodes, {} edges, {seen} reachable", nodes.len(), edges.len());
    Ok(seen)
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let w = Weights { retain: if c.rng.gen() { 4 } else { 0 }, ..Weights::ALL };
    let ops = c.rng.gen_range(1..=12);
    let r = s.run(&mut c.rng, &w, ops);
    c.desc = s.describe();
    r?;
    if c.rng.gen_bool(0.2) {
        // forget something by losing blocks
        if let Some(root) = s.walk()? {
            let mut links: Vec<Lnk> = root.links().into_iter().collect();
            links.sort();
            links.retain(|_| c.rng.gen_bool(0.15));
            s.store.with(|st| st.hidden.extend(links.iter()));
            s.txn = txn(&s.store, s.cache);
            s.must(&Op::Repair)?;
            s.store.heal();
            s.sync_absent()?;
        }
    }
    let (t, f) = (s.tree(), (*s.txn).clone());
    let root = match s.walk()? {
        Some(r) => r,
        None => {
            check!(f.iter_index(&t, Q::All.build()).next().is_none(), "iter_index of an empty tree");
            check!(f.iter_index_reverse(&t, Q::All.build()).next().is_none(), "iter_index_reverse of an empty tree");
            check!(ok(f.left_roots(&t), "left_roots")?.is_empty(), "left_roots of an empty tree");
            return Ok(());
        }
    };
    c.nontrivial = root.children.len() > 1;
    let max = root.nodes().len() + 1;
    for i in 0..6 {
        let q = if i == 0 { Q::All } else { Q::gen(&mut c.rng, s.n(), s.gen.bucket, 2) };
        c.desc = format!("{} query={q:?}", s.describe());
        for rev in [false, true] {
            let bq = q.build();
            let spy = Spy::new(bq.clone());
            let what = format!("iter_index rev={rev} {q:?}");
            let got = if rev {
                drain(f.iter_index_reverse(&t, spy.clone()), max, &what)?
            } else {
                drain(f.iter_index(&t, spy.clone()), max, &what)?
            };
            let w = want(&root, &bq, rev);
            judge(&got, &w, &what)?;
            let n = asked(&spy, &root, &what)?;
            c.count("evaluations", n as u64);
            c.count("nodes_reported", got.len() as u64);
            c.count("placeholders", w.iter().filter(|n| !n.present()).count() as u64);
            if w.len() < max - 1 {
                c.count("pruned_traversals", 1);
            }
            c.saw((root.shape(), w.len(), rev));
        }
    }
    let n = graph(&f, &t, &root)?;
    c.count("graph_nodes", n as u64);
    // left roots
    let mut path = vec![&root];
    while let Some(x) = path.last().and_then(|n| if n.present() { n.children.first() } else { None }) {
        path.push(x);
    }
    // a forgotten branch on the left ends the path
    let left = ok(f.left_roots(&t), "left_roots")?;
    check!(left.len() == path.len(), "left_roots: {} trees instead of {}", left.len(), path.len());
    for (l, n) in left.iter().zip(path.iter().rev()) {
        let m = l.index().map(Meta::of);
        check!(m.as_ref() == Some(&n.m), "left_roots: {:?} instead of {:?}", m, n.m);
        same(&ok(f.collect(l), "collect of a left root")?, &s.model[..n.m.count as usize], "collect of a left root")?;
        c.count("left_roots", 1);
    }
    c.max("depth", root.depth() as u64);
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("nodes_reported", 50_000), ("pruned_traversals", 3000), ("placeholders", 500), ("graph_nodes", 10_000), ("left_roots", 2000)],
        ..Prop::new("C06", "random trees (all operations, retain, repair with lost blocks) and queries; the node sequence of forward and reverse index iteration is compared with the traversal of an independently decoded tree in which the query is evaluated at the recomputed offsets; a spy checks the offset of every evaluation made by banyan; dump_graph is compared as a labelled tree, left_roots with the leftmost path; non-trivial: root with at least two children; distinct: shape and traversal lengths", case)
    });
}
