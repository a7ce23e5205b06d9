use banyan::{
    index::{CompactSeq, Index, NodeInfo, UnitSeq},
    query::AllQuery,
    TreeTypes,
};
use banyan_utils::dump::{dump_cbor, dump_json, graph};
use bmon::{cbor_data::Cbor, cborx, check, fail, gen, runner, runner::*, sess::*, types::*, walk};
use libipld::{cbor::DagCborCodec, codec::Codec, json::DagJsonCodec, Ipld};
use rand::{seq::SliceRandom, Rng};
use std::collections::BTreeMap;

const CHUNKED: &str = "dump_cbor of a value with a chunked byte or text string inside of an array panics in cbor-data 0.8.13 validated/mod.rs";

/// what `dump_graph` tells about a node
#[derive(Debug, Clone, PartialEq)]
struct Shown {
    kind: &'static str,
    m: walk::Meta,
    text: String,
}
fn shown<R>(i: &NodeInfo<TT, R>) -> Shown {
    let (kind, index) = match i {
        NodeInfo::Branch(b, _) => ("Branch", Index::Branch(b.clone())),
        NodeInfo::Leaf(l, _) => ("Leaf", Index::Leaf(l.clone())),
        NodeInfo::PurgedBranch(b) => ("PurgedBranch", Index::Branch(b.clone())),
        NodeInfo::PurgedLeaf(l) => ("PurgedLeaf", Index::Leaf(l.clone())),
    };
    Shown { kind, m: walk::Meta::of(&index), text: i.to_string() }
}
fn kind(n: &walk::Node) -> &'static str {
    match (n.m.is_leaf(), n.m.link.is_some()) {
        (true, true) => "Leaf",
        (true, false) => "PurgedLeaf",
        (false, true) => "Branch",
        (false, false) => "PurgedBranch",
    }
}
/// the fields of a printed node
fn fields(text: &str) -> Option<(&str, BTreeMap<&str, &str>)> {
    let (kind, rest) = text.split_once('(')?;
    let rest = rest.strip_suffix(')')?;
    Some((kind, rest.split(", ").map(|x| x.split_once('=')).collect::<Option<_>>()?))
}
fn printed(s: &Shown) -> Res {
    let (k, f) = fields(&s.text).ok_or_else(|| Fail(format!("a node is printed as {:?}", s.text)))?;
    check!(k == s.kind, "a {} is printed as {:?}", s.kind, s.text);
    let link = s.m.link.map(|l| l.to_string()).unwrap_or_default();
    let mut want = vec![("count", s.m.count.to_string()), ("sealed", s.m.sealed.to_string())];
    match s.kind {
        "Branch" => want.extend([("value_bytes", s.m.value_bytes.to_string()), ("key_bytes", s.m.key_bytes.to_string()), ("link", link), ("children", s.m.sums.len().to_string())]),
        "Leaf" => want.extend([("value_bytes", s.m.value_bytes.to_string()), ("link", link)]),
        "PurgedBranch" => want.extend([("value_bytes", s.m.value_bytes.to_string()), ("key_bytes", s.m.key_bytes.to_string())]),
        _ => want.push(("value_bytes", s.m.value_bytes.to_string())),
    }
    for (n, v) in want {
        check!(f.get(n) == Some(&v.as_str()), "{n} of a {} is {v}, but it is printed as {:?}", s.kind, s.text);
    }
    Ok(())
}
struct Graph<S> {
    nodes: BTreeMap<usize, S>,
    children: BTreeMap<usize, Vec<usize>>,
    root: usize,
}
/// a tree with ordered nodes
fn tree_of<S>(edges: &[(usize, usize)], nodes: BTreeMap<usize, S>, what: &str) -> Res<Graph<S>> {
    let mut children: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut parent: BTreeMap<usize, usize> = BTreeMap::new();
    for (a, b) in edges {
        check!(nodes.contains_key(a) && nodes.contains_key(b), "{what}: edge {a} -> {b} between unknown nodes");
        check!(parent.insert(*b, *a).is_none(), "{what}: node {b} has two parents");
        children.entry(*a).or_default().push(*b);
    }
    children.values_mut().for_each(|v| v.sort_unstable());
    let roots: Vec<usize> = nodes.keys().filter(|n| !parent.contains_key(n)).copied().collect();
    check!(roots.len() == 1, "{what}: {} nodes without parent", roots.len());
    Ok(Graph { nodes, children, root: roots[0] })
}
/// compares the shape and content with what is stored
fn compare<S: std::fmt::Debug>(g: &Graph<S>, root: &walk::Node, what: &str, f: &dyn Fn(usize, &S, &walk::Node) -> Res) -> Res {
    let mut stack = vec![(g.root, root)];
    let mut seen = 0;
    while let Some((id, n)) = stack.pop() {
        seen += 1;
        f(id, &g.nodes[&id], n)?;
        let empty = vec![];
        let ch = g.children.get(&id).unwrap_or(&empty);
        check!(ch.len() == n.children.len(), "{what}: the node at {} level {} has {} children instead of {}", n.start, n.m.level, ch.len(), n.children.len());
        stack.extend(ch.iter().copied().zip(n.children.iter()));
    }
    check!(seen == g.nodes.len(), "{what}: {} nodes instead of {seen}", g.nodes.len());
    Ok(())
}
/// reads the output of `graph`
#[derive(Debug)]
struct Dot {
    label: String,
    shape: String,
    grey: bool,
    filled: bool,
}
fn parse_dot(text: &str) -> Res<Graph<Dot>> {
    let mut nodes = BTreeMap::new();
    let mut edges = vec![];
    let id = |s: &str| s.trim().strip_prefix('N').and_then(|x| x.parse::<usize>().ok()).ok_or_else(|| Fail(format!("graph: bad node {s:?}")));
    let lines: Vec<&str> = text.lines().collect();
    check!(lines.first().map(|l| l.starts_with("digraph ")) == Some(true) && lines.last() == Some(&"}"), "graph: the output is not a complete digraph");
    for l in &lines[1..lines.len() - 1] {
        let l = l.trim().trim_end_matches(';');
        let (head, attrs) = l.split_once('[').unwrap_or((l, ""));
        if let Some((a, b)) = head.split_once("->") {
            edges.push((id(a)?, id(b)?));
        } else {
            let attr = |n: &str| attrs.split('[').flat_map(|a| a.split(']')).find_map(|a| a.strip_prefix(n)).map(|v| v.trim_matches('"').to_string());
            let d = Dot { label: attr("label=").unwrap_or_default(), shape: attr("shape=").unwrap_or_default(), grey: attr("color=").as_deref() == Some("grey"), filled: attr("style=").as_deref() == Some("filled") };
            check!(nodes.insert(id(head)?, d).is_none(), "graph: node {head} twice");
        }
    }
    tree_of(&edges, nodes, "graph")
}
fn inspect(c: &mut Case, s: &Sess, f: &F, root: &walk::Node) -> Res {
    let t = s.tree();
    let (edges, nodes) = ok(f.dump_graph(&t, |(id, n)| (id, shown(n))), "dump_graph")?;
    check!(edges.len() + 1 == nodes.len(), "dump_graph: {} nodes and {} edges", nodes.len(), edges.len());
    let g = tree_of(&edges, nodes, "dump_graph")?;
    compare(&g, root, "dump_graph", &|id, (given, x), n| {
        check!(*given == id, "dump_graph: node {id} was announced as {given}");
        check!(x.kind == kind(n), "dump_graph: the node at {} level {} is a {} instead of {}", n.start, n.m.level, x.kind, kind(n));
        check!(x.m == n.m, "dump_graph: the node at {} is {:?} instead of {:?}", n.start, x.m, n.m);
        printed(x)
    })?;
    c.count("nodes", g.nodes.len() as u64);
    let mut out = vec![];
    ok(graph(f, &t, &mut out), "graph")?;
    let d = parse_dot(&String::from_utf8(out).map_err(|e| Fail(e.to_string()))?)?;
    compare(&d, root, "graph", &|id, x, n| {
        let (label, shape) = if n.m.is_leaf() { (n.m.count.to_string(), "circle") } else { (id.to_string(), "box") };
        check!(x.label == label && x.shape == shape, "graph: the node at {} level {} with {} elements is shown as {x:?}", n.start, n.m.level, n.m.count);
        check!(x.grey == n.m.sealed && x.filled == n.m.sealed, "graph: the node at {} has sealed={}, but is shown as {x:?}", n.start, n.m.sealed);
        Ok(())
    })?;
    c.count("graphs", 1);
    // the sequences of keys and summaries
    for i in drain(f.iter_index(&t, AllQuery), root.nodes().len(), "iter_index")? {
        match &i {
            Index::Leaf(l) => sequence(c, &l.keys, l.keys.as_ref())?,
            Index::Branch(b) => sequence(c, &b.summaries, b.summaries.as_ref())?,
        }
    }
    Ok(())
}
fn sequence<S: CompactSeq<Item = X>, X: PartialEq + Clone + std::fmt::Debug>(c: &mut Case, s: &S, v: &[X]) -> Res {
    check!(s.len() == v.len() && s.count() == v.len() as u64 && s.is_empty() == v.is_empty(), "a sequence of {} has len {} count {} is_empty {}", v.len(), s.len(), s.count(), s.is_empty());
    check!(s.to_vec() == v, "to_vec of {v:?} is {:?}", s.to_vec());
    if !v.is_empty() {
        check!(s.first() == v[0] && s.last() == v[v.len() - 1], "first or last of {v:?} is {:?} {:?}", s.first(), s.last());
    }
    for i in [0, v.len() / 2, v.len().wrapping_sub(1), v.len(), v.len() + 1] {
        check!(s.get(i).as_ref() == v.get(i), "get({i}) of {v:?} is {:?}", s.get(i));
    }
    let bits: Vec<bool> = v.iter().map(|_| c.rng.gen()).collect();
    let want: Vec<X> = v.iter().zip(&bits).filter(|x| *x.1).map(|x| x.0.clone()).collect();
    check!(s.select(&bits) == want, "select of {v:?} {bits:?} is {:?}", s.select(&bits));
    c.count("sequences", 1);
    Ok(())
}
/// what must be printed for a block, None if it can not be shown
fn want_json(items: &[Vec<u8>], head: bool) -> Option<String> {
    let mut s = if head { "ZstdDagCborSeq\n".to_string() } else { String::new() };
    for i in items {
        let x: Ipld = DagCborCodec.decode(i).ok()?;
        let j = DagJsonCodec.encode(&x).ok()?;
        s += std::str::from_utf8(&j).ok()?;
        s.push('\n');
    }
    Some(s)
}
fn want_cbor(items: &[Vec<u8>], head: bool) -> Option<String> {
    let mut s = if head { "ZstdDagCborSeq\n".to_string() } else { String::new() };
    for i in items {
        s += &format!("{}\n", Cbor::checked(i).ok()?);
    }
    Some(s)
}
fn blocks(c: &mut Case, s: &Sess, root: &walk::Node) -> Res {
    let nonce = chacha20::XNonce::from_slice(TT::NONCE);
    let all = root.nodes();
    let other = gen::secrets(&mut c.rng);
    for i in 0..6 {
        let n = all.choose(&mut c.rng).unwrap();
        let (b, link) = match (n.block(), n.m.link) {
            (Some(b), Some(l)) => (b, l),
            _ => continue,
        };
        let own = if n.m.is_leaf() { s.secrets.value_key() } else { s.secrets.index_key() };
        for (key, right) in [(own, true), (if n.m.is_leaf() { s.secrets.index_key() } else { s.secrets.value_key() }, false), (other.value_key(), false)] {
            let right = right || key == own;
            if !right && i > 0 {
                // (takes long, large buffers)
                continue;
            }
            for cbor in [false, true] {
                let what = format!("dump_{} of the block at {} level {}", if cbor { "cbor" } else { "json" }, n.start, n.m.level);
                let (r, out) = match guarded(|| Ok(show(s, link, key, cbor))) {
                    Ok(x) => x,
                    Err(Fail(m)) => {
                        let hit = cbor && right && m.contains("cbor-data-0.8.13/src/validated/mod.rs:") && b.plain.iter().any(|x| matches!(x, 0x5f | 0x7f));
                        check!(hit, "{what}: {m}");
                        c.known.push(CHUNKED.into());
                        c.count("known_panics", 1);
                        continue;
                    }
                };
                if !right {
                    check!(r.is_err(), "{what} with another key prints {out:?}");
                    c.count("wrong_keys", 1);
                    continue;
                }
                let items = cborx::split(&b.plain).map_err(Fail)?;
                let want = if cbor { want_cbor(&items, true) } else { want_json(&items, true) };
                judge(c, r, out, want, &what, "blocks_shown")?;
            }
        }
    }
    // a block that is something else
    let mut raw = vec![];
    match c.rng.gen_range(0..4) {
        0 => {
            let n = c.rng.gen_range(0..40);
            raw = (0..n).map(|_| c.rng.gen()).collect();
        }
        1 => gen::head(0, c.rng.gen(), &mut raw),
        _ => gen::item(&mut c.rng, 50, true, 3, &mut raw),
    }
    if cborx::well_formed(&raw) {
        let l = Lnk::digest(&raw);
        s.store.with(|st| st.blocks.insert(l, raw.clone().into()));
        for cbor in [false, true] {
            let (r, out) = show(s, l, own_key(s), cbor);
            let want = if cbor { want_cbor(&[raw.clone()], false) } else { want_json(&[raw.clone()], false) };
            judge(c, r, out, want, &format!("dump (cbor={cbor}) of the plain block {raw:02x?}"), "plain_blocks_shown")?;
        }
        s.store.with(|st| st.blocks.remove(&l));
    }
    let nowhere = Lnk(c.rng.gen());
    let mut out = vec![];
    check!(dump_json(s.store.clone(), nowhere, own_key(s), nonce, &mut out).is_err() && out.is_empty(), "dump_json of an unknown block");
    check!(dump_cbor(s.store.clone(), nowhere, own_key(s), nonce, &mut out).is_err() && out.is_empty(), "dump_cbor of an unknown block");
    Ok(())
}
fn show(s: &Sess, link: Lnk, key: &chacha20::Key, cbor: bool) -> (anyhow::Result<()>, String) {
    let nonce = chacha20::XNonce::from_slice(TT::NONCE);
    let mut out = vec![];
    let r = if cbor { dump_cbor(s.store.clone(), link, key, nonce, &mut out) } else { dump_json(s.store.clone(), link, key, nonce, &mut out) };
    (r, String::from_utf8_lossy(&out).into_owned())
}
fn judge(c: &mut Case, r: anyhow::Result<()>, out: String, want: Option<String>, what: &str, count: &'static str) -> Res {
    match (want, r) {
        (Some(w), Ok(())) => {
            check!(w == out, "{what} prints {out:?} instead of {w:?}");
            c.count(count, 1);
        }
        (Some(_), Err(e)) => fail!("{what} fails: {e:#}"),
        // a value that has no JSON form
        (None, Err(_)) => c.count("not_representable", 1),
        (None, Ok(())) => fail!("{what} succeeds with {out:?}"),
    }
    Ok(())
}
fn own_key(s: &Sess) -> &chacha20::Key {
    s.secrets.value_key()
}
/// a branch that can not be read must be reported
fn lost(c: &mut Case, s: &Sess, root: &walk::Node) -> Res {
    let all = root.nodes();
    let n = all.choose(&mut c.rng).unwrap();
    let link = match n.m.link {
        Some(l) => l,
        None => return Ok(()),
    };
    // without caches
    let f = forest(&s.store, 0);
    let t = s.tree();
    s.store.with(|st| st.hidden.insert(link));
    let r = f.dump_graph(&t, |(id, _)| id);
    let mut out = vec![];
    let g = graph(&f, &t, &mut out);
    s.store.heal();
    // equal blocks have the same link
    let leaf = n.m.is_leaf();
    check!(r.is_ok() == leaf, "dump_graph without the block at {} level {}: {:?}", n.start, n.m.level, r.map(|x| x.1.len()));
    check!(g.is_ok() == leaf, "graph without the block at {} level {}: {g:?}", n.start, n.m.level);
    check!(leaf || out.is_empty(), "graph printed {} bytes before it failed", out.len());
    c.count(if leaf { "lost_leaves" } else { "lost_branches" }, 1);
    Ok(())
}
fn invariants(c: &mut Case, s: &Sess, f: &F) -> Res {
    let msgs = ok(f.check_invariants(&s.b), "check_invariants")?;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.assert_invariants(&s.b)));
    match r {
        Ok(r) => {
            ok(r, "assert_invariants")?;
            check!(msgs.is_empty(), "assert_invariants accepts a stream for which check_invariants reports {msgs:?}");
            c.count("invariants_hold", 1);
        }
        Err(_) => {
            check!(!msgs.is_empty(), "assert_invariants panics, but check_invariants reports nothing");
            c.count("invariants_broken", 1);
        }
    }
    Ok(())
}
fn unit(c: &mut Case) -> Res {
    let n = *[0usize, 1, 2, 100].choose(&mut c.rng).unwrap();
    let cbor = ok(DagCborCodec.encode(&(n as u64)), "encode")?;
    let s: UnitSeq = ok(DagCborCodec.decode(&cbor), "decode")?;
    sequence(c, &s, &vec![(); n])?;
    check!(DagCborCodec.encode(&s).ok() == Some(cbor), "a unit sequence of {n} is encoded differently");
    let s: UnitSeq = std::iter::repeat(()).take(n).collect();
    sequence(c, &s, &vec![(); n])
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    s.scale = s.scale.min(60);
    let f = forest(&s.store, s.cache);
    unit(c)?;
    let empty = s.tree();
    check!(f.dump_graph(&empty, |(id, _)| id).is_err(), "dump_graph of an empty tree");
    invariants(c, &s, &f)?;
    for _ in 0..c.rng.gen_range(2..=10) {
        let op = s.op(&mut c.rng, &Weights { retain: 6, ..Weights::ALL });
        let r = s.must(&op);
        c.desc = s.describe();
        r?;
        if matches!(op, Op::Retain(_) | Op::Repair) {
            s.sync_absent()?;
        }
        if let (Some(root), true) = (s.walk()?, c.rng.gen_bool(0.5)) {
            inspect(c, &s, &f, &root)?;
            blocks(c, &s, &root)?;
            lost(c, &s, &root)?;
            invariants(c, &s, &f)?;
            c.nontrivial |= root.children.len() > 1;
            c.count("purged", root.nodes().iter().filter(|n| n.m.link.is_none()).count() as u64);
            c.saw(root.shape());
        }
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("nodes", 20_000), ("graphs", 2000), ("sequences", 20_000), ("blocks_shown", 5000), ("wrong_keys", 2000), ("plain_blocks_shown", 1000), ("not_representable", 20), ("lost_branches", 300), ("lost_leaves", 300), ("purged", 200), ("invariants_hold", 1000)],
        ..Prop::new("C29", "random histories; dump_graph and the dot output of graph are compared node by node (kind, metadata, printed form, order of the children) with the tree decoded independently from the stored blocks; block dumps (JSON and CBOR) of random blocks with the right and with other keys are compared with the independently decoded content; the sequences in the index with the lists they hold; lost branches must be reported; assert_invariants with check_invariants; non-trivial: root with at least two children; distinct: tree shapes", case)
    });
}
