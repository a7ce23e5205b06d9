use bmon::{inv, query::Q, runner, sess::*, store::*, types::*, walk::Meta, *};
use rand::{seq::SliceRandom, Rng};
use std::collections::{HashMap, HashSet};

struct Published {
    mark: usize,
    root: Meta,
    els: Vec<Option<(Key, Val)>>,
}
struct Order {
    pos: HashMap<Lnk, usize>,
    mark: usize,
    children: HashMap<Lnk, Vec<Lnk>>,
}
impl Order {
    /// every block refers to blocks that were written before
    fn note(&mut self, c: &mut Case, s: &Sess) -> Res {
        for e in s.store.since(self.mark) {
            if let Ev::Put { link, .. } = e {
                let data = s.store.with(|st| st.blocks.get(&link).map(|x| x.to_vec()).or_else(|| st.lost.get(&link).cloned())).unwrap();
                if let Ok(b) = walk::decode_branch(&data, &s.secrets) {
                    let mut ch = vec![];
                    for m in &b.children {
                        if let Some(l) = m.link {
                            check!(
                                self.pos.contains_key(&l),
                                "block {} (write {}) refers to {} which has not been written before it",
                                link.short(), self.mark, l.short()
                            );
                            ch.push(l);
                        }
                    }
                    c.count("references", ch.len() as u64);
                    self.children.insert(link, ch);
                } else {
                    check!(walk::decode_leaf(&data, &s.secrets).is_ok(), "block {} is neither branch nor leaf", link.short());
                }
                self.pos.entry(link).or_insert(self.mark);
                c.count("writes", 1);
            }
            self.mark += 1;
        }
        Ok(())
    }
}
/// an append must not touch what is sealed
fn appended(c: &mut Case, s: &Sess, old: Option<&walk::Node>, new: Option<&walk::Node>, op: &Op, puts: &[Lnk]) -> Res {
    let (old, new) = match (old, new) {
        (Some(o), Some(n)) => (o, n),
        (None, _) => return Ok(()),
        _ => fail!("the tree is gone"),
    };
    let at: HashSet<(Option<Lnk>, u64, u32)> = new.nodes().iter().map(|n| (n.m.link, n.start, n.m.level)).collect();
    let mut stack = vec![old];
    while let Some(n) = stack.pop() {
        if n.m.sealed {
            check!(
                at.contains(&(n.m.link, n.start, n.m.level)),
                "{}: the sealed node at offset {} level {} was replaced",
                op.name(), n.start, n.m.level
            );
            c.count("sealed_nodes_kept", 1);
        } else {
            stack.extend(n.children.iter());
        }
    }
    let had = old.links();
    let written: HashSet<Lnk> = puts.iter().copied().collect();
    check!(written.len() == puts.len(), "{}: a block was written twice", op.name());
    let fresh: Vec<&walk::Node> = new.nodes().into_iter().filter(|n| n.m.link.map(|l| !had.contains(&l)).unwrap_or(false)).collect();
    for n in &fresh {
        check!(written.contains(&n.m.link.unwrap()), "{}: a node of the new tree was not written", op.name());
    }
    // one path of blocks besides the new data
    if inv::packed(old) || matches!(op, Op::Unpacked(_)) {
        let mut levels = HashSet::new();
        for n in &fresh {
            if n.start < old.m.count {
                check!(
                    levels.insert(n.m.level),
                    "{}: more than one block on level {} that contains old data was written (tree {} to {})",
                    op.name(), n.m.level, old.shape(), new.shape()
                );
                c.count("path_blocks", 1);
            }
        }
        let waste = written.len() - fresh.len();
        c.max("writes_not_in_the_tree", waste as u64);
        // what is written for nothing is part of the path
        check!(
            waste <= new.m.level as usize + 1,
            "{}: wrote {} blocks, but the new tree has only {} new ones (tree {} to {})",
            op.name(), written.len(), fresh.len(), old.shape(), new.shape()
        );
        c.count("appends_to_packed", 1);
    }
    let _ = s;
    Ok(())
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let w = *[
        Weights { repair: 0, from: 0, ..Weights::ALL },
        Weights { from: 0, ..Weights::APPEND },
        Weights { unpacked: 0, reload: 1, from: 0, ..Weights::APPEND },
    ]
    .choose(&mut c.rng)
    .unwrap();
    let mut order = Order { pos: HashMap::new(), mark: 0, children: HashMap::new() };
    let mut published: Vec<Published> = vec![];
    for _ in 0..c.rng.gen_range(1..=14) {
        let op = s.op(&mut c.rng, &w);
        let old = s.walk()?;
        if c.rng.gen_bool(0.15) && !matches!(op, Op::Reload) {
            // the first attempt fails in the middle
            let n = c.rng.gen_range(0..6);
            let before = s.model.clone();
            s.store.with(|st| st.put_fault = Some((n, PutFault::Lost)));
            let r = s.apply(&op);
            s.store.heal();
            order.note(c, &s)?;
            if r.is_err() {
                s.model = before;
                c.count("failed_writes", 1);
                // blocks that did not reach the store do not count as written
                let lost: Vec<Lnk> = s.store.with(|st| st.lost.drain().map(|x| x.0).collect());
                for l in lost {
                    order.pos.remove(&l);
                }
            } else {
                s.sync_absent()?;
                if let Some(root) = s.root_meta() {
                    published.push(Published { mark: s.store.mark(), root, els: s.model.clone() });
                }
                continue;
            }
        }
        let mark = s.store.mark();
        let r = s.must(&op);
        c.desc = s.describe();
        r?;
        order.note(c, &s)?;
        if let Op::Retain(_) = op {
            s.sync_absent()?;
        }
        let new = s.walk()?;
        let puts = s.store.puts_since(mark);
        let some = match &op {
            Op::Push(_) => true,
            Op::Extend(e) | Op::Unpacked(e) => {
                check!(!e.is_empty() || puts.is_empty(), "{} without elements wrote {} blocks", op.name(), puts.len());
                !e.is_empty()
            }
            _ => false,
        };
        if some {
            appended(c, &s, old.as_ref(), new.as_ref(), &op, &puts)?;
        }
        if let Some(root) = s.root_meta() {
            published.push(Published { mark: s.store.mark(), root, els: s.model.clone() });
        }
        if let Some(n) = new {
            c.saw(n.shape());
        }
    }
    // stop writing at some point: everything published so far is readable
    let log = s.store.since(0);
    c.nontrivial = order.pos.len() > 5;
    let mut cuts: Vec<usize> = published.iter().map(|p| p.mark).collect();
    cuts.extend((0..4).map(|_| c.rng.gen_range(0..=log.len())));
    cuts.shuffle(&mut c.rng);
    cuts.truncate(if c.thorough { 20 } else { 6 });
    for cut in cuts {
        let part = MonStore::new();
        for e in &log[..cut] {
            if let Ev::Put { link, stored: true, .. } = e {
                let b = s.store.raw(link).unwrap();
                part.with(|st| st.blocks.insert(*link, b));
            }
        }
        let f = forest(&part, s.cache);
        let mut upto: Vec<&Published> = published.iter().filter(|p| p.mark <= cut).collect();
        if upto.len() > 4 {
            let last = upto.pop().unwrap();
            upto.shuffle(&mut c.rng);
            upto.truncate(3);
            upto.push(last);
        }
        for p in upto {
            let mut memo = walk::Memo::default();
            let n = walk::walk(&part, &p.root, &s.secrets, &mut memo)?;
            for x in n.nodes() {
                check!(
                    !matches!(x.state, walk::State::Missing),
                    "stopped after {cut} accesses: block {:?} of the root published at {} is missing",
                    x.m.link, p.mark
                );
            }
            same(&n.elements(), &p.els, "published root")?;
            if let (true, Some(l)) = (p.root.level > 0, p.root.link) {
                let t: T = ok(f.load_tree(s.secrets.clone(), l), "load_tree")?;
                same(&ok(f.collect(&t), "collect")?, &p.els, "published root")?;
                let q = Q::gen(&mut c.rng, p.els.len() as u64, s.gen.bucket, 1);
                same_triples(&drain(f.iter_filtered(&t, q.build()), p.els.len(), "iter")?, &expected(&p.els, &q), "published root")?;
            }
            c.count("roots_read_from_prefixes", 1);
        }
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        level: "fault_enumeration",
        require: &[("writes", 50_000), ("references", 100_000), ("sealed_nodes_kept", 20_000), ("appends_to_packed", 5_000), ("path_blocks", 10_000), ("failed_writes", 1000), ("roots_read_from_prefixes", 10_000)],
        ..Prop::new("C20", "random histories with writes failing in between; online: every written branch block is decoded and may only refer to blocks written before; after each append the sealed nodes of the old tree must be in the new one and new blocks over old data form one path; offline: stores with only a prefix of the writes (at each publication and at random points, 6 per history, 20 thorough) must serve every root published in it completely; non-trivial: more than five blocks; distinct: sequences of shapes", case)
    });
}
