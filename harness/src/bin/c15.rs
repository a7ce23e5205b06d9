use bmon::{query::Q, runner, sess::*, types::*, walk::State, *};
use rand::{seq::SliceRandom, Rng, RngCore};
use std::collections::HashSet;

fn reads(c: &mut Case, s: &mut Sess, els: &[Option<(Key, Val)>], what: &str) -> Res {
    let t = s.tree();
    check!(t.count() == els.len() as u64, "{what}: count is {}", t.count());
    same(&ok(s.txn.collect(&t), what)?, els, what)?;
    for _ in 0..8 {
        let o = c.rng.gen_range(0..=els.len() as u64);
        let got = ok(s.txn.get(&t, o), &format!("{what}: get({o})"))?;
        check!(got == els.get(o as usize).cloned().flatten(), "{what}: get({o}) is {got:?}");
    }
    for i in 0..2 {
        let q = if i == 0 { Q::All } else { Q::gen(&mut c.rng, s.n(), s.gen.bucket, 2) };
        let want = expected(els, &q);
        let max = els.len();
        same_triples(&drain(s.txn.iter_filtered(&t, q.build()), max, what)?, &want, &format!("{what}: iter {q:?}"))?;
        let mut got = drain(s.txn.iter_filtered_reverse(&t, q.build()), max, what)?;
        got.reverse();
        same_triples(&got, &want, &format!("{what}: reverse {q:?}"))?;
        same_triples(&drain_stream(s.txn.stream_filtered(&t, q.build()), max, what)?, &want, &format!("{what}: stream {q:?}"))?;
        let ch = drain(s.txn.iter_filtered_chunked(&t, q.build(), &|_| ()), 3 * max + 3, what)?;
        let mut at = 0;
        for x in &ch {
            check!(x.range.start == at, "{what}: chunk {:?} expected at {at}", x.range);
            at = x.range.end;
        }
        check!(at == max as u64, "{what}: chunks end at {at} of {max}");
        ok(s.txn.iter_index(&t, q.build()).collect::<anyhow::Result<Vec<_>>>(), what)?;
        ok(s.txn.iter_index_reverse(&t, q.build()).collect::<anyhow::Result<Vec<_>>>(), what)?;
    }
    Ok(())
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let w = *[Weights { repair: 0, ..Weights::ALL }, Weights::APPEND, Weights { extend: 1, push: 1, from: 0, ..Weights::APPEND }].choose(&mut c.rng).unwrap();
    let n = c.rng.gen_range(0..=10);
    let r = s.run(&mut c.rng, &w, n);
    c.desc = s.describe();
    r?;
    let root = s.walk()?;
    s.model = root.as_ref().map(|r| r.elements()).unwrap_or_default();
    // a complete tree
    let (mark, meta) = (s.store.mark(), s.root_meta());
    let rep = ok(s.txn.repair(&mut s.b), "repair of a complete tree")?;
    check!(rep.is_empty(), "repair of a complete tree reports {rep:?}");
    check!(s.store.puts_since(mark).is_empty(), "repair of a complete tree wrote blocks");
    check!(s.root_meta() == meta, "repair of a complete tree changed the root");
    c.count("complete", 1);
    let root = match root {
        None => return Ok(()),
        Some(r) => r,
    };
    let mut links: Vec<Lnk> = root.links().into_iter().collect();
    links.sort();
    let els = s.model.clone();
    let mut plans: Vec<Vec<Lnk>> = links.iter().map(|l| vec![*l]).collect();
    plans.shuffle(&mut c.rng);
    plans.truncate(if c.thorough { 80 } else { 16 });
    for _ in 0..6 {
        let p = *[0.05, 0.2, 0.5].choose(&mut c.rng).unwrap();
        plans.push(links.iter().filter(|_| c.rng.gen_bool(p)).copied().collect());
    }
    for plan in plans {
        // a second session on the same blocks, by a transaction that is dropped in the end
        s.txn = txn(&s.store, s.cache);
        if c.rng.gen_bool(0.5) {
            // warm caches
            let t = s.tree();
            ok(s.txn.collect(&t), "collect")?;
            drain(s.txn.iter_from(&t), els.len(), "iter")?;
            c.count("warm", 1);
        }
        for l in &plan {
            let raw = s.store.raw(l).unwrap();
            match c.rng.gen_range(0..4) {
                0 => {
                    let n = c.rng.gen_range(0..raw.len());
                    s.store.with(|st| st.corrupt.insert(*l, raw[..n].to_vec()));
                }
                1 => {
                    let mut b = vec![0; c.rng.gen_range(0..60)];
                    c.rng.fill_bytes(&mut b);
                    s.store.with(|st| st.corrupt.insert(*l, b));
                }
                _ => {
                    s.store.with(|st| st.hidden.insert(*l));
                }
            }
        }
        let lost: HashSet<Lnk> = plan.iter().copied().collect();
        let now = walk::walk_lost(&s.store, &root.m, &s.secrets, &mut s.memo, &lost)?;
        let want = now.elements();
        let top: HashSet<Lnk> = now.nodes().iter().filter(|n| matches!(n.state, State::Missing)).map(|n| n.m.link.unwrap()).collect();
        let before = s.root_meta();
        let mark = s.store.mark();
        let mut b = s.b.transaction();
        let rep = ok(s.txn.repair(&mut b), "repair")?;
        b.commit();
        c.count("repairs", 1);
        c.count("lost", lost.len() as u64);
        c.count("given_up", top.len() as u64);
        let what = format!("repair after losing {} blocks", lost.len());
        for l in &links {
            let named = rep.iter().any(|x| x.contains(&l.to_string()));
            check!(named || !top.contains(l), "{what}: the report does not mention the lost block {}: {rep:?}", l.short());
            check!(top.contains(l) || !named, "{what}: the report mentions block {} which was not given up", l.short());
        }
        if top.is_empty() {
            check!(rep.is_empty() && s.store.puts_since(mark).is_empty() && s.root_meta() == before, "{what}: nothing is lost, but the stream was changed: {rep:?}");
        }
        // forgotten nodes are the lost ones
        let after = s.walk()?.unwrap();
        same(&after.elements(), &want, &what)?;
        let mut pairs = vec![(&now, &after)];
        while let Some((a, b)) = pairs.pop() {
            check!(
                a.m.count == b.m.count && a.m.keys == b.m.keys && a.m.sums == b.m.sums && a.m.level == b.m.level && a.m.sealed == b.m.sealed,
                "{what}: the node at {} level {} has changed", a.start, a.m.level
            );
            match a.state {
                State::Present(_) => {
                    check!(b.present() && a.children.len() == b.children.len(), "{what}: the node at {} level {} is gone", a.start, a.m.level);
                    pairs.extend(a.children.iter().zip(&b.children));
                }
                _ => check!(b.m.link.is_none(), "{what}: the lost node at {} level {} is still referred to", a.start, a.m.level),
            }
        }
        reads(c, &mut s, &want, &what)?;
        // once more
        let (mark, meta) = (s.store.mark(), s.root_meta());
        if c.rng.gen() {
            s.txn = txn(&s.store, s.cache);
        }
        let rep = ok(s.txn.repair(&mut s.b), "second repair")?;
        check!(rep.is_empty(), "{what}: a second repair reports {rep:?}");
        check!(s.store.puts_since(mark).is_empty() && s.root_meta() == meta, "{what}: a second repair changed the stream");
        // what is forgotten stays so
        if c.rng.gen_bool(0.3) {
            s.store.heal();
            reads(c, &mut s, &want, "after the blocks are back")?;
        }
        if s.can_reload() && c.rng.gen_bool(0.3) {
            ok(s.reload(), "reload of a repaired stream")?;
            reads(c, &mut s, &want, "reloaded after repair")?;
            c.count("reloaded", 1);
        }
        if !top.is_empty() {
            c.nontrivial = true;
            c.saw(after.shape());
        }
        // back to the complete tree, or go on from here
        s.store.heal();
        if c.rng.gen_bool(0.02) || !s.restore(&root) {
            break;
        }
    }
    Ok(())
}
trait Restore {
    fn restore(&mut self, root: &walk::Node) -> bool;
}
impl Restore for Sess {
    fn restore(&mut self, root: &walk::Node) -> bool {
        if root.m.is_leaf() {
            return false;
        }
        match root.m.link {
            Some(l) => match self.txn.load_stream_builder(self.secrets.clone(), self.cfg.clone(), l) {
                Ok(b) => {
                    self.b = b;
                    true
                }
                Err(_) => false,
            },
            None => false,
        }
    }
}
fn main() {
    runner::main(Prop {
        level: "fault_enumeration",
        require: &[("complete", 1000), ("repairs", 8000), ("given_up", 8000), ("warm", 2000), ("reloaded", 1000)],
        ..Prop::new("C15", "random trees (also partly forgotten and unpacked); every single block lost in turn (at most 16, thorough 80, sampled beyond that; missing, truncated or garbage) and six random sets, with cold and with warm caches; the repaired tree is decoded from raw blocks and compared with the tree that is left, the report with the topmost lost blocks, all read paths afterwards, a second repair; non-trivial: something was given up; distinct: shapes after repair", case)
    });
}
