use bmon::{query::Q, runner, sess::*, store::*, types::*, walk, *};
use rand::{seq::SliceRandom, Rng};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
struct Used {
    end: u64,
    link: Lnk,
    failed: bool,
    op: usize,
}
/// keystream ranges in use, by start
#[derive(Default)]
struct Ledger {
    used: BTreeMap<u64, Used>,
    mark: usize,
    ops: usize,
}
impl Ledger {
    /// take note of all blocks that were handed to the store by the last operation
    fn note(&mut self, c: &mut Case, store: &MonStore, failed: bool) -> Res {
        let evs = store.since(self.mark);
        self.mark = store.mark();
        self.ops += 1;
        for e in evs {
            let link = match e {
                Ev::Put { link, .. } => link,
                _ => continue,
            };
            let data = store.with(|st| st.blocks.get(&link).map(|x| x.to_vec()).or_else(|| st.lost.get(&link).cloned())).unwrap();
            let env = walk::envelope(&data)?;
            check!(!env.blob.is_empty(), "empty blob");
            let (a, b) = (env.offset, match env.offset.checked_add(env.blob.len() as u64) { Some(b) => b, None => fail!("cipher offset overflows") });
            // the neighbours in the ledger
            let before = self.used.range(..b).next_back();
            if let Some((start, u)) = before {
                check!(
                    u.end <= a,
                    "block {} uses the keystream {a}..{b}, block {} of operation {} (failed: {}) has used {start}..{}",
                    link.short(), u.link.short(), u.op, u.failed, u.end
                );
            }
            self.used.insert(a, Used { end: b, link, failed, op: self.ops });
            c.count("blocks", 1);
            if failed {
                c.count("blocks_of_failed_operations", 1);
            }
        }
        Ok(())
    }
    /// the builder was reloaded: it can only know about what was written up to its root
    fn reloaded(&mut self, c: &mut Case, s: &Sess) -> Res {
        let link = match s.b.link() {
            Some(l) => l,
            None => return Ok(()),
        };
        let env = walk::envelope(&s.store.raw(&link).unwrap())?;
        let end = env.offset + env.blob.len() as u64;
        let later = self.used.split_off(&end);
        if let Some((a, u)) = self.used.iter().next_back() {
            check!(u.end <= end, "range {a}..{} overlaps the end of the root", u.end);
        }
        for (a, u) in later {
            // all blocks of the current tree lie before the root, so that reloading is safe
            check!(
                u.failed,
                "block {} of the successful operation {} at {a} lies after the root, which ends at {end}",
                u.link.short(), u.op
            );
            c.count("forgotten_ranges_of_failed_operations", 1);
        }
        c.count("reloads", 1);
        Ok(())
    }
}
fn fault(c: &mut Case, s: &Sess) {
    let n = c.rng.gen_range(0..6);
    s.store.with(|st| match c.rng.gen_range(0..3) {
        0 => st.put_fault = Some((n, PutFault::Lost)),
        1 => st.put_fault = Some((n, PutFault::StoredButError)),
        _ => st.get_fault = Some(n),
    });
}
fn step(c: &mut Case, s: &mut Sess, l: &mut Ledger) -> Res {
    match c.rng.gen_range(0..100) {
        0..=24 => {
            // a faulty operation
            let op = s.op(&mut c.rng, &Weights { repair: 0, reload: 0, from: 0, ..Weights::ALL });
            fault(c, s);
            let r = s.apply(&op);
            s.store.heal();
            if r.is_err() {
                s.history.push("failed".into());
                c.count("failed_operations", 1);
            } else if matches!(op, Op::Retain(_)) {
                s.sync_absent()?;
            }
            l.note(c, &s.store, r.is_err())
        }
        25..=34 => {
            // an item that does not fit, somewhere in a bulk append
            let n = c.rng.gen_range(0..20);
            let mut els = s.gen.els(&mut c.rng, n);
            let k = s.gen.key(&mut c.rng);
            let mut v = vec![];
            gen::bytes(&vec![1; s.cfg.max_uncompressed_leaf_size.min(40_000)], &mut v);
            let at = c.rng.gen_range(0..=els.len());
            if v.len() > s.cfg.max_uncompressed_leaf_size {
                els.insert(at, El { k, v: Val(v) });
            }
            let op = if c.rng.gen() { Op::Extend(els) } else { Op::Unpacked(els) };
            let r = s.apply(&op);
            l.note(c, &s.store, r.is_err())
        }
        35..=49 => {
            // a stream transaction, dropped or committed
            let ops: Vec<Op> = (0..c.rng.gen_range(1..4))
                .map(|_| s.op(&mut c.rng, &Weights { repair: 0, reload: 0, retain: 0, from: 0, ..Weights::ALL }))
                .collect();
            let commit: bool = c.rng.gen();
            let faulty = c.rng.gen_bool(0.3);
            let mut added = vec![];
            s.history.push(format!("transaction commit={commit}"));
            {
                let mut t = s.b.transaction();
                for op in &ops {
                    s.history.push(op.name());
                    if faulty {
                        let n = c.rng.gen_range(0..4);
                        s.store.with(|st| st.put_fault = Some((n, PutFault::StoredButError)));
                    }
                    let r = exec(&mut s.txn, &mut t, op);
                    l.note(c, &s.store, r.is_err() || !commit)?;
                    if r.is_ok() {
                        match op {
                            Op::Extend(e) | Op::Unpacked(e) => added.extend(e.iter().cloned()),
                            Op::Push(e) => added.push(e.clone()),
                            _ => {}
                        }
                    }
                    s.store.heal();
                }
                if commit {
                    t.commit();
                }
            }
            if commit {
                s.model.extend(added.into_iter().map(|e| Some((e.k, e.v))));
            }
            c.count(if commit { "committed" } else { "rolled_back" }, 1);
            Ok(())
        }
        50..=61 => {
            let could = s.can_reload();
            s.must(&Op::Reload)?;
            if could {
                l.reloaded(c, s)?;
            }
            Ok(())
        }
        62..=66 => {
            // lose some blocks, then repair
            if let Some(root) = s.walk()? {
                let mut links: Vec<Lnk> = root.links().into_iter().collect();
                links.sort();
                links.retain(|_| c.rng.gen_bool(0.1));
                s.store.with(|st| st.hidden.extend(links.iter()));
                s.must(&Op::Repair)?;
                s.store.heal();
                s.sync_absent()?;
            }
            l.note(c, &s.store, false)
        }
        67..=70 => {
            let q = Q::gen(&mut c.rng, s.n(), s.gen.bucket, 2);
            s.must(&Op::Retain(q))?;
            s.sync_absent()?;
            l.note(c, &s.store, false)
        }
        71 | 72 => {
            if s.can_reload() {
                l.reloaded(c, s)?;
            }
            if let Some((link, r)) = s.relocate(&mut c.rng)? {
                l.used.insert(r.start, Used { end: r.end, link, failed: false, op: l.ops });
                c.count("continued_far_away", 1);
            }
            Ok(())
        }
        _ => {
            let op = s.op(&mut c.rng, &Weights { repair: 0, reload: 0, retain: 0, from: 1, ..Weights::ALL });
            let r = s.apply(&op);
            if let (Err(e), true) = (&r, s.model.iter().all(|x| x.is_some())) {
                fail!("{} failed: {e:#}", op.name());
            }
            l.note(c, &s.store, r.is_err())
        }
    }
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    if c.rng.gen_bool(0.1) {
        // high offsets: as if the stream were long lived. A first big block moves the offset.
        s.cfg.max_uncompressed_leaf_size = 1 << 20;
        s.cfg.target_leaf_size = *[100, 1 << 16].choose(&mut c.rng).unwrap();
        s.b = banyan::StreamBuilder::new(s.cfg.clone(), s.secrets.clone());
        let k = s.gen.key(&mut c.rng);
        let mut v = vec![0u8; c.rng.gen_range(1000..200_000)];
        rand::RngCore::fill_bytes(&mut c.rng, &mut v);
        let mut b = vec![];
        gen::bytes(&v, &mut b);
        s.must(&Op::Push(El { k, v: Val(b) }))?;
    }
    let mut l = Ledger::default();
    l.note(c, &s.store, false)?;
    let steps = c.rng.gen_range(3..=30);
    for _ in 0..steps {
        let r = step(c, &mut s, &mut l);
        c.desc = s.describe();
        r?;
        if s.n() > 400 {
            break;
        }
    }
    // the content must still be right
    let t = s.tree();
    same(&ok(s.txn.collect(&t), "collect")?, &s.model, "content at the end")?;
    c.nontrivial = l.used.len() > 5;
    c.saw(l.used.iter().map(|(a, u)| (*a, u.end)).collect::<Vec<_>>());
    c.max("blocks_in_one_stream", l.used.len() as u64);
    c.max("offset", l.used.values().last().map(|u| u.end).unwrap_or(0));
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("blocks", 50_000), ("blocks_of_failed_operations", 1000), ("failed_operations", 1000), ("rolled_back", 500), ("committed", 500), ("reloads", 500), ("continued_far_away", 100)],
        ..Prop::new("C07", "random life of a stream with injected write and read failures at random points, items that do not fit, dropped and committed transactions, retain, repair after losses, reloads from the current root, and continuation at far away offsets; a ledger of the keystream range of every block handed to the store (also those that did not reach it) rejects any overlap, and at a reload that a block of the current tree lies after the root; non-trivial: more than five blocks; distinct: sequence of ranges", case)
    });
}
