use bmon::{inv, query::Q, runner, sess::*, types::*, *};
use rand::Rng;

fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let mut w = match c.rng.gen_range(0..5) {
        0 => Weights { retain: 4, repair: 0, ..Weights::ALL },
        1 | 2 => Weights { pack: 1, unpacked: 12, ..Weights::NO_RETAIN },
        _ => Weights { pack: 1, ..Weights::NO_RETAIN },
    };
    for _ in 0..c.rng.gen_range(1..=3) {
        let ops = c.rng.gen_range(1..=8);
        let r = s.run(&mut c.rng, &w, ops);
        c.desc = s.describe();
        r?;
        if c.rng.gen_bool(0.15) {
            // retain makes the packed part partially absent
            let q = Q::gen(&mut c.rng, s.n(), s.gen.bucket, 1);
            s.must(&Op::Retain(q))?;
            s.sync_absent()?;
        }
        if c.rng.gen_bool(0.15) {
            // blocks get lost and the tree is repaired
            if let Some(root) = s.walk()? {
                let links: Vec<Lnk> = root.links().into_iter().collect();
                let mut links: Vec<Lnk> = links;
                links.sort();
                links.retain(|_| c.rng.gen_bool(0.15));
                s.store.with(|st| st.hidden.extend(links.iter()));
                s.txn = txn(&s.store, s.cache);
                s.must(&Op::Repair)?;
                s.store.heal();
                s.sync_absent()?;
                c.count("repaired", 1);
                w.pack = 0;
            }
        }
        pack(c, &mut s, w.pack == 0)?;
    }
    Ok(())
}
/// `repaired`: data of the unpacked part may be gone
fn pack(c: &mut Case, s: &mut Sess, repaired: bool) -> Res {
    let old = s.walk()?;
    let before = s.root_meta();
    let reported = ok(s.txn.is_packed(&s.tree()), "is_packed")?;
    let real = old.as_ref().map(inv::packed).unwrap_or(true);
    let holes = s.model.iter().any(|x| x.is_none());
    // what counts as packed below forgotten nodes is not visible in the blocks
    if !holes {
        check!(reported == real, "is_packed says {reported}, the blocks say {real}");
    }
    let mark = s.store.mark();
    s.history.push("PACK".into());
    c.desc = s.describe();
    match s.txn.pack(&mut s.b) {
        Err(e) => {
            check!(holes && repaired, "pack failed though nothing is missing in the unpacked part: {e:#}");
            check!(s.root_meta() == before, "a failing pack changed the root");
            c.count("pack_refused", 1);
        }
        Ok(()) => {
            let new = s.walk()?;
            let els = new.as_ref().map(|n| n.elements()).unwrap_or_default();
            same(&els, &s.model, "blocks after pack")?;
            let t = s.tree();
            same(&ok(s.txn.collect(&t), "collect after pack")?, &s.model, "collect after pack")?;
            check!(ok(s.txn.is_packed(&t), "is_packed")?, "not reported as packed after pack");
            if let Some(n) = &new {
                check!(inv::packed(n), "tree is not packed: {}", n.shape());
                inv::limits(&s.cfg, n)?;
                c.saw((n.shape(), old.as_ref().unwrap().shape()));
            }
            let puts = s.store.puts_since(mark);
            if reported {
                check!(puts.is_empty(), "packing a packed tree wrote {} blocks", puts.len());
                check!(s.root_meta() == before, "packing a packed tree changed the root");
                c.count("pack_noop", 1);
            } else {
                c.nontrivial = true;
                c.count("pack_changed", 1);
                let (old, new) = (old.unwrap(), new.unwrap());
                let links = new.links();
                let mut kept = 0;
                for n in inv::reusable(&old) {
                    if let Some(l) = n.m.link {
                        check!(
                            links.contains(&l),
                            "the full subtree at offset {} level {} was not reused",
                            n.start,
                            n.m.level
                        );
                        kept = n.start + n.m.count;
                    }
                }
                // nothing of the reused part is written again
                for p in &puts {
                    for n in new.leaves() {
                        check!(
                            n.m.link != Some(*p) || n.start >= kept,
                            "leaf at {} was rewritten though it is reusable up to {kept}",
                            n.start
                        );
                    }
                }
                c.count("reused_subtrees", inv::reusable(&old).len() as u64);
            }
            // once more: noop
            let mark = s.store.mark();
            let meta = s.root_meta();
            ok(s.txn.pack(&mut s.b), "second pack")?;
            check!(s.store.puts_since(mark).is_empty(), "second pack wrote blocks");
            check!(s.root_meta() == meta, "second pack changed the root");
            // the root can be loaded again and extended
            if s.can_reload() {
                let link = s.b.link().unwrap();
                let f = forest(&s.store, cache_size(&mut c.rng));
                let t: T = ok(f.load_tree(s.secrets.clone(), link), "load packed root")?;
                same(&ok(f.collect(&t), "collect reloaded")?, &s.model, "reloaded packed tree")?;
                if c.rng.gen() {
                    s.reload().map_err(|e| Fail(format!("reload after pack: {e:#}")))?;
                }
            }
            let n = c.rng.gen_range(0..12);
            let els = s.gen.els(&mut c.rng, n);
            s.must(&Op::Extend(els))?;
            let t = s.tree();
            same(&ok(s.txn.collect(&t), "collect")?, &s.model, "extended packed tree")?;
            if let Some(n) = s.walk()? {
                check!(holes || inv::packed(&n), "extending a packed tree left it unpacked: {}", n.shape());
            }
            c.count("elements", s.n());
        }
    }
    c.desc = s.describe();
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("pack_changed", 1000), ("pack_noop", 200), ("pack_refused", 5), ("reused_subtrees", 2000)],
        ..Prop::new("C02", "random configuration and history (extend, push, extend_unpacked, pack, reload, retain), then pack: elements (through banyan and through an independent block decoder), packedness recomputed from the blocks, reuse of all full subtrees, no-op on packed trees by the store's write log, reload and extension; non-trivial: pack had to change the tree; distinct: shape before and after", case)
    });
}
