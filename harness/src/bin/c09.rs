use bmon::{cborx, gen, runner, sess::*, store::*, types::*, walk, *};
use libipld::Cid;
use rand::{seq::SliceRandom, Rng, RngCore};
use std::collections::BTreeSet;

/// a link in all kinds of places
fn nested(rng: &mut gen::Rn, payload: &[u8], depth: u32, out: &mut Vec<u8>) {
    let l = |out: &mut Vec<u8>| {
        out.extend([0xd8, 42]);
        gen::bytes(payload, out);
    };
    match rng.gen_range(0..if depth == 0 { 1 } else { 6 }) {
        0 => l(out),
        1 => {
            gen::head(4, 2, out);
            gen::head(0, 7, out);
            nested(rng, payload, depth - 1, out);
        }
        2 => {
            gen::head(5, 2, out);
            gen::text("a", out);
            gen::text("b", out);
            gen::text("c", out);
            nested(rng, payload, depth - 1, out);
        }
        3 => {
            out.push(0x9f);
            nested(rng, payload, depth - 1, out);
            out.push(0xf6);
            out.push(0xff);
        }
        4 => {
            out.push(0xbf);
            gen::head(0, 1, out);
            nested(rng, payload, depth - 1, out);
            out.push(0xff);
        }
        _ => {
            gen::head(4, 3, out);
            nested(rng, payload, depth - 1, out);
            gen::bytes(b"xyz", out);
            nested(rng, payload, depth - 1, out);
        }
    }
}
fn linked(c: &mut Case, s: &mut Sess, n: usize) -> Vec<El> {
    (0..n)
        .map(|_| {
            let k = s.gen.key(&mut c.rng);
            let mut v = vec![];
            if c.rng.gen_bool(0.8) {
                let cid = gen::cid(&mut c.rng);
                let mut p = vec![0];
                p.extend(cid.to_bytes());
                let d = c.rng.gen_range(0..5);
                if s.gen.noise > 0 {
                    let mut b = vec![0; c.rng.gen_range(0..=s.gen.noise)];
                    c.rng.fill_bytes(&mut b);
                    gen::head(4, 2, &mut v);
                    gen::bytes(&b, &mut v);
                }
                nested(&mut c.rng, &p, d, &mut v);
            } else {
                v = s.gen.value(&mut c.rng, k.id).0;
            }
            if v.len() > s.gen.max_value {
                v = vec![0x01];
            }
            El { k, v: Val(v) }
        })
        .collect()
}
fn links_of(env: &walk::Env, what: &str) -> Res<BTreeSet<Cid>> {
    let set: BTreeSet<Cid> = env.links.iter().cloned().collect();
    check!(set.len() == env.links.len(), "{what}: duplicate links: {} entries, {} distinct", env.links.len(), set.len());
    Ok(set)
}
/// every block written so far
fn blocks(c: &mut Case, s: &Sess, mark: &mut usize) -> Res {
    for link in s.store.puts_since(*mark) {
        let data = s.store.with(|st| st.blocks.get(&link).map(|x| x.to_vec()).or_else(|| st.lost.get(&link).cloned())).unwrap();
        let b = match walk::decode_leaf(&data, &s.secrets) {
            Ok(b) => b,
            Err(le) => walk::decode_branch(&data, &s.secrets).map_err(|e| Fail(format!("block can not be decoded as leaf ({le}) or branch ({e})")))?,
        };
        let what = format!("block with {} items, {} children", b.values.len(), b.children.len());
        let set = links_of(&b.env, &what)?;
        check!(
            set == b.plain_links,
            "{what}: the links section has {} links, the content has {}: missing {:?}, surplus {:?}",
            set.len(),
            b.plain_links.len(),
            b.plain_links.difference(&set).map(|x| x.to_string()).collect::<Vec<_>>(),
            set.difference(&b.plain_links).map(|x| x.to_string()).collect::<Vec<_>>()
        );
        c.count("blocks", 1);
        c.count("links", set.len() as u64);
        c.max("links_in_block", set.len() as u64);
    }
    *mark = s.store.mark();
    Ok(())
}
/// the links of every reachable node, recomputed from the model and the metadata
fn reachable(c: &mut Case, s: &mut Sess) -> Res {
    let root = match s.walk()? {
        Some(r) => r,
        None => return Ok(()),
    };
    for n in root.nodes() {
        let b = match n.block() {
            Some(b) => b,
            None => continue,
        };
        let set: BTreeSet<Cid> = b.env.links.iter().cloned().collect();
        let mut want = BTreeSet::new();
        if n.m.is_leaf() {
            for (_, v) in s.model[n.start as usize..(n.start + n.m.count) as usize].iter().flatten() {
                want.extend(cborx::links(&v.0)?);
            }
            c.count("leaves_with_links", !want.is_empty() as u64);
        } else {
            for ch in &n.children {
                want.extend(ch.m.link.map(|l| l.cid()));
                want.extend(ch.m.keys.iter().filter_map(|k| k.l.map(|l| l.cid())));
                want.extend(ch.m.sums.iter().filter_map(|k| k.l.map(|l| l.cid())));
                c.count("forgotten_children", ch.m.link.is_none() as u64);
            }
        }
        check!(
            set == want,
            "links section of the node at level {} {:?} has {:?}, expected {:?}",
            n.m.level,
            n.range(),
            set.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
            want.iter().map(|x| x.to_string()).collect::<Vec<_>>()
        );
    }
    c.nontrivial |= root.children.len() > 1;
    c.saw((root.shape(), root.nodes().iter().filter_map(|n| n.block().map(|b| b.env.links.len())).collect::<Vec<_>>()));
    Ok(())
}
/// content with a malformed link
fn malformed(c: &mut Case, s: &mut Sess) -> Res {
    let good = {
        let mut p = vec![0];
        p.extend(gen::cid(&mut c.rng).to_bytes());
        p
    };
    let p = match c.rng.gen_range(0..6) {
        0 => vec![],
        1 => good[1..].to_vec(),
        2 => {
            let mut p = good.clone();
            p[0] = c.rng.gen_range(1..=255);
            p
        }
        3 => good[..c.rng.gen_range(1..good.len() - 1)].to_vec(),
        4 => vec![0],
        _ => {
            // wrong version
            let mut p = vec![0, 7];
            p.extend(&good[2..]);
            p
        }
    };
    // only what an independent parser rejects, too
    if p.first() == Some(&0) && Cid::try_from(&p[1..]).is_ok() {
        return Ok(());
    }
    let k = s.gen.key(&mut c.rng);
    let mut v = vec![];
    let d = c.rng.gen_range(0..5);
    nested(&mut c.rng, &p, d, &mut v);
    if v.len() > s.gen.max_value {
        return Ok(());
    }
    let before = (s.root_meta(), s.n());
    let bad = El { k, v: Val(v) };
    let op = match c.rng.gen_range(0..3) {
        0 => Op::Push(bad),
        x => {
            let n = c.rng.gen_range(0..12);
            let mut els = linked(c, s, n);
            let at = c.rng.gen_range(0..=els.len());
            els.insert(at, bad);
            if x == 1 { Op::Extend(els) } else { Op::Unpacked(els) }
        }
    };
    let r = s.apply(&op);
    check!(r.is_err(), "content with the malformed link {p:02x?} was accepted");
    check!(before == (s.root_meta(), s.b.count()), "a rejected append changed the stream");
    c.count("malformed", 1);
    // the same without the bad element
    let els = match op {
        Op::Extend(e) | Op::Unpacked(e) => e,
        _ => vec![],
    };
    let els: Vec<El> = els.into_iter().filter(|e| cborx::links(&e.v.0).is_ok()).collect();
    s.must(&Op::Extend(els))
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    s.gen.links = true;
    if c.rng.gen_bool(0.5) {
        // room for several links in a leaf
        s.cfg.max_uncompressed_leaf_size = 100_000;
        s.cfg.target_leaf_size = *[100, 300, 10_000].choose(&mut c.rng).unwrap();
        s.gen.max_value = 3000;
        s.b = banyan::StreamBuilder::new(s.cfg.clone(), s.secrets.clone());
    }
    if c.rng.gen_bool(0.04) {
        s.noisy(&mut c.rng);
        c.count("with_big_values", 1);
    }
    let mut mark = 0;
    let ops = c.rng.gen_range(1..=12);
    for _ in 0..ops {
        let mut op = s.op(&mut c.rng, &Weights { repair: 0, ..Weights::ALL });
        match &mut op {
            Op::Extend(e) | Op::Unpacked(e) => *e = linked(c, &mut s, e.len()),
            Op::Push(e) => *e = linked(c, &mut s, 1).pop().unwrap(),
            _ => {}
        }
        let fault = c.rng.gen_bool(0.08);
        if fault {
            let n = c.rng.gen_range(0..5);
            s.store.with(|st| st.put_fault = Some((n, PutFault::Lost)));
        }
        let r = s.apply(&op);
        s.store.heal();
        c.desc = s.describe();
        match r {
            Err(e) if !fault => fail!("{} failed: {e:#}", op.name()),
            Ok(_) if matches!(op, Op::Retain(_)) => s.sync_absent()?,
            _ => {}
        }
        blocks(c, &s, &mut mark)?;
        if c.rng.gen_bool(0.3) {
            let r = malformed(c, &mut s);
            c.desc = s.describe();
            r?;
            // nothing malformed was stored
            blocks(c, &s, &mut mark)?;
        }
        reachable(c, &mut s)?;
    }
    let t = s.tree();
    same(&ok(s.txn.collect(&t), "collect")?, &s.model, "content")
}
fn main() {
    runner::main(Prop {
        require: &[("blocks", 20_000), ("links", 20_000), ("leaves_with_links", 10_000), ("forgotten_children", 300), ("malformed", 1000), ("with_big_values", 15)],
        ..Prop::new("C09", "random histories with values, keys and summaries that contain links at all nesting positions; the links section of every block handed to the store is compared with the links an independent scanner finds in the decrypted content, and of every reachable node with the links recomputed from the reference model and the child metadata; malformed links must make appends fail without a trace; non-trivial: root with at least two children; distinct: shape and numbers of links", case)
    });
}
