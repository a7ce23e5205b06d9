use banyan::{Config, StreamBuilder};
use bmon::{gen, inv, runner, sess::*, types::*, *};
use rand::{seq::SliceRandom, Rng, RngCore};

/// a value whose encoding has exactly `n` bytes (n > 0)
fn sized(rng: &mut gen::Rn, n: usize) -> Val {
    if n == 1 {
        return Val(vec![rng.gen_range(0..24)]);
    }
    let h = match n {
        0..=24 => 1,
        25 => return Val([vec![0x81], sized(rng, 24).0].concat()),
        26..=257 => 2,
        258 => return Val([vec![0x81], sized(rng, 257).0].concat()),
        259..=65538 => 3,
        65539 | 65540 => return Val([vec![0x81], sized(rng, n - 1).0].concat()),
        _ => 5,
    };
    let mut b = vec![0u8; n - h];
    if rng.gen() {
        rng.fill_bytes(&mut b);
    }
    let mut v = vec![];
    gen::bytes(&b, &mut v);
    assert_eq!(v.len(), n, "sized");
    Val(v)
}
fn look(c: &mut Case, s: &mut Sess) -> Res {
    let t = s.tree();
    same(&ok(s.txn.collect(&t), "collect")?, &s.model, "content")?;
    if let Some(root) = s.walk()? {
        inv::limits(&s.cfg, &root)?;
        for n in root.leaves() {
            if let Some(b) = n.block() {
                if n.m.sealed && b.values.len() == s.cfg.max_leaf_count {
                    c.count("leaves_full_by_count", 1);
                }
                if n.m.sealed && b.plain.len() == s.cfg.max_uncompressed_leaf_size {
                    c.count("leaves_full_to_the_byte", 1);
                }
                if b.env.blob.len() >= s.cfg.target_leaf_size {
                    c.count("leaves_at_target", 1);
                    check!(n.m.sealed, "leaf of {} compressed bytes is not sealed, the target is {}", b.env.blob.len(), s.cfg.target_leaf_size);
                }
                // the compressor buffers at most one zstd block and its output buffer
                let last = b.values.last().map(|v| v.len()).unwrap_or(0);
                check!(
                    b.env.blob.len() <= s.cfg.target_leaf_size + last + (300 << 10),
                    "leaf grew to {} compressed bytes, the target is {}",
                    b.env.blob.len(),
                    s.cfg.target_leaf_size
                );
                c.max("leaf_bytes", b.plain.len() as u64);
            }
        }
        c.saw(root.shape());
        c.nontrivial |= root.children.len() > 1;
        c.count("nodes", root.nodes().len() as u64);
    }
    Ok(())
}
/// items at and beyond the limit, in all kinds of appends
fn oversize(c: &mut Case, s: &mut Sess) -> Res {
    let max = s.cfg.max_uncompressed_leaf_size;
    let k = |s: &mut Sess, c: &mut Case| s.gen.key(&mut c.rng);
    // exactly the limit
    if c.rng.gen() {
        let el = El { k: k(s, c), v: sized(&mut c.rng, max) };
        let n = c.rng.gen_range(0..3);
        let mut els = s.gen.els(&mut c.rng, n);
        let at = c.rng.gen_range(0..=els.len());
        els.insert(at, el);
        let op = match c.rng.gen_range(0..3) {
            0 => Op::Push(els.swap_remove(at)),
            1 => Op::Unpacked(els),
            _ => Op::Extend(els),
        };
        s.must(&op)?;
        c.count("items_at_limit", 1);
        look(c, s)?;
    }
    // one more
    let before = s.root_meta();
    let more = *[1, 1, 2, 1000].choose(&mut c.rng).unwrap();
    let el = El { k: k(s, c), v: sized(&mut c.rng, max + more) };
    let n = c.rng.gen_range(0..12);
    let mut els = s.gen.els(&mut c.rng, n);
    let at = c.rng.gen_range(0..=els.len());
    els.insert(at, el);
    let op = match c.rng.gen_range(0..3) {
        0 => Op::Push(els.swap_remove(at)),
        1 => Op::Unpacked(els.clone()),
        _ => Op::Extend(els.clone()),
    };
    let r = s.apply(&op);
    check!(r.is_err(), "an item of {} bytes was accepted, the limit is {max}", max + more);
    check!(s.root_meta() == before, "a failing append changed the stream");
    c.count("items_beyond_limit", 1);
    look(c, s)?;
    if !matches!(op, Op::Push(_)) {
        els.remove(at);
        s.must(&Op::Extend(els))?;
    }
    Ok(())
}
/// fill a leaf to the byte
fn boundary(c: &mut Case, s: &mut Sess) -> Res {
    s.cfg.max_uncompressed_leaf_size = c.rng.gen_range(20..400);
    s.cfg.target_leaf_size = 1 << 20;
    s.cfg.max_leaf_count = 1000;
    s.gen.max_value = s.cfg.max_uncompressed_leaf_size.saturating_sub(40).max(1);
    s.b = StreamBuilder::new(s.cfg.clone(), s.secrets.clone());
    let max = s.cfg.max_uncompressed_leaf_size;
    let mut room = max;
    for _ in 0..c.rng.gen_range(2..30) {
        let n = match c.rng.gen_range(0..4) {
            0 => room.max(1),
            1 => (room + 1).min(max),
            2 => room.saturating_sub(1).max(1),
            _ => c.rng.gen_range(1..=max),
        };
        let el = El { k: s.gen.key(&mut c.rng), v: sized(&mut c.rng, n) };
        if c.rng.gen_bool(0.9) { s.must(&Op::Push(el))? } else { s.must(&Op::Extend(vec![el]))? };
        room = match n {
            n if n == room => max,
            n if n > room => if n == max { max } else { max - n },
            n => room - n,
        };
        // where did it go?
        let root = s.walk()?.unwrap();
        let leaves = root.leaves();
        let last = leaves.last().unwrap();
        let used = last.block().map(|b| b.plain.len()).unwrap_or(0);
        let free = if last.m.sealed { max } else { max - used };
        check!(free == room, "after items that leave {room} bytes the last leaf has {used} bytes, sealed={}", last.m.sealed);
    }
    look(c, s)
}
/// compressed size: items that do not compress
fn target(c: &mut Case, s: &mut Sess) -> Res {
    s.cfg.target_leaf_size = *[1000, 20_000, 200_000, 1 << 20].choose(&mut c.rng).unwrap();
    s.cfg.max_uncompressed_leaf_size = 16 << 20;
    s.cfg.max_leaf_count = 1 << 14;
    s.cfg.zstd_level = c.rng.gen_range(1..=3);
    s.b = StreamBuilder::new(s.cfg.clone(), s.secrets.clone());
    let mut els = vec![];
    let mut left: i64 = 2_600_000;
    while left > 0 {
        let n = *[3_000, 30_000, 60_000, 100_000].choose(&mut c.rng).unwrap();
        let mut b = vec![0u8; n];
        c.rng.fill_bytes(&mut b);
        let mut v = vec![];
        gen::bytes(&b, &mut v);
        els.push(El { k: s.gen.key(&mut c.rng), v: Val(v) });
        left -= n as i64;
    }
    s.must(&Op::Extend(els))?;
    c.count("incompressible_streams", 1);
    look(c, s)
}
fn validation(c: &mut Case) -> Res {
    let good = [Config::debug(), Config::debug_fast()].map(|g| Config { zstd_level: 1, ..g });
    let g = good.choose(&mut c.rng).unwrap().clone();
    let bad = |x: Config, what: &str| -> Res {
        check!(x.validate().is_err(), "validate accepts {what}");
        Ok(())
    };
    bad(Config { max_leaf_count: 0, ..g.clone() }, "max_leaf_count 0")?;
    bad(Config { max_key_branches: 0, ..g.clone() }, "max_key_branches 0")?;
    bad(Config { max_summary_branches: 0, ..g.clone() }, "max_summary_branches 0")?;
    bad(Config { max_summary_branches: 1, ..g.clone() }, "max_summary_branches 1")?;
    bad(Config { target_leaf_size: 0, ..g.clone() }, "target_leaf_size 0")?;
    bad(Config { max_uncompressed_leaf_size: 0, ..g.clone() }, "max_uncompressed_leaf_size 0")?;
    bad(Config { max_uncompressed_leaf_size: (16 << 20) + 1, ..g.clone() }, "max_uncompressed_leaf_size 16 MiB + 1")?;
    bad(Config { max_uncompressed_leaf_size: usize::MAX, ..g.clone() }, "max_uncompressed_leaf_size usize::MAX")?;
    bad(Config { target_leaf_size: usize::MAX, ..g.clone() }, "target_leaf_size usize::MAX")?;
    bad(Config { target_leaf_size: (16 << 20) + 1, ..g.clone() }, "target_leaf_size 16 MiB + 1")?;
    for _ in 0..20 {
        // everything else is fine, and building works with it
        let cfg = Config {
            max_leaf_count: *[1, 2, 1 << 14, usize::MAX].choose(&mut c.rng).unwrap(),
            max_key_branches: *[1, 2, 1000].choose(&mut c.rng).unwrap(),
            max_summary_branches: *[2, 3, 1000].choose(&mut c.rng).unwrap(),
            target_leaf_size: *[1, 2, 1 << 20].choose(&mut c.rng).unwrap(),
            max_uncompressed_leaf_size: *[1, 2, 9, 16 << 20].choose(&mut c.rng).unwrap(),
            zstd_level: *[1, 2, 3, 5, 22].choose(&mut c.rng).unwrap(),
        };
        if let Err(e) = cfg.validate() {
            fail!("validate rejects {cfg:?}: {e}");
        }
        c.count("valid_configs", 1);
        if cfg.zstd_level < 6 {
            let mut s = Sess::with(&mut c.rng, cfg);
            for _ in 0..12 {
                let k = s.gen.key(&mut c.rng);
                s.must(&Op::Push(El { k, v: Val(vec![c.rng.gen_range(0..20)]) }))?;
            }
            look(c, &mut s)?;
        }
    }
    Ok(())
}
/// the largest leaf that can be configured
fn largest(c: &mut Case) -> Res {
    let cfg = Config { zstd_level: 1, max_leaf_count: 10, target_leaf_size: 1 << 20, max_key_branches: 3, max_summary_branches: 3, max_uncompressed_leaf_size: 16 << 20 };
    cfg.validate().map_err(|e| Fail(format!("validate rejects a leaf size of 16 MiB: {e}")))?;
    let mut s = Sess::with(&mut c.rng, cfg);
    let mut v = vec![];
    gen::bytes(&vec![0x61; (16 << 20) - 5], &mut v);
    if c.rng.gen() {
        s.must(&Op::Push(El { k: s.gen.clone().key(&mut c.rng), v: Val(vec![1]) }))?;
    }
    let k = s.gen.key(&mut c.rng);
    s.must(&Op::Push(El { k, v: Val(v.clone()) }))?;
    let k = s.gen.key(&mut c.rng);
    s.must(&Op::Push(El { k, v: Val(vec![2]) }))?;
    let before = s.root_meta();
    let k = s.gen.key(&mut c.rng);
    v.insert(0, 0x81);
    check!(s.apply(&Op::Push(El { k, v: Val(v) })).is_err(), "an item of 16 MiB + 1 was accepted");
    check!(s.root_meta() == before, "a failing push changed the stream");
    c.count("largest_leaves", 1);
    look(c, &mut s)
}
fn case(c: &mut Case) -> Res {
    if c.index % 100 == 0 {
        return validation(c);
    }
    if c.index % 150 == 1 {
        return largest(c);
    }
    let mut s = Sess::new(&mut c.rng);
    let r = if c.index % 60 == 2 {
        target(c, &mut s)
    } else if c.rng.gen_bool(0.25) {
        boundary(c, &mut s)
    } else {
        let w = *[Weights::ALL, Weights::NO_RETAIN, Weights::APPEND, Weights { unpacked: 0, from: 0, ..Weights::APPEND }].choose(&mut c.rng).unwrap();
        let mut packed = w.unpacked == 0;
        let mut r = Ok(());
        for _ in 0..c.rng.gen_range(1..=10) {
            let op = s.op(&mut c.rng, &w);
            r = s.must(&op);
            if matches!(op, Op::Retain(_)) {
                s.sync_absent()?;
            }
            if r.is_ok() {
                r = look(c, &mut s);
            }
            if let (true, Ok(()), Some(root)) = (packed, &r, s.walk()?) {
                c.desc = s.describe();
                check!(inv::packed(&root), "a tree built by extend is not packed: {}", root.shape());
                c.count("packed_trees", 1);
            }
            if r.is_ok() && c.rng.gen_bool(0.3) && s.cfg.max_uncompressed_leaf_size <= 60_000 {
                packed = false; // may append unpacked
                r = oversize(c, &mut s);
            }
            if r.is_err() {
                break;
            }
        }
        r
    };
    c.desc = s.describe();
    r
}
fn main() {
    runner::main(Prop {
        require: &[("nodes", 30_000), ("items_at_limit", 200), ("items_beyond_limit", 500), ("leaves_full_by_count", 5000), ("leaves_full_to_the_byte", 300), ("leaves_at_target", 1000), ("packed_trees", 500), ("valid_configs", 60), ("incompressible_streams", 5), ("largest_leaves", 2)],
        ..Prop::new("C10", "random configurations and histories; after every operation all nodes are decoded and compared with the limits, trees built by extend and push alone must be packed; directed cases fill leaves to the byte, append items of exactly and just beyond the limit in single and bulk appends, fill leaves with incompressible data beyond the target size, use 16 MiB items, and validate boundary configurations; non-trivial: root with at least two children; distinct: shapes", case)
    });
}
