use bmon::{inv, sess::*, *};
use rand::Rng;

fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    if c.rng.gen_bool(0.02) {
        s.noisy(&mut c.rng);
        c.count("with_big_values", 1);
    }
    let ops = c.rng.gen_range(1..=14);
    let w = match c.rng.gen_range(0..4) {
        0 => Weights::APPEND,
        1 | 2 => Weights::NO_RETAIN,
        _ => Weights { retain: 4, ..Weights::ALL },
    };
    let mut forgot = false;
    for _ in 0..ops {
        let op = s.op(&mut c.rng, &w);
        c.count(op.kind(), 1);
        let r = s.must(&op);
        c.desc = s.describe();
        r?;
        if matches!(op, Op::Retain(_) | Op::Repair) {
            s.sync_absent()?;
            forgot |= s.model.iter().any(|x| x.is_none());
        }
        let root = match s.walk()? {
            Some(r) => r,
            None => {
                check!(s.n() == 0, "empty tree with {} elements", s.n());
                continue;
            }
        };
        check!(root.m.count == s.n(), "count {} instead of {}", root.m.count, s.n());
        inv::metadata(&s.cfg, &root, &s.model, inv::Opt { exact_key_bytes: !forgot })?;
        let b = &s.b;
        check!(b.count() == root.m.count && b.level() == root.m.level as i32, "builder reports count {} level {}", b.count(), b.level());
        let msgs = ok(s.txn.check_invariants(&s.b), "check_invariants")?;
        check!(msgs.is_empty(), "check_invariants rejects a correct tree: {msgs:?}");
        c.count("nodes_checked", root.nodes().len() as u64);
        c.count("sealed_branches", root.nodes().iter().filter(|n| n.m.sealed && !n.m.is_leaf()).count() as u64);
        c.count("forgotten_nodes", root.nodes().iter().filter(|n| !n.present()).count() as u64);
        c.max("depth", root.depth() as u64);
        c.saw(root.shape());
        c.nontrivial |= root.children.len() > 1;
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("nodes_checked", 20_000), ("sealed_branches", 1000), ("forgotten_nodes", 50), ("with_big_values", 10)],
        ..Prop::new("C03", "random configuration and history of all operations; after every operation the tree is rebuilt from the raw blocks by an independent decoder and count, level, summaries, byte totals and sealed flags of every node are recomputed from its children and compared, and check_invariants must accept it; non-trivial: root with at least two children; distinct: set of tree shapes seen", case)
    });
}
