//! Independent checks of tree shape and metadata on a rebuilt tree.
use crate::{
    check,
    sess::Res,
    types::*,
    walk::{max_children, Node, State},
};
use banyan::Config;

#[derive(Default, Clone, Copy)]
pub struct Opt {
    /// nothing was ever forgotten or rewritten, so the key byte totals must be exact
    pub exact_key_bytes: bool,
}
/// all metadata of a node agrees with what is below it
pub fn metadata(cfg: &Config, root: &Node, model: &[Option<(Key, Val)>], o: Opt) -> Res {
    for n in root.nodes() {
        let m = &n.m;
        let at = format!(
            "node level={} offset={} count={} link={:?}",
            m.level, n.start, m.count, m.link
        );
        check!(m.count > 0, "{at}: empty node");
        let b = match &n.state {
            State::Present(b) => b,
            State::Missing => crate::fail!("{at}: block is not in the store"),
            State::Purged => {
                // what is left must still be usable
                if m.is_leaf() {
                    check!(m.keys.len() as u64 == m.count, "{at}: keys of forgotten leaf lost");
                }
                check!(m.sums.len() + m.keys.len() > 0, "{at}: forgotten node without summaries");
                continue;
            }
        };
        if m.is_leaf() {
            check!(
                b.values.len() == m.keys.len(),
                "{at}: {} values, {} keys",
                b.values.len(),
                m.keys.len()
            );
            check!(
                m.value_bytes == b.env.blob.len() as u64,
                "{at}: value_bytes {} instead of {}",
                m.value_bytes,
                b.env.blob.len()
            );
            if m.sealed {
                let next = model.get((n.start + m.count) as usize);
                let reached = b.values.len() >= cfg.max_leaf_count
                    || b.env.blob.len() >= cfg.target_leaf_size
                    || b.plain.len() >= cfg.max_uncompressed_leaf_size
                    || match next {
                        Some(Some((_, v))) => {
                            b.plain.len() + v.0.len() > cfg.max_uncompressed_leaf_size
                        }
                        // forgotten meanwhile
                        Some(None) => true,
                        None => false,
                    };
                check!(reached, "{at}: leaf is sealed without having reached a limit");
            } else {
                check!(
                    b.values.len() < cfg.max_leaf_count
                        && b.env.blob.len() < cfg.target_leaf_size
                        && b.plain.len() < cfg.max_uncompressed_leaf_size,
                    "{at}: leaf has reached a limit but is not sealed"
                );
            }
            continue;
        }
        check!(!n.children.is_empty(), "{at}: no children");
        check!(
            m.sums.len() == n.children.len(),
            "{at}: {} summaries, {} children",
            m.sums.len(),
            n.children.len()
        );
        for (i, (s, c)) in m.sums.iter().zip(&n.children).enumerate() {
            check!(
                Some(s) == c.m.summary().as_ref(),
                "{at}: summary {i} is {s:?} instead of {:?}",
                c.m.summary()
            );
            check!(c.m.level < m.level, "{at}: child {i} has level {}", c.m.level);
        }
        let lmax = n.children.iter().map(|c| c.m.level).max().unwrap_or(0);
        check!(m.level == lmax + 1, "{at}: highest child has level {lmax}");
        let sum = |f: &dyn Fn(&Node) -> u64| n.children.iter().map(f).sum::<u64>();
        check!(m.count == sum(&|c| c.m.count), "{at}: counts of the children differ");
        check!(
            m.value_bytes == sum(&|c| c.m.value_bytes),
            "{at}: value_bytes {} instead of {}",
            m.value_bytes,
            sum(&|c| c.m.value_bytes)
        );
        let kb = sum(&|c| c.m.key_bytes) + b.len as u64;
        if o.exact_key_bytes {
            check!(m.key_bytes == kb, "{at}: key_bytes {} instead of {kb}", m.key_bytes);
        }
        let full = n.children.len() >= max_children(cfg, m.level)
            && n.children.iter().all(|c| c.m.sealed && c.m.level + 1 == m.level);
        check!(m.sealed == full, "{at}: sealed is {} but full is {full}", m.sealed);
    }
    Ok(())
}
/// no node exceeds its limits
pub fn limits(cfg: &Config, root: &Node) -> Res {
    for n in root.nodes() {
        let at = format!("node level={} offset={}", n.m.level, n.start);
        if n.m.is_leaf() {
            check!(
                n.m.count <= cfg.max_leaf_count as u64,
                "{at}: {} elements in a leaf",
                n.m.count
            );
            if let State::Present(b) = &n.state {
                check!(
                    b.plain.len() <= cfg.max_uncompressed_leaf_size,
                    "{at}: {} uncompressed bytes",
                    b.plain.len()
                );
            }
        } else {
            // an unpacked join always has two children
            let max = max_children(cfg, n.m.level).max(2);
            check!(
                n.children.len() <= max,
                "{at}: {} children, at most {max} are allowed",
                n.children.len()
            );
            check!(n.m.sums.len() <= max, "{at}: {} summaries", n.m.sums.len());
        }
    }
    Ok(())
}
/// packed to the left: on every level, all nodes but the last one are full
pub fn packed(n: &Node) -> bool {
    let mut n = n;
    loop {
        if n.children.is_empty() {
            return true;
        }
        let k = n.children.len();
        if !n.children[..k - 1]
            .iter()
            .all(|c| c.m.sealed && c.m.level + 1 == n.m.level && full_below(c))
        {
            return false;
        }
        n = &n.children[k - 1];
    }
}
fn full_below(n: &Node) -> bool {
    n.m.sealed
        && n.children
            .iter()
            .all(|c| c.m.level + 1 == n.m.level && full_below(c))
}
/// the sealed subtrees at the left that a pack can reuse: sealed nodes in preorder, none
/// higher than the ones before, none below another
pub fn reusable<'a>(root: &'a Node) -> Vec<&'a Node> {
    let mut r: Vec<&Node> = vec![];
    let mut level = u32::MAX;
    let mut at = 0;
    let mut stack = vec![root];
    while let Some(n) = stack.pop() {
        if n.m.sealed && n.m.level <= level && n.start == at {
            level = n.m.level;
            at = n.start + n.m.count;
            r.push(n);
        } else {
            for c in n.children.iter().rev() {
                stack.push(c);
            }
        }
    }
    r
}
