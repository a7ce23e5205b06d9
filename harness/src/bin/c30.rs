use banyan::{index::*, query::AllQuery, store::ZstdDagCborSeq, Config, Secrets, StreamBuilder, TreeTypes};
use bmon::{gen, runner, runner::*, sess::*, store::MonStore, types::*, *};
use rand::{seq::SliceRandom, Rng};

/// a node of a tree that the harness writes itself
#[derive(Clone, Debug)]
struct D {
    level: u32,
    sealed: bool,
    purged: bool,
    els: Vec<El>,
    children: Vec<D>,
    bad: Option<Bad>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    /// more or fewer values than keys
    Values,
    /// more or fewer summaries than children
    Summaries,
    /// one of the summaries is not that of the child
    Summary,
    /// the sealed flag is not what follows from the children
    Sealed,
    /// the level is not above (or, if sealed, not just above) that of the children
    Level,
    /// the block can not be read
    Lost,
}
fn rule(cfg: &Config, level: u32, children: &[D]) -> bool {
    let max = if level == 1 { cfg.max_key_branches } else { cfg.max_summary_branches };
    children.iter().all(|c| c.sealed && c.level + 1 == level) && children.len() >= max
}
struct Forge<'a> {
    cfg: Config,
    secrets: Secrets,
    store: MonStore,
    g: gen::ElGen,
    rng: &'a mut gen::Rn,
    offset: u64,
    budget: i32,
}
impl Forge<'_> {
    fn leaf(&mut self) -> D {
        let n = self.rng.gen_range(1..=4);
        self.budget -= 1;
        D { level: 0, sealed: self.rng.gen_bool(0.7), purged: false, els: self.g.els(self.rng, n), children: vec![], bad: None }
    }
    /// `regular`: a full subtree
    fn node(&mut self, level: u32, regular: bool) -> D {
        if level == 0 {
            let mut l = self.leaf();
            l.sealed |= regular;
            return l;
        }
        let max = if level == 1 { self.cfg.max_key_branches } else { self.cfg.max_summary_branches };
        let style = self.rng.gen_range(0..4);
        let n = if regular { max } else { self.rng.gen_range(1..=max + (style == 0) as usize) };
        let mut children = vec![];
        for i in 0..n {
            if self.budget <= 0 && !children.is_empty() {
                break;
            }
            let c = match style {
                _ if regular => self.node(level - 1, true),
                // full ones, and a last one
                1 if i + 1 < n => self.node(level - 1, true),
                2 if i + 1 < n => {
                    let r = self.rng.gen_bool(0.8);
                    self.node(level - 1, r)
                }
                _ => {
                    let l = self.rng.gen_range(0..level);
                    let r = self.rng.gen();
                    self.node(l, r)
                }
            };
            children.push(c);
        }
        let sealed = rule(&self.cfg, level, &children);
        D { level, sealed, purged: false, els: vec![], children, bad: None }
    }
    fn write(&mut self, block: ZstdDagCborSeq, value: bool, purged: bool, lost: bool) -> Res<Option<Lnk>> {
        let key = if value { *self.secrets.value_key() } else { *self.secrets.index_key() };
        let bytes = ok(block.encrypt(&key, chacha20::XNonce::from_slice(TT::NONCE), self.offset), "encrypt")?;
        self.offset += bytes.len() as u64;
        let link = Lnk::digest(&bytes);
        if !purged && !lost {
            self.store.with(|s| s.blocks.insert(link, bytes.into()));
        }
        Ok((!purged).then(|| link))
    }
    fn build(&mut self, d: &D) -> Res<Index<TT>> {
        let lost = d.bad == Some(Bad::Lost);
        if d.level == 0 {
            let mut vals: Vec<Val> = d.els.iter().map(|e| e.v.clone()).collect();
            if d.bad == Some(Bad::Values) {
                if self.rng.gen() {
                    vals.push(Val(vec![1]));
                } else {
                    vals.pop();
                }
            }
            let block = ok(ZstdDagCborSeq::from_iter(vals.iter(), 1), "from_iter")?;
            let link = self.write(block, true, d.purged, lost)?;
            return Ok(LeafIndex { sealed: d.sealed, link, keys: d.els.iter().map(|e| e.k.clone()).collect(), value_bytes: self.rng.gen_range(0..1000) }.into());
        }
        let children = d.children.iter().map(|c| self.build(c)).collect::<Res<Vec<_>>>()?;
        let block = ok(ZstdDagCborSeq::from_iter_ipld(children.iter(), 1), "from_iter_ipld")?;
        let link = self.write(block, false, d.purged, lost)?;
        let mut sums: Vec<Sum> = children.iter().map(|c| c.summarize()).collect();
        let mut level = d.level;
        match d.bad {
            Some(Bad::Summaries) => {
                if sums.len() > 1 && self.rng.gen() {
                    sums.pop();
                } else {
                    sums.push(sums.last().unwrap().clone());
                }
            }
            Some(Bad::Summary) => {
                let s = sums.choose_mut(self.rng).unwrap();
                match self.rng.gen_range(0..4) {
                    0 => s.n += 1,
                    1 => s.lo = s.lo.wrapping_sub(1),
                    2 => s.hi = s.hi.wrapping_add(1),
                    _ => s.m ^= 1 << self.rng.gen_range(0..64),
                }
            }
            Some(Bad::Level) => {
                let top = d.children.iter().map(|c| c.level).max().unwrap();
                level = if d.sealed && (top == 0 || self.rng.gen()) { d.level + self.rng.gen_range(1..3) } else { top };
            }
            _ => {}
        }
        Ok(BranchIndex {
            count: children.iter().map(|c| c.count()).sum(),
            level,
            sealed: d.sealed != (d.bad == Some(Bad::Sealed)),
            link,
            summaries: sums.into_iter().collect(),
            value_bytes: children.iter().map(|c| c.value_bytes()).sum(),
            key_bytes: children.iter().map(|c| c.key_bytes()).sum(),
        }
        .into())
    }
}
impl D {
    fn purge(&mut self, rng: &mut gen::Rn, p: f64) {
        for c in &mut self.children {
            c.purged = rng.gen_bool(p);
            c.purge(rng, p);
        }
    }
    /// nodes below this one that can be read
    fn readable<'a>(&'a mut self, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, u32)>) {
        for (i, c) in self.children.iter_mut().enumerate().filter(|c| !c.1.purged) {
            path.push(i);
            out.push((path.clone(), c.level));
            c.readable(path, out);
            path.pop();
        }
    }
    fn at(&mut self, path: &[usize]) -> &mut D {
        path.iter().fold(self, |d, i| &mut d.children[*i])
    }
    fn elements(&self, lost: bool, out: &mut Vec<Option<(Key, Val)>>) {
        let lost = lost || self.purged;
        out.extend(self.els.iter().map(|e| (!lost).then(|| (e.k.clone(), e.v.clone()))));
        self.children.iter().for_each(|c| c.elements(lost, out));
    }
    /// sealed nodes are packed; in other branches everything but the last child is full and as
    /// high as possible, and the last child is packed
    fn packed(&self, sealed: bool) -> bool {
        match self.children.split_last() {
            Some((last, rest)) if !sealed && !self.purged => rest.iter().all(|c| c.sealed && c.level + 1 == self.level) && last.level < self.level && last.packed(last.sealed),
            _ => true,
        }
    }
    /// the flags of all readable branches below follow from this configuration
    fn flags(&self, cfg: &Config) -> bool {
        self.children.iter().filter(|c| !c.purged && c.level > 0).all(|c| c.sealed == rule(cfg, c.level, &c.children) && c.flags(cfg))
    }
    fn shape(&self, out: &mut String) {
        out.push_str(&format!("{}{}{}", self.level, if self.sealed { "s" } else { "" }, if self.purged { "p" } else { "" }));
        if !self.children.is_empty() {
            out.push('(');
            self.children.iter().for_each(|c| c.shape(out));
            out.push(')');
        }
    }
}
fn case(c: &mut Case) -> Res {
    let mut cfg = gen::config(&mut c.rng);
    cfg.max_key_branches = c.rng.gen_range(2..6);
    cfg.max_summary_branches = c.rng.gen_range(2..6);
    let secrets = gen::secrets(&mut c.rng);
    let store = MonStore::new();
    let g = gen::ElGen::new(&mut c.rng, &cfg);
    let height = c.rng.gen_range(1..=5);
    let budget = *[5, 20, 60].choose(&mut c.rng).unwrap();
    let mut f = Forge { cfg: cfg.clone(), secrets: secrets.clone(), store: store.clone(), g, rng: &mut c.rng, offset: 0, budget };
    let mut root = f.node(height, false);
    // the level of the root follows from its children
    root.level = root.children.iter().map(|x| x.level).max().unwrap() + 1;
    root.sealed = rule(&cfg, root.level, &root.children);
    if f.rng.gen_bool(0.4) {
        let p = *[0.05, 0.3].choose(f.rng).unwrap();
        root.purge(f.rng, p);
    }
    let mut nodes = vec![];
    root.readable(&mut vec![], &mut nodes);
    let mut bad = None;
    if f.rng.gen_bool(0.7) {
        if let Some((path, level)) = nodes.choose(f.rng) {
            let kinds: &[Bad] = if *level == 0 { &[Bad::Values, Bad::Values, Bad::Lost] } else { &[Bad::Summaries, Bad::Summary, Bad::Summary, Bad::Sealed, Bad::Sealed, Bad::Level, Bad::Level, Bad::Lost] };
            let mut b = *kinds.choose(f.rng).unwrap();
            let d = root.at(path);
            if b == Bad::Level && !d.sealed && d.children.iter().all(|c| c.level == 0) {
                // (there is no level below 1 for branches)
                b = Bad::Summary;
            }
            d.bad = Some(b);
            bad = Some((b, path.len()));
        }
    }
    let index = f.build(&root)?;
    let link = index.link().unwrap();
    let forest = forest(&store, cache_size(&mut c.rng));
    let mut shape = String::new();
    root.shape(&mut shape);
    c.desc = format!("{bad:?} in {shape}");
    c.nontrivial = nodes.len() > 3;
    c.saw(&c.desc.clone());
    let other = c.rng.gen_bool(0.2);
    if other {
        cfg.max_key_branches = c.rng.gen_range(2..6);
        cfg.max_summary_branches = c.rng.gen_range(2..6);
    }
    let b: StreamBuilder<TT, Val> = ok(forest.load_stream_builder(secrets.clone(), cfg.clone(), link), "load_stream_builder")?;
    for what in ["check_invariants", "check_invariants again"] {
        let r = forest.check_invariants(&b);
        match bad {
            Some((Bad::Lost, _)) => check!(r.is_err(), "{what}: a block is lost, but the result is {r:?}"),
            None if !other => {
                let m = ok(r, what)?;
                check!(m.is_empty(), "{what} rejects a correct tree: {m:?}");
                c.count("correct", 1);
            }
            None => {
                let m = ok(r, what)?;
                check!(m.is_empty() == root.flags(&cfg), "{what} with other limits reports {m:?}");
                c.count(if m.is_empty() { "correct" } else { "other_limits" }, 1);
            }
            Some((x, depth)) => {
                // (with other limits there may be more)
                let m = ok(r, what)?;
                let hidden = x == Bad::Sealed && other;
                check!(!m.is_empty() || hidden, "{what}: {x:?} {depth} levels below the root is not reported");
                c.count(match x {
                    Bad::Values => "values",
                    Bad::Summaries => "summaries",
                    Bad::Summary => "summary",
                    Bad::Sealed => "sealed",
                    _ => "level",
                }, 1);
                c.max("depth_of_violation", depth as u64);
            }
        }
    }
    if bad.is_none() {
        // shapes that no history leads to can be read, too
        let mut els = vec![];
        root.elements(false, &mut els);
        let t: T = ok(forest.load_tree(secrets, link), "load_tree")?;
        same(&ok(forest.collect(&t), "collect")?, &els, "collect")?;
        let want = expected(&els, &query::Q::All);
        same_triples(&drain(forest.iter_filtered(&t, AllQuery), els.len(), "iter")?, &want, "iter")?;
        let got = ok(forest.is_packed(&t), "is_packed")?;
        check!(got == root.packed(false), "is_packed of the loaded tree is {got}");
        let got = ok(forest.is_packed(&b.snapshot()), "is_packed")?;
        check!(got == root.packed(rule(&cfg, root.level, &root.children)), "is_packed of the stream is {got}");
        c.count(if got { "packed" } else { "not_packed" }, 1);
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("correct", 1000), ("other_limits", 100), ("values", 500), ("summaries", 300), ("summary", 300), ("sealed", 300), ("level", 300), ("packed", 300), ("not_packed", 300)],
        ..Prop::new("C30", "streams whose blocks are written by the harness: random shapes (full, with a ragged end, irregular, purged parts), correct ones and ones in which exactly one readable node violates an invariant (number of values, number of summaries, a summary, sealed flag, level, lost block); check_invariants must report exactly the latter, is_packed is compared with its definition on the known shape, and correct trees with their content; non-trivial: more than three nodes below the root; distinct: shapes and kinds of violation", case)
    });
}
