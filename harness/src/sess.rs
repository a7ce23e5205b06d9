//! A session: one stream, its monitored store, and the reference model of its content.
use crate::{
    gen::{self, ElGen, Rn},
    query::Q,
    store::MonStore,
    types::*,
    walk::{self, Memo, Meta, Node},
};
use banyan::{
    store::{BlockWriter, BranchCache, ReadOnlyStore},
    Config, Forest, Secrets, StreamBuilder, Transaction, Tree,
};
use rand::{seq::SliceRandom, Rng};

pub type Txn = Transaction<TT, MonStore, MonStore>;
pub type Builder = StreamBuilder<TT, Val>;
pub type T = Tree<TT, Val>;
pub type F = Forest<TT, MonStore>;

/// a violation (or another reason why a case can not continue)
#[derive(Debug, Clone)]
pub struct Fail(pub String);
pub type Res<T = ()> = Result<T, Fail>;
impl From<String> for Fail {
    fn from(x: String) -> Self {
        Fail(x)
    }
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::sess::Fail(format!($($a)*))) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::sess::Fail(format!($($a)*))) } };
}

#[derive(Clone, Debug)]
pub enum Op {
    Extend(Vec<El>),
    Push(El),
    Unpacked(Vec<El>),
    Pack,
    Retain(Q),
    Repair,
    Reload,
    /// extend from an iterator that reads another tree of the same forest
    ExtendFrom(u64, Vec<El>),
}
impl Op {
    pub fn name(&self) -> String {
        match self {
            Op::Extend(e) => format!("extend({})", e.len()),
            Op::Push(_) => "push".into(),
            Op::Unpacked(e) => format!("extend_unpacked({})", e.len()),
            Op::Pack => "pack".into(),
            Op::Retain(q) => format!("retain({q:?})"),
            Op::Repair => "repair".into(),
            Op::Reload => "reload".into(),
            Op::ExtendFrom(o, e) => format!("extend_from(self[{o}..],{})", e.len()),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Extend(_) => "extend",
            Op::Push(_) => "push",
            Op::Unpacked(_) => "extend_unpacked",
            Op::Pack => "pack",
            Op::Retain(_) => "retain",
            Op::Repair => "repair",
            Op::Reload => "reload",
            Op::ExtendFrom(..) => "extend_from",
        }
    }
}

/// how often each kind of operation is chosen
#[derive(Clone, Copy, Debug)]
pub struct Weights {
    pub extend: u32,
    pub push: u32,
    pub unpacked: u32,
    pub pack: u32,
    pub retain: u32,
    pub repair: u32,
    pub reload: u32,
    pub from: u32,
}
impl Weights {
    pub const APPEND: Weights = Weights {
        extend: 8,
        push: 4,
        unpacked: 6,
        pack: 0,
        retain: 0,
        repair: 0,
        reload: 2,
        from: 1,
    };
    pub const ALL: Weights = Weights {
        extend: 8,
        push: 3,
        unpacked: 6,
        pack: 3,
        retain: 2,
        repair: 1,
        reload: 2,
        from: 1,
    };
    pub const NO_RETAIN: Weights = Weights {
        retain: 0,
        repair: 1,
        ..Weights::ALL
    };
}

pub struct Sess {
    pub store: MonStore,
    pub txn: Txn,
    pub b: Builder,
    pub model: Vec<Option<(Key, Val)>>,
    pub cfg: Config,
    pub secrets: Secrets,
    pub gen: ElGen,
    pub memo: Memo,
    pub history: Vec<String>,
    pub cache: usize,
    /// expected number of elements of a case
    pub scale: usize,
}
pub fn forest(store: &MonStore, cache: usize) -> F {
    Forest::new(store.clone(), BranchCache::new(cache))
}
pub fn txn(store: &MonStore, cache: usize) -> Txn {
    Transaction::new(forest(store, cache), store.clone())
}
pub fn cache_size(rng: &mut Rn) -> usize {
    *[0, 1, 700, 5000, 1 << 20, 64 << 20].choose(rng).unwrap()
}
impl Sess {
    pub fn new(rng: &mut Rn) -> Sess {
        let cfg = gen::config(rng);
        Self::with(rng, cfg)
    }
    pub fn with(rng: &mut Rn, cfg: Config) -> Sess {
        let secrets = gen::own_secrets(rng);
        let cache = cache_size(rng);
        Self::with_store(rng, cfg, secrets, MonStore::new(), cache)
    }
    pub fn with_store(
        rng: &mut Rn,
        cfg: Config,
        secrets: Secrets,
        store: MonStore,
        cache: usize,
    ) -> Sess {
        let gen = ElGen::new(rng, &cfg);
        let mut scale = *[8, 20, 40, 80, 160].choose(rng).unwrap();
        if cfg.zstd_level > 3 {
            // the encoder clears its (large) tables for each block
            scale = scale.min(if cfg.zstd_level > 8 { 8 } else { 40 });
        }
        Sess {
            txn: txn(&store, cache),
            b: StreamBuilder::new(cfg.clone(), secrets.clone()),
            store,
            model: vec![],
            gen,
            cfg,
            secrets,
            memo: Memo::default(),
            history: vec![],
            cache,
            scale,
        }
    }
    /// big incompressible values: the compressor writes while a leaf is being filled
    pub fn noisy(&mut self, rng: &mut Rn) {
        self.cfg.max_uncompressed_leaf_size = 4 << 20;
        self.cfg.target_leaf_size = *[100, 10_000, 150_000, 400_000].choose(rng).unwrap();
        self.cfg.max_leaf_count = *[3, 10, 100].choose(rng).unwrap();
        self.cfg.zstd_level = rng.gen_range(1..=3);
        self.gen.noise = *[30_000, 150_000, 300_000].choose(rng).unwrap();
        self.gen.max_value = 4 << 20;
        self.gen.typ_value = 12;
        self.scale = 8;
        self.b = StreamBuilder::new(self.cfg.clone(), self.secrets.clone());
    }
    pub fn tree(&self) -> T {
        self.b.snapshot()
    }
    pub fn n(&self) -> u64 {
        self.model.len() as u64
    }
    pub fn count_els(&mut self, rng: &mut Rn) -> usize {
        let s = self.scale;
        match rng.gen_range(0..10) {
            0 => 0,
            1..=3 => 1,
            4..=6 => rng.gen_range(1..=4),
            7..=8 => rng.gen_range(1..=s / 3 + 1),
            _ => rng.gen_range(1..=s),
        }
    }
    pub fn op(&mut self, rng: &mut Rn, w: &Weights) -> Op {
        let tot =
            w.extend + w.push + w.unpacked + w.pack + w.retain + w.repair + w.reload + w.from;
        let mut x = rng.gen_range(0..tot);
        let n = self.count_els(rng);
        let mut pick = |w: u32| {
            if x < w {
                x = u32::MAX;
                true
            } else {
                if x != u32::MAX {
                    x -= w;
                }
                false
            }
        };
        if pick(w.extend) {
            Op::Extend(self.gen.els(rng, n))
        } else if pick(w.push) {
            Op::Push(self.gen.el(rng))
        } else if pick(w.unpacked) {
            Op::Unpacked(self.gen.els(rng, n))
        } else if pick(w.pack) {
            Op::Pack
        } else if pick(w.retain) {
            Op::Retain(Q::gen(rng, self.n(), self.gen.bucket, 2))
        } else if pick(w.repair) {
            Op::Repair
        } else if pick(w.reload) {
            Op::Reload
        } else {
            let o = rng.gen_range(0..=self.n());
            let n = (self.n() - o).min(n as u64);
            // keys are renewed, values are taken from the stream itself
            let mut els = vec![];
            for i in 0..n {
                if let Some((_, v)) = self.model[(o + i) as usize].clone() {
                    els.push(El {
                        k: self.gen.key(rng),
                        v,
                    });
                }
            }
            Op::ExtendFrom(o, els)
        }
    }
    /// run the operation. On success the model is updated for appends; retain and repair
    /// leave the model alone (see `sync_absent`).
    pub fn apply(&mut self, op: &Op) -> anyhow::Result<()> {
        self.history.push(op.name());
        if let Op::Reload = op {
            return self.reload();
        }
        if exec(&mut self.txn, &mut self.b, op)? {
            self.applied(op);
        }
        Ok(())
    }
    /// the operation succeeded
    pub fn applied(&mut self, op: &Op) {
        match op {
            Op::Extend(e) | Op::Unpacked(e) | Op::ExtendFrom(_, e) => self.appended(e),
            Op::Push(e) => self.appended(std::slice::from_ref(e)),
            _ => {}
        }
    }
    fn appended(&mut self, e: &[El]) {
        self.model
            .extend(e.iter().map(|e| Some((e.k.clone(), e.v.clone()))));
    }
    /// load the builder again from its root (possible for branch roots only)
    pub fn can_reload(&self) -> bool {
        self.b.level() > 0 && self.b.link().is_some()
    }
    pub fn reload(&mut self) -> anyhow::Result<()> {
        if self.can_reload() {
            let link = self.b.link().unwrap();
            self.b =
                self.txn
                    .load_stream_builder(self.secrets.clone(), self.cfg.clone(), link)?;
        }
        Ok(())
    }
    /// As if the stream had a long history: the root is encrypted again, at an offset far
    /// away, by the harness, and the stream goes on from there.
    /// Returns the range that is now in use.
    pub fn relocate(&mut self, rng: &mut Rn) -> Res<Option<(Lnk, std::ops::Range<u64>)>> {
        if !self.can_reload() {
            return Ok(None);
        }
        let raw = self.store.raw(&self.b.link().unwrap()).ok_or_else(|| Fail("the root is not in the store".into()))?;
        let env = walk::envelope(&raw)?;
        let key = *self.secrets.index_key();
        let plain = walk::xor(&key, <TT as banyan::TreeTypes>::NONCE, env.offset, &env.blob);
        let end = env.offset + env.blob.len() as u64;
        let near = rng.gen_range(0..2000);
        let to = match rng.gen_range(0..6) {
            0 => end + near,
            1 => (1 << 31) - near,
            2 => (1 << 32) - near,
            3 => (1u64 << rng.gen_range(32..60)) + near,
            // the block counter of ChaCha20 has 32 bits
            4 => (1 << 38) - near,
            _ => rng.gen_range(end..1 << 62),
        }
        .max(end);
        let mut block = vec![];
        gen::head(4, 3, &mut block);
        gen::head(0, to, &mut block);
        gen::head(4, env.links.len() as u64, &mut block);
        for l in &env.links {
            gen::link(l, &mut block);
        }
        gen::bytes(&walk::xor(&key, <TT as banyan::TreeTypes>::NONCE, to, &plain), &mut block);
        let link = Lnk::digest(&block);
        self.store.with(|st| st.blocks.insert(link, block.into()));
        self.history.push(format!("continue at {to}"));
        self.b = match self.txn.load_stream_builder(self.secrets.clone(), self.cfg.clone(), link) {
            Ok(b) => b,
            Err(e) => fail!("a root at the offset {to} can not be loaded: {e:#}"),
        };
        Ok(Some((link, to..to + plain.len() as u64)))
    }
    pub fn root_meta(&self) -> Option<Meta> {
        self.b.index().map(Meta::of)
    }
    pub fn walk(&mut self) -> Res<Option<Node>> {
        match self.root_meta() {
            None => Ok(None),
            Some(m) => Ok(Some(walk::walk(
                &self.store,
                &m,
                &self.secrets,
                &mut self.memo,
            )?)),
        }
    }
    /// after retain/repair: mark what is absent according to the blocks in the store
    pub fn sync_absent(&mut self) -> Res {
        let w = self.walk()?;
        let els = w.map(|w| w.elements()).unwrap_or_default();
        check!(
            els.len() == self.model.len(),
            "tree has {} elements, expected {}",
            els.len(),
            self.model.len()
        );
        for (m, e) in self.model.iter_mut().zip(els) {
            if e.is_none() {
                *m = None;
            }
        }
        Ok(())
    }
    pub fn must(&mut self, op: &Op) -> Res {
        match self.apply(op) {
            Ok(()) => Ok(()),
            Err(c) => fail!("{} failed: {:#}", op.name(), c),
        }
    }
    /// a random history; everything must succeed
    pub fn run(&mut self, rng: &mut Rn, w: &Weights, ops: usize) -> Res {
        for _ in 0..ops {
            let op = self.op(rng, w);
            self.must(&op)?;
            if matches!(op, Op::Retain(_) | Op::Repair) {
                self.sync_absent()?;
            }
        }
        Ok(())
    }
    pub fn describe(&self) -> String {
        format!(
            "cfg[leaf={} kb={} sb={} target={} max={} z={}] cache={} ops={}",
            self.cfg.max_leaf_count,
            self.cfg.max_key_branches,
            self.cfg.max_summary_branches,
            self.cfg.target_leaf_size,
            self.cfg.max_uncompressed_leaf_size,
            self.cfg.zstd_level,
            self.cache,
            self.history.join(";")
        )
    }
}

/// run an operation on a builder (Reload is not possible here)
pub fn exec<R: ReadOnlyStore<Lnk>, W: BlockWriter<Lnk>>(
    txn: &mut Transaction<TT, R, W>,
    b: &mut Builder,
    op: &Op,
) -> anyhow::Result<bool> {
    match op {
        Op::Extend(e) => txn.extend(b, e.iter().map(|e| (e.k.clone(), e.v.clone())))?,
        Op::Push(e) => txn.push(b, e.k.clone(), e.v.clone())?,
        Op::Unpacked(e) => txn.extend_unpacked(b, e.iter().map(|e| (e.k.clone(), e.v.clone())))?,
        Op::ExtendFrom(o, e) => {
            let tree = b.snapshot();
            let q = banyan::query::OffsetRangeQuery::from(*o..);
            let mut n = 0;
            for r in txn.iter_filtered(&tree, q).take(e.len()) {
                r?;
                n += 1;
            }
            if n != e.len() {
                return Ok(false);
            }
            // read lazily while extending
            let keys: Vec<Key> = e.iter().map(|e| e.k.clone()).collect();
            let q = banyan::query::OffsetRangeQuery::from(*o..);
            let it = txn
                .iter_filtered(&tree, q)
                .take(e.len())
                .zip(keys)
                .map(|(r, k)| (k, r.expect("source of extend can not be read").2));
            txn.extend(b, it)?
        }
        Op::Pack => txn.pack(b)?,
        Op::Retain(q) => txn.retain(b, &q.build())?,
        Op::Repair => {
            txn.repair(b)?;
        }
        Op::Reload => panic!("reload is not possible here"),
    }
    Ok(true)
}
/// build a stream with a random history and return it
pub fn random_stream(rng: &mut Rn, w: &Weights) -> Res<Sess> {
    let mut s = Sess::new(rng);
    let n = rng.gen_range(1..=12);
    s.run(rng, w, n)?;
    Ok(s)
}

fn brief(x: &Option<(Key, Val)>) -> String {
    match x {
        None => "absent".into(),
        Some((k, v)) => format!("(id={} {:?})", k.id, v),
    }
}
pub fn same(got: &[Option<(Key, Val)>], want: &[Option<(Key, Val)>], what: &str) -> Res {
    for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        check!(g == w, "{what}: element {i} is {} instead of {}", brief(g), brief(w));
    }
    check!(
        got.len() == want.len(),
        "{what}: {} elements instead of {}",
        got.len(),
        want.len()
    );
    Ok(())
}
pub type Triple = (u64, Key, Val);
pub fn same_triples(got: &[Triple], want: &[Triple], what: &str) -> Res {
    for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        check!(
            g == w,
            "{what}: item {i} is ({}, id={}, {:?}) instead of ({}, id={}, {:?})",
            g.0,
            g.1.id,
            g.2,
            w.0,
            w.1.id,
            w.2
        );
    }
    check!(
        got.len() == want.len(),
        "{what}: {} items instead of {}",
        got.len(),
        want.len()
    );
    Ok(())
}
/// the expected result of a filtered read
pub fn expected(model: &[Option<(Key, Val)>], q: &Q) -> Vec<Triple> {
    model
        .iter()
        .enumerate()
        .filter_map(|(o, e)| e.as_ref().map(|(k, v)| (o as u64, k.clone(), v.clone())))
        .filter(|(o, k, _)| q.has(*o, k))
        .collect()
}
pub fn ok<T>(r: anyhow::Result<T>, what: &str) -> Res<T> {
    r.map_err(|c| Fail(format!("{what}: unexpected error {c:#}")))
}
/// collect an iterator of results; must not produce more than `max` items
pub fn drain<I: Iterator<Item = anyhow::Result<X>>, X>(it: I, max: usize, what: &str) -> Res<Vec<X>> {
    let mut r = Vec::new();
    for x in it {
        r.push(ok(x, what)?);
        check!(r.len() <= max, "{what}: more than {max} items");
    }
    Ok(r)
}
/// collect a stream by polling; returns an error if it stays pending forever
pub fn drain_stream<S: futures::Stream<Item = anyhow::Result<X>>, X>(
    s: S,
    max: usize,
    what: &str,
) -> Res<Vec<X>> {
    futures::pin_mut!(s);
    drain(futures::executor::block_on_stream(s), max, what)
}
