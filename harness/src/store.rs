//! MonStore: the monitored content-addressed store. It logs every access, injects faults,
//! and bounds the number of operations of a case (a logical non-termination monitor).
use crate::types::Lnk;
use banyan::store::{BlockWriter, ReadOnlyStore};
use parking_lot::Mutex;
use std::{
    collections::{HashMap, HashSet},
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc,
    },
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    Put { link: Lnk, len: usize, stored: bool },
    Get { link: Lnk, ok: bool },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PutFault {
    /// the block does not reach the store
    Lost,
    /// the block reaches the store, but the caller sees an error
    StoredButError,
}
#[derive(Default)]
pub struct St {
    pub blocks: HashMap<Lnk, Arc<[u8]>>,
    pub log: Vec<Ev>,
    pub hidden: HashSet<Lnk>,
    pub corrupt: HashMap<Lnk, Vec<u8>>,
    /// fail the n-th put from now (0 = next)
    pub put_fault: Option<(u64, PutFault)>,
    /// fail the n-th get from now
    pub get_fault: Option<u64>,
    /// fail all gets / puts
    pub down: bool,
    pub injected: u64,
    /// blocks that were handed to the writer but did not reach the store
    pub lost: HashMap<Lnk, Vec<u8>>,
}
pub struct Mon {
    pub st: Mutex<St>,
    pub gets: AtomicU64,
    pub puts: AtomicU64,
    pub budget: AtomicU64,
    delay: Mutex<Option<Arc<dyn Fn(bool, u64) + Send + Sync>>>,
    has_delay: std::sync::atomic::AtomicBool,
}
#[derive(Clone)]
pub struct MonStore(pub Arc<Mon>);
pub const BUDGET_MSG: &str = "store operation budget exhausted: the operation does not terminate";

impl Default for MonStore {
    fn default() -> Self {
        Self::new()
    }
}
impl MonStore {
    pub fn new() -> Self {
        MonStore(Arc::new(Mon {
            st: Default::default(),
            gets: 0.into(),
            puts: 0.into(),
            budget: 3_000_000.into(),
            delay: Mutex::new(None),
            has_delay: false.into(),
        }))
    }
    pub fn set_delay(&self, f: Option<Arc<dyn Fn(bool, u64) + Send + Sync>>) {
        self.0.has_delay.store(f.is_some(), SeqCst);
        *self.0.delay.lock() = f;
    }
    /// a copy of all blocks, with a fresh log
    pub fn fork(&self) -> Self {
        let r = Self::new();
        r.0.st.lock().blocks = self.0.st.lock().blocks.clone();
        r
    }
    pub fn raw(&self, l: &Lnk) -> Option<Arc<[u8]>> {
        self.0.st.lock().blocks.get(l).cloned()
    }
    pub fn len(&self) -> usize {
        self.0.st.lock().blocks.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn mark(&self) -> usize {
        self.0.st.lock().log.len()
    }
    pub fn since(&self, m: usize) -> Vec<Ev> {
        self.0.st.lock().log[m..].to_vec()
    }
    pub fn puts_since(&self, m: usize) -> Vec<Lnk> {
        self.0.st.lock().log[m..]
            .iter()
            .filter_map(|e| match e {
                Ev::Put { link, .. } => Some(*link),
                _ => None,
            })
            .collect()
    }
    pub fn gets_since(&self, m: usize) -> Vec<Lnk> {
        self.0.st.lock().log[m..]
            .iter()
            .filter_map(|e| match e {
                Ev::Get { link, .. } => Some(*link),
                _ => None,
            })
            .collect()
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut St) -> T) -> T {
        f(&mut self.0.st.lock())
    }
    pub fn heal(&self) {
        self.with(|s| {
            s.hidden.clear();
            s.corrupt.clear();
            s.put_fault = None;
            s.get_fault = None;
            s.down = false;
        })
    }
    pub fn ops(&self) -> u64 {
        self.0.gets.load(SeqCst) + self.0.puts.load(SeqCst)
    }
    fn step(&self, put: bool) {
        let n = if put { &self.0.puts } else { &self.0.gets }.fetch_add(1, SeqCst);
        if self.ops() > self.0.budget.load(SeqCst) {
            panic!("{}", BUDGET_MSG);
        }
        if self.0.has_delay.load(SeqCst) {
            let f = self.0.delay.lock().clone();
            if let Some(f) = f {
                f(put, n);
            }
        }
    }
}
impl ReadOnlyStore<Lnk> for MonStore {
    fn get(&self, link: &Lnk) -> anyhow::Result<Box<[u8]>> {
        self.step(false);
        let mut s = self.0.st.lock();
        let mut fail = s.down || s.hidden.contains(link);
        if let Some(n) = s.get_fault {
            if n == 0 {
                s.get_fault = None;
                fail = true;
            } else {
                s.get_fault = Some(n - 1);
            }
        }
        let r = if fail {
            s.injected += 1;
            None
        } else if let Some(c) = s.corrupt.get(link) {
            Some(c.clone().into_boxed_slice())
        } else {
            s.blocks.get(link).map(|x| x.to_vec().into_boxed_slice())
        };
        s.log.push(Ev::Get {
            link: *link,
            ok: r.is_some(),
        });
        r.ok_or_else(|| anyhow::anyhow!("monstore: block {} is not available", link))
    }
}
impl BlockWriter<Lnk> for MonStore {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Lnk> {
        self.step(true);
        let link = Lnk::digest(&data);
        let mut s = self.0.st.lock();
        let mut fault = if s.down { Some(PutFault::Lost) } else { None };
        if let Some((n, f)) = s.put_fault {
            if n == 0 {
                s.put_fault = None;
                fault = Some(f);
            } else {
                s.put_fault = Some((n - 1, f));
            }
        }
        let stored = fault != Some(PutFault::Lost);
        let len = data.len();
        // the log also keeps blocks that did not reach the store
        s.log.push(Ev::Put { link, len, stored });
        if fault.is_some() {
            s.injected += 1;
        }
        if stored {
            s.blocks.insert(link, data.into());
        } else {
            s.lost.insert(link, data);
        }
        match fault {
            None => Ok(link),
            Some(_) => Err(anyhow::anyhow!("monstore: injected write failure")),
        }
    }
}
