//! A scripted sequence of snapshots as a stream, with faults and a monitor of its use.
use crate::{sess::T, store::MonStore, types::*};
use futures::stream::Stream;
use parking_lot::Mutex;
use std::{
    pin::Pin,
    sync::Arc,
    task::{Context, Poll},
};

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the n-th read from now fails
    Nth(u64),
    /// nothing can be read
    Down,
    /// these blocks are not there
    Hidden(Vec<Lnk>),
}
#[derive(Clone)]
pub struct Snap {
    pub tree: T,
    pub model: Arc<Vec<Option<(Key, Val)>>>,
    pub fault: Fault,
    /// how often the source is pending before the snapshot is there
    pub pending: u32,
}
#[derive(Default, Debug)]
pub struct Seen {
    /// index of the snapshot that is being processed
    pub cur: Option<usize>,
    /// did a fault fire while snapshot i was processed
    pub fired: Vec<bool>,
    /// number of items that had been delivered when snapshot i was handed out
    pub at: Vec<usize>,
    pub delivered: usize,
    pub exhausted: bool,
    pub polls: usize,
}
pub struct Source {
    snaps: Vec<Snap>,
    next: usize,
    wait: u32,
    store: MonStore,
    injected: u64,
    pub seen: Arc<Mutex<Seen>>,
}
impl Source {
    pub fn new(snaps: Vec<Snap>, store: MonStore) -> Source {
        Source {
            wait: snaps.first().map(|s| s.pending).unwrap_or(0),
            snaps,
            next: 0,
            store,
            injected: 0,
            seen: Default::default(),
        }
    }
    /// the previous snapshot is done
    fn finish(&mut self) {
        let inj = self.store.with(|st| st.injected);
        self.store.heal();
        if self.next > 0 {
            let mut s = self.seen.lock();
            if s.fired.len() < self.next {
                s.fired.push(inj > self.injected);
            }
        }
    }
}
impl Stream for Source {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> {
        let me = self.get_mut();
        me.seen.lock().polls += 1;
        me.finish();
        if me.next >= me.snaps.len() {
            me.seen.lock().exhausted = true;
            return Poll::Ready(None);
        }
        if me.wait > 0 {
            me.wait -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let s = &me.snaps[me.next];
        me.injected = me.store.with(|st| {
            match &s.fault {
                Fault::None => {}
                Fault::Nth(n) => st.get_fault = Some(*n),
                Fault::Down => st.down = true,
                Fault::Hidden(l) => st.hidden.extend(l.iter().copied()),
            }
            st.injected
        });
        {
            let mut seen = me.seen.lock();
            seen.cur = Some(me.next);
            let d = seen.delivered;
            seen.at.push(d);
        }
        let t = s.tree.clone();
        me.next += 1;
        me.wait = me.snaps.get(me.next).map(|s| s.pending).unwrap_or(0);
        Poll::Ready(Some(t))
    }
}

use crate::{
    gen::Rn,
    sess::{Op, Res, Sess, Weights},
};
use rand::{seq::SliceRandom, Rng};
/// run a history and take snapshots of it. `faulty`: reads of a snapshot may fail
pub fn snaps(rng: &mut Rn, s: &mut Sess, w: &Weights, faulty: bool) -> Res<Vec<Snap>> {
    let mut r: Vec<Snap> = vec![];
    for _ in 0..rng.gen_range(1..=7) {
        for _ in 0..rng.gen_range(0..=3) {
            let op = s.op(rng, w);
            s.must(&op)?;
            if matches!(op, Op::Retain(_)) {
                s.sync_absent()?;
            }
        }
        let tree = match rng.gen_range(0..10) {
            // loaded from the root by somebody else
            0 | 1 if s.can_reload() => s
                .txn
                .load_tree(s.secrets.clone(), s.b.link().unwrap())
                .map_err(|e| crate::Fail(format!("load_tree: {e:#}")))?,
            2 if rng.gen_bool(0.3) => {
                r.push(Snap {
                    tree: T::default(),
                    model: Arc::new(vec![]),
                    fault: Fault::None,
                    pending: rng.gen_range(0..2),
                });
                s.tree()
            }
            _ => s.tree(),
        };
        let links: Vec<Lnk> = match s.walk()? {
            Some(n) => n.nodes().iter().filter_map(|n| n.m.link).collect(),
            None => vec![],
        };
        for _ in 0..if rng.gen_bool(0.2) { 2 } else { 1 } {
            let fault = if faulty && rng.gen_bool(0.45) {
                match rng.gen_range(0..4) {
                    0 => Fault::Down,
                    1 => Fault::Hidden(links.choose_multiple(rng, 2).copied().collect()),
                    _ => Fault::Nth(rng.gen_range(0..8)),
                }
            } else {
                Fault::None
            };
            r.push(Snap {
                tree: tree.clone(),
                model: Arc::new(s.model.clone()),
                fault,
                pending: if rng.gen_bool(0.2) { rng.gen_range(1..4) } else { 0 },
            });
        }
    }
    Ok(r)
}
