//! Generated async programs, run as the users of the crate write theirs: async blocks, the
//! combinators of `futures`, several tasks on an executor. What happens is logged, and judged by
//! the driver.

use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

use futures::future::{poll_fn, select, select_all, Either, FutureExt, LocalBoxFuture};
use futures::stream::{FuturesUnordered, StreamExt};
use futures::task::{waker, ArcWake};
use serde_json::Value;
use wasm_bindgen::prelude::*;
use wasmtimer::std::Instant;
use wasmtimer::tokio as wt;
use wasmtimer::tokio_util::{delay_queue::Expired, DelayQueue};

use crate::{dur, rel};

#[wasm_bindgen]
extern "C" {
    /// The executor has something to do.
    #[wasm_bindgen(js_name = __vh_ready)]
    fn vh_ready();
    /// The program computes for so long.
    #[wasm_bindgen(js_name = __vh_block)]
    fn vh_block(us: f64);
}

// ---------------------------------------------------------------- the executor

struct Task {
    fut: RefCell<Option<LocalBoxFuture<'static, ()>>>,
    aborted: Cell<bool>,
    queued: Cell<bool>,
}
struct Ex {
    tasks: RefCell<Vec<Rc<Task>>>,
    queue: RefCell<Vec<u32>>,
    /// 0: tasks run later, 1: tasks run from within their waker
    mode: Cell<u32>,
    depth: Cell<u32>,
    asked: Cell<bool>,
    log: RefCell<Vec<i64>>,
    next: Cell<i64>,
    /// sleeps that are done, but not dropped
    kept: RefCell<Vec<Pin<Box<wt::Sleep>>>>,
}
thread_local! {
    static EX: Rc<Ex> = Rc::new(Ex {
        tasks: RefCell::default(), queue: RefCell::default(), mode: Cell::new(0), depth: Cell::new(0),
        asked: Cell::new(false), log: RefCell::default(), next: Cell::new(0), kept: RefCell::default(),
    });
}
fn ex() -> Rc<Ex> {
    EX.with(|e| e.clone())
}
struct Wk(u32);
impl ArcWake for Wk {
    fn wake_by_ref(w: &Arc<Self>) {
        let e = ex();
        let t = e.tasks.borrow()[w.0 as usize].clone();
        if t.queued.replace(true) {
            return;
        }
        // a task that runs at the moment, or too deep a stack, is left for later
        if e.mode.get() == 1 && e.depth.get() < 6 && t.fut.try_borrow_mut().is_ok() {
            e.run(w.0);
        } else {
            e.queue.borrow_mut().push(w.0);
            if !e.asked.replace(true) {
                vh_ready();
            }
        }
    }
}
impl Ex {
    fn run(&self, id: u32) {
        let t = self.tasks.borrow()[id as usize].clone();
        t.queued.set(false);
        let w = waker(Arc::new(Wk(id)));
        self.depth.set(self.depth.get() + 1);
        if let Ok(mut slot) = t.fut.try_borrow_mut() {
            if let Some(f) = slot.as_mut() {
                if f.as_mut().poll(&mut Context::from_waker(&w)).is_ready() || t.aborted.get() {
                    let f = slot.take();
                    drop(slot);
                    drop(f);
                    self.log(9, id as i64, 0, 0);
                }
            }
        }
        self.depth.set(self.depth.get() - 1);
    }
    fn spawn(&self, f: LocalBoxFuture<'static, ()>) -> u32 {
        let id = self.tasks.borrow().len() as u32;
        self.tasks.borrow_mut().push(Rc::new(Task {
            fut: RefCell::new(Some(f)),
            aborted: Cell::new(false),
            queued: Cell::new(false),
        }));
        waker(Arc::new(Wk(id))).wake();
        id
    }
    /// Drops a task; one that runs at the moment is dropped when it is done with that.
    fn abort(&self, id: u32) {
        let t = self.tasks.borrow()[id as usize].clone();
        t.aborted.set(true);
        if let Ok(mut slot) = t.fut.try_borrow_mut() {
            let f = slot.take();
            drop(slot);
            drop(f);
        };
    }
    fn log(&self, kind: i64, inst: i64, x: i64, y: i64) {
        let now = rel(Instant::now());
        self.log.borrow_mut().extend([kind, inst, now, x, y]);
    }
}
#[wasm_bindgen]
pub fn ex_mode(mode: u32) {
    ex().mode.set(mode)
}
/// Starts a task; programs are JSON.
#[wasm_bindgen]
pub fn ex_spawn(prog: &str) -> u32 {
    let v: Value = serde_json::from_str(prog).expect("harness: program");
    ex().spawn(exec(Rc::new(v), -1))
}
/// Runs what is ready, once.
#[wasm_bindgen]
pub fn ex_run() {
    let e = ex();
    e.asked.set(false);
    let q = std::mem::take(&mut *e.queue.borrow_mut());
    for id in q {
        e.run(id)
    }
}
#[wasm_bindgen]
pub fn ex_log() -> Vec<i64> {
    std::mem::take(&mut *ex().log.borrow_mut())
}

// ---------------------------------------------------------------- the programs

/// One execution of a node of a program.
struct Run {
    inst: i64,
    done: Cell<bool>,
}
impl Run {
    fn start(id: i64, parent: i64) -> Run {
        let e = ex();
        let inst = e.next.replace(e.next.get() + 1);
        e.log(0, inst, id, parent);
        Run {
            inst,
            done: Cell::new(false),
        }
    }
    fn end(&self, x: i64) {
        self.done.set(true);
        ex().log(1, self.inst, x, 0)
    }
    fn log(&self, kind: i64, x: i64, y: i64) {
        ex().log(kind, self.inst, x, y)
    }
}
impl Drop for Run {
    fn drop(&mut self) {
        if !self.done.get() {
            ex().log(2, self.inst, 0, 0)
        }
    }
}

struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

fn node(v: &Value, i: usize) -> Rc<Value> {
    Rc::new(v[i].clone())
}
fn nodes(v: &Value, parent: i64) -> Vec<LocalBoxFuture<'static, ()>> {
    v.as_array()
        .expect("harness: program")
        .iter()
        .map(|c| exec(Rc::new(c.clone()), parent))
        .collect()
}

/// Reads the entries of a queue, and does what it is told to do with it, until nobody is there to
/// tell and the queue is empty.
async fn own(r: &Run, mut rx: futures::channel::mpsc::UnboundedReceiver<(i64, i64, u64)>) {
    enum What {
        Told((i64, i64, u64)),
        Due(Expired<i64>),
        End,
    }
    let mut q = DelayQueue::new();
    let mut keys = std::collections::HashMap::new();
    let mut open = true;
    loop {
        r.log(7, 0, 0);
        let what = poll_fn(|cx| {
            if open {
                match rx.poll_next_unpin(cx) {
                    Poll::Ready(Some(c)) => return Poll::Ready(What::Told(c)),
                    Poll::Ready(None) => open = false,
                    Poll::Pending => {}
                }
            }
            match q.poll_expired(cx) {
                Poll::Ready(Some(e)) => Poll::Ready(What::Due(e)),
                Poll::Ready(None) if !open => Poll::Ready(What::End),
                _ => Poll::Pending,
            }
        })
        .await;
        match what {
            What::Told((op, k, d)) => {
                // what is not in the queue is inserted, the rest is reset or removed
                if let Some(key) = keys.get(&k) {
                    if op == 0 {
                        q.reset(key, dur(d))
                    } else {
                        let e = q.remove(key);
                        assert_eq!(e.into_inner(), k, "the removed entry");
                        keys.remove(&k);
                    }
                } else {
                    keys.insert(k, q.insert(k, dur(d)));
                }
                // what is there is counted
                assert_eq!(q.len(), keys.len(), "length of the queue");
                r.log(8, k, if keys.contains_key(&k) { d as i64 } else { -1 });
            }
            What::Due(e) => {
                keys.remove(e.get_ref()).expect("an entry that came twice");
                r.log(5, rel(e.deadline()), *e.get_ref());
            }
            What::End => break,
        }
    }
}

fn exec(v: Rc<Value>, parent: i64) -> LocalBoxFuture<'static, ()> {
    async move {
        let n = |i: usize| v[i].as_i64().expect("harness: program");
        let ns = |i: usize| dur(n(i) as u64);
        let r = Run::start(n(1), parent);
        let mut out = 0;
        match v[0].as_str().expect("harness: program") {
            "sleep" => wt::sleep(ns(2)).await,
            "until" => wt::sleep_until(Instant::now() + ns(2)).await,
            // waits for a while at most, then the rest of the sleep is set anew
            "reset" => {
                let mut s = Box::pin(wt::sleep(ns(2)));
                if wt::timeout(ns(3), s.as_mut()).await.is_err() {
                    out = 1;
                }
                s.as_mut().reset(Instant::now() + ns(4));
                r.log(3, out, 0);
                s.await;
            }
            "seq" => {
                for c in v[2].as_array().expect("harness: program") {
                    exec(Rc::new(c.clone()), r.inst).await
                }
            }
            "join" => {
                let mut all: FuturesUnordered<_> = nodes(&v[2], r.inst).into_iter().collect();
                while all.next().await.is_some() {}
            }
            "joinall" => {
                futures::future::join_all(nodes(&v[2], r.inst)).await;
            }
            "race" => out = select_all(nodes(&v[2], r.inst)).await.1 as i64,
            "timeout" => out = wt::timeout(ns(2), exec(node(&v, 3), r.inst)).await.is_ok() as i64,
            "timeoutat" => {
                out = wt::timeout_at(Instant::now() + ns(2), exec(node(&v, 3), r.inst))
                    .await
                    .is_ok() as i64
            }
            // period, ticks, behaviour, body
            "interval" => {
                let mut iv = wt::interval(ns(2));
                iv.set_missed_tick_behavior(match n(4) {
                    0 => wt::MissedTickBehavior::Burst,
                    1 => wt::MissedTickBehavior::Delay,
                    _ => wt::MissedTickBehavior::Skip,
                });
                for k in 0..n(3) {
                    r.log(7, k, 0);
                    let t = iv.tick().await;
                    r.log(4, rel(t), k);
                    exec(node(&v, 5), r.inst).await;
                }
            }
            // entries, body
            "queue" => {
                let mut q = DelayQueue::new();
                for (k, d) in v[2]
                    .as_array()
                    .expect("harness: program")
                    .iter()
                    .enumerate()
                {
                    q.insert(k as i64, dur(d.as_i64().expect("harness: program") as u64));
                }
                loop {
                    r.log(7, 0, 0);
                    let Some(e) = q.next().await else { break };
                    r.log(5, rel(e.deadline()), *e.get_ref());
                    exec(node(&v, 3), r.inst).await;
                }
            }
            // a sleep that is kept for a while after it has completed
            "held" => {
                let mut s = Box::pin(wt::sleep(ns(2)));
                s.as_mut().await;
                r.log(8, 0, 0);
                exec(node(&v, 3), r.inst).await;
                assert!(s.is_elapsed(), "a sleep that is not elapsed any more");
                if n(4) == 1 {
                    ex().kept.borrow_mut().push(s);
                }
            }
            // a watchdog: it is set anew after each step
            "keep" => {
                let mut s = Box::pin(wt::sleep(ns(2)));
                for c in nodes(&v[3], r.inst) {
                    match select(c, s.as_mut()).await {
                        Either::Left(_) => {
                            s.as_mut().reset(Instant::now() + ns(2));
                            r.log(8, 0, 0);
                        }
                        Either::Right(_) => {
                            out = 1;
                            break;
                        }
                    }
                }
            }
            // an owner of a queue that gets its commands from somewhere else
            "feed" => {
                let (tx, rx) = futures::channel::mpsc::unbounded::<(i64, i64, u64)>();
                let (v2, inst) = (v.clone(), r.inst);
                let producer = async move {
                    for (i, c) in nodes(&v2[2], inst).into_iter().enumerate() {
                        c.await;
                        let op = |j: usize| v2[3][i][j].as_i64().expect("harness: program");
                        tx.unbounded_send((op(0), op(1), op(2) as u64)).unwrap();
                    }
                };
                let owner = own(&r, rx);
                futures::future::join(producer, owner).await;
            }
            // a task that is dropped after a while
            "abort" => {
                let id = ex().spawn(exec(node(&v, 3), r.inst));
                r.log(8, 0, 0);
                wt::sleep(ns(2)).await;
                ex().abort(id);
            }
            "yield" => Yield(false).await,
            "spawn" => {
                ex().spawn(exec(node(&v, 2), r.inst));
            }
            "block" => {
                vh_block(n(2) as f64);
                r.log(6, 0, 0);
            }
            #[cfg(feature = "testutil")]
            "adv" => wt::advance(ns(2)).await,
            "none" => {}
            k => panic!("harness: program {k}"),
        }
        r.end(out);
    }
    .boxed_local()
}
