//! Thin, policy-free bindings from the public API of `wasmtimer` to the JavaScript driver in
//! /verif/js.  All generation, the virtual host (clock, setTimeout, Date) and all oracles live in
//! JavaScript; this crate only forwards calls, so that a trap inside the crate under test never
//! takes the oracle down with it.
#![allow(clippy::missing_safety_doc)]

mod prog;

use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;

use wasm_bindgen::prelude::*;
use wasmtimer::std::{Instant, SystemTime, UNIX_EPOCH};
use wasmtimer::tokio as wt;
use wasmtimer::tokio_util::delay_queue::{Expired, Key};
use wasmtimer::tokio_util::DelayQueue;

#[wasm_bindgen]
extern "C" {
    #[wasm_bindgen(js_name = __vh_panic)]
    fn vh_panic(s: &str);
    #[wasm_bindgen(js_name = __vh_wake)]
    fn vh_wake(id: u32);
    #[wasm_bindgen(js_name = __vh_waker_drop)]
    fn vh_waker_drop(id: u32);
    #[wasm_bindgen(js_name = __vh_waker_clone)]
    fn vh_waker_clone(id: u32);
    #[wasm_bindgen(js_name = __vh_val_drop)]
    fn vh_val_drop(id: u32);
}

// ---------------------------------------------------------------- wakers

struct W {
    id: u32,
}
impl Drop for W {
    fn drop(&mut self) {
        vh_waker_drop(self.id)
    }
}

// The driver is told when a waker is cloned only if it asks for it: most checks do not care.
static CLONES: AtomicBool = AtomicBool::new(false);
static VTABLE: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_by_ref, w_drop);
unsafe fn w_clone(p: *const ()) -> RawWaker {
    if CLONES.load(Ordering::Relaxed) {
        vh_waker_clone((*(p as *const W)).id);
    }
    Arc::increment_strong_count(p as *const W);
    RawWaker::new(p, &VTABLE)
}
unsafe fn w_wake(p: *const ()) {
    let w = Arc::from_raw(p as *const W);
    vh_wake(w.id);
}
unsafe fn w_wake_by_ref(p: *const ()) {
    vh_wake((*(p as *const W)).id)
}
unsafe fn w_drop(p: *const ()) {
    drop(Arc::from_raw(p as *const W))
}
fn new_waker(id: u32) -> Waker {
    let p = Arc::into_raw(Arc::new(W { id })) as *const ();
    unsafe { Waker::from_raw(RawWaker::new(p, &VTABLE)) }
}

struct Tab<T>(Vec<Option<T>>);
impl<T> Tab<T> {
    const fn new() -> Self {
        Tab(Vec::new())
    }
    fn add(&mut self, t: T) -> u32 {
        self.0.push(Some(t));
        (self.0.len() - 1) as u32
    }
    fn get(&mut self, i: u32) -> &mut T {
        self.0
            .get_mut(i as usize)
            .and_then(|x| x.as_mut())
            .expect("harness: stale handle")
    }
    fn take(&mut self, i: u32) -> T {
        let t = self.0[i as usize].take().expect("harness: stale handle");
        // slots at the end are reused, so that tables do not grow in leak checks
        while matches!(self.0.last(), Some(None)) {
            self.0.pop();
        }
        t
    }
}

struct Val {
    id: u32,
    tag: u32,
}
impl Drop for Val {
    fn drop(&mut self) {
        vh_val_drop(self.id)
    }
}

/// A future under the driver's control: pending until the driver sets its value.
struct Ctl {
    st: Rc<CtlState>,
}
struct CtlState {
    out: Cell<Option<u32>>,
    polls: Cell<u32>,
    waker: RefCell<Option<Waker>>,
    drops: Cell<u32>,
    tag: Cell<u32>,
}
impl Future for Ctl {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        self.st.polls.set(self.st.polls.get() + 1);
        if let Some(v) = self.st.out.get() {
            return Poll::Ready(v);
        }
        let w = cx.waker().clone();
        drop(self.st.waker.replace(Some(w)));
        Poll::Pending
    }
}
impl Drop for Ctl {
    fn drop(&mut self) {
        self.st.drops.set(self.st.drops.get() + 1);
    }
}

type TickFut = Pin<Box<dyn Future<Output = Instant>>>;
struct IvSlot {
    // field order matters: the borrow in `fut` is dropped first
    fut: Option<TickFut>,
    iv: Box<wt::Interval>,
}
enum To {
    Ctl(Pin<Box<wt::Timeout<Ctl>>>, Rc<CtlState>),
    Sleep(Pin<Box<wt::Timeout<wt::Sleep>>>),
}

struct St {
    base: Option<Instant>,
    wakers: Tab<Rc<Waker>>,
    sleeps: Tab<Pin<Box<wt::Sleep>>>,
    ivs: Tab<IvSlot>,
    tos: Tab<To>,
    dqs: Tab<Box<DelayQueue<Val>>>,
    keys: Tab<Key>,
    insts: Tab<Instant>,
    syss: Tab<SystemTime>,
}

// Single-threaded wasm: a plain static with raw access. A call may be entered while another one is
// under way, from wakers and from values that are dropped: the driver never has it touch the
// objects that are in use, and all of them are boxed, as the tables may move.
struct Shared(std::cell::UnsafeCell<St>);
unsafe impl Sync for Shared {}
static ST: Shared = Shared(std::cell::UnsafeCell::new(St {
    base: None,
    wakers: Tab::new(),
    sleeps: Tab::new(),
    ivs: Tab::new(),
    tos: Tab::new(),
    dqs: Tab::new(),
    keys: Tab::new(),
    insts: Tab::new(),
    syss: Tab::new(),
}));
#[allow(static_mut_refs)]
fn st() -> &'static mut St {
    unsafe { &mut *ST.0.get() }
}

fn dur(ns: u64) -> Duration {
    Duration::from_nanos(ns)
}
fn base() -> Instant {
    st().base.expect("harness: base not set")
}
fn inst(rel: i64) -> Instant {
    if rel >= 0 {
        base() + dur(rel as u64)
    } else {
        base() - dur(rel.unsigned_abs())
    }
}
/// nanoseconds relative to `base`
fn rel(t: Instant) -> i64 {
    match t.checked_duration_since(base()) {
        Some(d) => i64::try_from(d.as_nanos()).unwrap_or(i64::MAX),
        None => -i64::try_from(base().duration_since(t).as_nanos()).unwrap_or(i64::MAX),
    }
}
fn cx<R>(w: u32, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let waker = st().wakers.get(w).clone();
    let mut cx = Context::from_waker(&waker);
    f(&mut cx)
}

#[wasm_bindgen]
pub fn vh_init() {
    std::panic::set_hook(Box::new(|info| vh_panic(&info.to_string())));
}
/// Fixes the reference instant all `rel` values are relative to.
#[wasm_bindgen]
pub fn vh_base() {
    st().base = Some(Instant::now());
}
#[wasm_bindgen]
pub fn now() -> i64 {
    rel(Instant::now())
}
#[wasm_bindgen]
pub fn elapsed_since(r: i64) -> u64 {
    inst(r).elapsed().as_nanos() as u64
}
#[wasm_bindgen]
pub fn waker_new(id: u32) -> u32 {
    st().wakers.add(Rc::new(new_waker(id)))
}
/// From now on the driver is told about clones of wakers.
#[wasm_bindgen]
pub fn watch_clones() {
    CLONES.store(true, Ordering::Relaxed);
}
#[wasm_bindgen]
pub fn waker_release(h: u32) {
    drop(st().wakers.take(h));
}

// ---------------------------------------------------------------- sleep

#[wasm_bindgen]
pub fn sleep_new(ns: u64) -> u32 {
    let s = wt::sleep(dur(ns));
    st().sleeps.add(Box::pin(s))
}
#[wasm_bindgen]
pub fn sleep_new_big(secs: u64, nanos: u32) -> u32 {
    let s = wt::sleep(Duration::new(secs, nanos));
    st().sleeps.add(Box::pin(s))
}
#[wasm_bindgen]
pub fn sleep_until(r: i64) -> u32 {
    let s = wt::sleep_until(inst(r));
    st().sleeps.add(Box::pin(s))
}
#[wasm_bindgen]
pub fn sleep_until_inst(h: u32) -> u32 {
    let s = wt::sleep_until(*st().insts.get(h));
    st().sleeps.add(Box::pin(s))
}
#[wasm_bindgen]
pub fn sleep_poll(h: u32, w: u32) -> bool {
    cx(w, |c| st().sleeps.get(h).as_mut().poll(c).is_ready())
}
#[wasm_bindgen]
pub fn sleep_is_elapsed(h: u32) -> bool {
    st().sleeps.get(h).is_elapsed()
}
#[wasm_bindgen]
pub fn sleep_deadline(h: u32) -> i64 {
    rel(st().sleeps.get(h).deadline())
}
#[wasm_bindgen]
pub fn sleep_reset(h: u32, r: i64) {
    st().sleeps.get(h).as_mut().reset(inst(r))
}
#[wasm_bindgen]
pub fn sleep_reset_inst(h: u32, i: u32) {
    let t = *st().insts.get(i);
    st().sleeps.get(h).as_mut().reset(t)
}
#[wasm_bindgen]
pub fn sleep_drop(h: u32) {
    drop(st().sleeps.take(h))
}
#[wasm_bindgen]
pub fn sleep_debug(h: u32) -> String {
    format!("{:?}", st().sleeps.get(h))
}

// ---------------------------------------------------------------- interval

#[wasm_bindgen]
pub fn iv_new(period: u64) -> u32 {
    let iv = Box::new(wt::interval(dur(period)));
    st().ivs.add(IvSlot { fut: None, iv })
}
#[wasm_bindgen]
pub fn iv_new_big(secs: u64, nanos: u32) -> u32 {
    let iv = Box::new(wt::interval(Duration::new(secs, nanos)));
    st().ivs.add(IvSlot { fut: None, iv })
}
#[wasm_bindgen]
pub fn iv_at(start: i64, period: u64) -> u32 {
    let iv = Box::new(wt::interval_at(inst(start), dur(period)));
    st().ivs.add(IvSlot { fut: None, iv })
}
#[wasm_bindgen]
pub fn iv_at_inst(i: u32, secs: u64, nanos: u32) -> u32 {
    let at = *st().insts.get(i);
    let iv = Box::new(wt::interval_at(at, Duration::new(secs, nanos)));
    st().ivs.add(IvSlot { fut: None, iv })
}
#[wasm_bindgen]
pub fn iv_poll(h: u32, w: u32) -> Option<i64> {
    match cx(w, |c| st().ivs.get(h).iv.poll_tick(c)) {
        Poll::Ready(t) => Some(rel(t)),
        Poll::Pending => None,
    }
}
/// Polls a `tick()` future, creating it when there is none; a completed one is discarded.
#[wasm_bindgen]
pub fn iv_tick_poll(h: u32, w: u32) -> Option<i64> {
    let s = st().ivs.get(h);
    if s.fut.is_none() {
        let p: *mut wt::Interval = &mut *s.iv;
        let f: Pin<Box<dyn Future<Output = Instant>>> = unsafe {
            std::mem::transmute::<Pin<Box<dyn Future<Output = Instant> + '_>>, TickFut>(Box::pin(
                (*p).tick(),
            ))
        };
        s.fut = Some(f);
    }
    match cx(w, |c| s.fut.as_mut().unwrap().as_mut().poll(c)) {
        Poll::Ready(t) => {
            s.fut = None;
            Some(rel(t))
        }
        Poll::Pending => None,
    }
}
#[wasm_bindgen]
pub fn iv_tick_cancel(h: u32) {
    st().ivs.get(h).fut = None;
}
#[wasm_bindgen]
pub fn iv_reset(h: u32) {
    let s = st().ivs.get(h);
    s.fut = None;
    s.iv.reset()
}
#[wasm_bindgen]
pub fn iv_period(h: u32) -> u64 {
    st().ivs.get(h).iv.period().as_nanos() as u64
}
#[wasm_bindgen]
pub fn iv_set_mtb(h: u32, b: u32) {
    let s = st().ivs.get(h);
    s.fut = None;
    s.iv.set_missed_tick_behavior(match b {
        0 => wt::MissedTickBehavior::Burst,
        1 => wt::MissedTickBehavior::Delay,
        _ => wt::MissedTickBehavior::Skip,
    })
}
#[wasm_bindgen]
pub fn iv_get_mtb(h: u32) -> u32 {
    match st().ivs.get(h).iv.missed_tick_behavior() {
        wt::MissedTickBehavior::Burst => 0,
        wt::MissedTickBehavior::Delay => 1,
        wt::MissedTickBehavior::Skip => 2,
    }
}
#[wasm_bindgen]
pub fn mtb_default() -> u32 {
    match wt::MissedTickBehavior::default() {
        wt::MissedTickBehavior::Burst => 0,
        wt::MissedTickBehavior::Delay => 1,
        wt::MissedTickBehavior::Skip => 2,
    }
}
#[wasm_bindgen]
pub fn iv_drop(h: u32) {
    drop(st().ivs.take(h))
}

// ---------------------------------------------------------------- timeout

fn ctl_new() -> (Ctl, Rc<CtlState>) {
    let s = Rc::new(CtlState {
        out: Cell::new(None),
        polls: Cell::new(0),
        waker: RefCell::new(None),
        drops: Cell::new(0),
        tag: Cell::new(0),
    });
    (Ctl { st: s.clone() }, s)
}
#[wasm_bindgen]
pub fn to_ctl(ns: u64, ready: Option<u32>) -> u32 {
    let (c, s) = ctl_new();
    s.out.set(ready);
    let t = wt::timeout(dur(ns), c);
    st().tos.add(To::Ctl(Box::pin(t), s))
}
#[wasm_bindgen]
pub fn to_ctl_big(secs: u64, nanos: u32, ready: Option<u32>) -> u32 {
    let (c, s) = ctl_new();
    s.out.set(ready);
    let t = wt::timeout(Duration::new(secs, nanos), c);
    st().tos.add(To::Ctl(Box::pin(t), s))
}
#[wasm_bindgen]
pub fn to_ctl_at(r: i64, ready: Option<u32>) -> u32 {
    let (c, s) = ctl_new();
    s.out.set(ready);
    let t = wt::timeout_at(inst(r), c);
    st().tos.add(To::Ctl(Box::pin(t), s))
}
#[wasm_bindgen]
pub fn to_ctl_inst(i: u32, ready: Option<u32>) -> u32 {
    let at = *st().insts.get(i);
    let (c, s) = ctl_new();
    s.out.set(ready);
    let t = wt::timeout_at(at, c);
    st().tos.add(To::Ctl(Box::pin(t), s))
}
#[wasm_bindgen]
pub fn to_sleep(ns: u64, inner: u64) -> u32 {
    let t = wt::timeout(dur(ns), wt::sleep(dur(inner)));
    st().tos.add(To::Sleep(Box::pin(t)))
}
#[wasm_bindgen]
pub fn to_sleep_at(r: i64, inner: i64) -> u32 {
    let t = wt::timeout_at(inst(r), wt::sleep_until(inst(inner)));
    st().tos.add(To::Sleep(Box::pin(t)))
}
/// -1 pending, -2 elapsed, otherwise the value of the inner future (0 for a sleep).
#[wasm_bindgen]
pub fn to_poll(h: u32, w: u32) -> i64 {
    cx(w, |c| match st().tos.get(h) {
        To::Ctl(t, _) => match t.as_mut().poll(c) {
            Poll::Pending => -1,
            Poll::Ready(Err(_)) => -2,
            Poll::Ready(Ok(v)) => v as i64,
        },
        To::Sleep(t) => match t.as_mut().poll(c) {
            Poll::Pending => -1,
            Poll::Ready(Err(_)) => -2,
            Poll::Ready(Ok(())) => 0,
        },
    })
}
/// Completes the inner future with `v`, waking whoever polled it if `wake`.
#[wasm_bindgen]
pub fn to_complete(h: u32, v: u32, wake: bool) {
    if let To::Ctl(_, s) = st().tos.get(h) {
        s.out.set(Some(v));
        let w = s.waker.borrow_mut().take();
        if wake {
            if let Some(w) = w {
                w.wake()
            }
        }
    }
}
#[wasm_bindgen]
pub fn to_inner_polls(h: u32) -> u32 {
    match st().tos.get(h) {
        To::Ctl(_, s) => s.polls.get(),
        To::Sleep(_) => 0,
    }
}
#[wasm_bindgen]
pub fn to_inner_drops(h: u32) -> u32 {
    match st().tos.get(h) {
        To::Ctl(_, s) => s.drops.get(),
        To::Sleep(_) => 0,
    }
}
/// Writes `tag` through `get_mut` and reads it back through `get_ref`.
#[wasm_bindgen]
pub fn to_access(h: u32, tag: u32) -> u32 {
    match st().tos.get(h) {
        To::Ctl(t, _) => {
            unsafe { t.as_mut().get_unchecked_mut() }
                .get_mut()
                .st
                .tag
                .set(tag);
            t.as_ref().get_ref().get_ref().st.tag.get()
        }
        To::Sleep(_) => tag,
    }
}
#[wasm_bindgen]
pub fn to_inner_tag(h: u32) -> u32 {
    match st().tos.get(h) {
        To::Ctl(_, s) => s.tag.get(),
        To::Sleep(_) => 0,
    }
}
#[wasm_bindgen]
pub fn to_drop(h: u32) {
    drop(st().tos.take(h))
}
/// Recovers the inner future; returns its state handle.
#[wasm_bindgen]
pub fn to_into_inner(h: u32) -> u32 {
    match st().tos.take(h) {
        To::Ctl(t, s) => {
            let t = unsafe { *Pin::into_inner_unchecked(t) };
            let inner = t.into_inner();
            let same = Rc::ptr_eq(&inner.st, &s);
            assert!(same, "harness: into_inner returned another future");
            let r = s.drops.get();
            drop(inner);
            r * 100 + s.drops.get()
        }
        To::Sleep(t) => {
            let t = unsafe { *Pin::into_inner_unchecked(t) };
            st().sleeps.add(Box::pin(t.into_inner()))
        }
    }
}
/// `into_inner` of a sleep timeout: the recovered sleep's handle (use `sleep_*` on it).
#[wasm_bindgen]
pub fn to_is_sleep(h: u32) -> bool {
    matches!(st().tos.get(h), To::Sleep(_))
}
/// Display text and io error kind of the error of an elapsed timeout.
#[wasm_bindgen]
pub fn to_err_text(h: u32, w: u32) -> String {
    cx(w, |c| match st().tos.get(h) {
        To::Ctl(t, _) => match t.as_mut().poll(c) {
            Poll::Ready(Err(e)) => {
                let d = e.to_string();
                let dynd = {
                    let b: &dyn std::error::Error = &e;
                    b.to_string()
                };
                let io: std::io::Error = e.into();
                format!("{d}|{dynd}|{:?}", io.kind())
            }
            _ => "not-elapsed".into(),
        },
        _ => "not-ctl".into(),
    })
}

// ---------------------------------------------------------------- delay queue

#[wasm_bindgen]
pub struct Exp {
    pub id: u32,
    pub tag: u32,
    pub key: u32,
    pub deadline: i64,
}
fn exp(mut e: Expired<Val>) -> Exp {
    let id = e.get_ref().id;
    let deadline = rel(e.deadline());
    let key = st().keys.add(e.key());
    let tag = e.get_ref().tag;
    e.get_mut().tag = tag ^ 0x5a5a;
    let v = e.into_inner();
    assert!(
        v.id == id && v.tag == tag ^ 0x5a5a,
        "harness: Expired accessors disagree"
    );
    Exp {
        id,
        tag,
        key,
        deadline,
    }
}
#[wasm_bindgen]
pub fn dq_new() -> u32 {
    let q = DelayQueue::new();
    st().dqs.add(Box::new(q))
}
#[wasm_bindgen]
pub fn dq_default() -> u32 {
    let q = DelayQueue::default();
    st().dqs.add(Box::new(q))
}
#[wasm_bindgen]
pub fn dq_with_capacity(n: u32) -> u32 {
    let q = DelayQueue::with_capacity(n as usize);
    st().dqs.add(Box::new(q))
}
#[wasm_bindgen]
pub fn dq_insert_at(q: u32, id: u32, tag: u32, r: i64) -> u32 {
    let k = st().dqs.get(q).insert_at(Val { id, tag }, inst(r));
    st().keys.add(k)
}
#[wasm_bindgen]
pub fn dq_insert(q: u32, id: u32, tag: u32, ns: u64) -> u32 {
    let k = st().dqs.get(q).insert(Val { id, tag }, dur(ns));
    st().keys.add(k)
}
#[wasm_bindgen]
pub fn dq_insert_inst(q: u32, id: u32, tag: u32, i: u32) -> u32 {
    let at = *st().insts.get(i);
    let k = st().dqs.get(q).insert_at(Val { id, tag }, at);
    st().keys.add(k)
}
#[wasm_bindgen]
pub fn dq_insert_big(q: u32, id: u32, tag: u32, secs: u64, nanos: u32) -> u32 {
    let k = st()
        .dqs
        .get(q)
        .insert(Val { id, tag }, Duration::new(secs, nanos));
    st().keys.add(k)
}
#[wasm_bindgen]
pub fn dq_reset_inst(q: u32, k: u32, i: u32) {
    let at = *st().insts.get(i);
    let key = *st().keys.get(k);
    st().dqs.get(q).reset_at(&key, at)
}
#[wasm_bindgen]
pub fn dq_reset_big(q: u32, k: u32, secs: u64, nanos: u32) {
    let key = *st().keys.get(k);
    st().dqs.get(q).reset(&key, Duration::new(secs, nanos))
}
/// Forgets the keys from handle `n` on, so that leak checks can run for long.
#[wasm_bindgen]
pub fn keys_truncate(n: u32) {
    st().keys.0.truncate(n as usize)
}
#[wasm_bindgen]
pub fn keys_len() -> u32 {
    st().keys.0.len() as u32
}
#[wasm_bindgen]
pub fn insts_truncate(n: u32) {
    st().insts.0.truncate(n as usize)
}
/// undefined = Pending, null-like (id u32::MAX) = Ready(None)
#[wasm_bindgen]
pub fn dq_poll(q: u32, w: u32) -> Option<Exp> {
    match cx(w, |c| st().dqs.get(q).poll_expired(c)) {
        Poll::Pending => None,
        Poll::Ready(None) => Some(Exp {
            id: u32::MAX,
            tag: 0,
            key: 0,
            deadline: 0,
        }),
        Poll::Ready(Some(e)) => Some(exp(e)),
    }
}
#[wasm_bindgen]
pub fn dq_poll_next(q: u32, w: u32) -> Option<Exp> {
    use futures::Stream;
    match cx(w, |c| Pin::new(&mut **st().dqs.get(q)).poll_next(c)) {
        Poll::Pending => None,
        Poll::Ready(None) => Some(Exp {
            id: u32::MAX,
            tag: 0,
            key: 0,
            deadline: 0,
        }),
        Poll::Ready(Some(e)) => Some(exp(e)),
    }
}
#[wasm_bindgen]
pub fn dq_remove(q: u32, k: u32) -> Exp {
    let key = *st().keys.get(k);
    exp(st().dqs.get(q).remove(&key))
}
#[wasm_bindgen]
pub fn dq_try_remove(q: u32, k: u32) -> Option<Exp> {
    let key = *st().keys.get(k);
    st().dqs.get(q).try_remove(&key).map(exp)
}
#[wasm_bindgen]
pub fn dq_reset_at(q: u32, k: u32, r: i64) {
    let key = *st().keys.get(k);
    st().dqs.get(q).reset_at(&key, inst(r))
}
#[wasm_bindgen]
pub fn dq_reset(q: u32, k: u32, ns: u64) {
    let key = *st().keys.get(k);
    st().dqs.get(q).reset(&key, dur(ns))
}
#[wasm_bindgen]
pub fn dq_clear(q: u32) {
    st().dqs.get(q).clear()
}
#[wasm_bindgen]
pub fn dq_compact(q: u32) {
    st().dqs.get(q).compact()
}
#[wasm_bindgen]
pub fn dq_shrink(q: u32) {
    st().dqs.get(q).shrink_to_fit()
}
#[wasm_bindgen]
pub fn dq_reserve(q: u32, n: u32) {
    st().dqs.get(q).reserve(n as usize)
}
#[wasm_bindgen]
pub fn dq_capacity(q: u32) -> u32 {
    st().dqs.get(q).capacity() as u32
}
#[wasm_bindgen]
pub fn dq_len(q: u32) -> u32 {
    st().dqs.get(q).len() as u32
}
#[wasm_bindgen]
pub fn dq_is_empty(q: u32) -> bool {
    st().dqs.get(q).is_empty()
}
#[wasm_bindgen]
pub fn dq_drop(q: u32) {
    drop(st().dqs.take(q))
}
#[wasm_bindgen]
pub fn key_eq(a: u32, b: u32) -> bool {
    let x = *st().keys.get(a);
    let y = *st().keys.get(b);
    use std::hash::{Hash, Hasher};
    let h = |k: &Key| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        k.hash(&mut s);
        s.finish()
    };
    if x == y {
        assert!(h(&x) == h(&y), "harness: equal keys hash differently");
    }
    x == y
}

// ---------------------------------------------------------------- test clock

#[cfg(feature = "testutil")]
mod tu {
    use super::*;
    #[wasm_bindgen]
    pub fn tu_pause() {
        wt::pause()
    }
    #[wasm_bindgen]
    pub fn tu_resume() {
        wt::resume()
    }
    /// Runs `advance` to completion; returns the number of polls it took.
    #[wasm_bindgen]
    pub fn tu_advance(ns: u64, w: u32) -> u32 {
        let mut f = Box::pin(wt::advance(dur(ns)));
        let mut n = 0;
        loop {
            n += 1;
            if cx(w, |c| f.as_mut().poll(c)).is_ready() {
                return n;
            }
            if n > 100 {
                return n;
            }
        }
    }
}

// ---------------------------------------------------------------- Instant arithmetic

fn big(secs: u64, nanos: u32) -> Duration {
    Duration::new(secs, nanos)
}
fn dstr(d: Duration) -> String {
    format!("{}.{:09}", d.as_secs(), d.subsec_nanos())
}
#[wasm_bindgen]
pub fn in_now() -> u32 {
    let t = Instant::now();
    st().insts.add(t)
}
#[wasm_bindgen]
pub fn in_copy(a: u32) -> u32 {
    let t = *st().insts.get(a);
    #[allow(clippy::clone_on_copy)]
    let u = t.clone();
    st().insts.add(u)
}
#[wasm_bindgen]
pub fn in_checked_add(a: u32, s: u64, n: u32) -> Option<u32> {
    let t = *st().insts.get(a);
    t.checked_add(big(s, n)).map(|x| st().insts.add(x))
}
#[wasm_bindgen]
pub fn in_checked_sub(a: u32, s: u64, n: u32) -> Option<u32> {
    let t = *st().insts.get(a);
    t.checked_sub(big(s, n)).map(|x| st().insts.add(x))
}
#[wasm_bindgen]
pub fn in_add(a: u32, s: u64, n: u32, assign: bool) -> u32 {
    let mut t = *st().insts.get(a);
    if assign {
        t += big(s, n)
    } else {
        t = t + big(s, n)
    }
    st().insts.add(t)
}
#[wasm_bindgen]
pub fn in_sub(a: u32, s: u64, n: u32, assign: bool) -> u32 {
    let mut t = *st().insts.get(a);
    if assign {
        t -= big(s, n)
    } else {
        t = t - big(s, n)
    }
    st().insts.add(t)
}
#[wasm_bindgen]
pub fn in_duration_since(a: u32, b: u32) -> String {
    let (a, b) = (*st().insts.get(a), *st().insts.get(b));
    dstr(a.duration_since(b))
}
#[wasm_bindgen]
pub fn in_saturating(a: u32, b: u32) -> String {
    let (a, b) = (*st().insts.get(a), *st().insts.get(b));
    dstr(a.saturating_duration_since(b))
}
#[wasm_bindgen]
pub fn in_minus(a: u32, b: u32) -> String {
    let (a, b) = (*st().insts.get(a), *st().insts.get(b));
    dstr(a - b)
}
#[wasm_bindgen]
pub fn in_checked_ds(a: u32, b: u32) -> Option<String> {
    let (a, b) = (*st().insts.get(a), *st().insts.get(b));
    a.checked_duration_since(b).map(dstr)
}
#[wasm_bindgen]
pub fn in_elapsed(a: u32) -> String {
    let a = *st().insts.get(a);
    dstr(a.elapsed())
}
/// bits: 0 lt, 1 le, 2 eq, 3 ge, 4 gt, 5 ne; plus ord (-1,0,1)+1 in bits 8..
#[wasm_bindgen]
#[allow(clippy::nonminimal_bool, clippy::neg_cmp_op_on_partial_ord)]
pub fn in_cmp(a: u32, b: u32) -> u32 {
    let (a, b) = (*st().insts.get(a), *st().insts.get(b));
    let c = a.cmp(&b) as i32;
    let p = a.partial_cmp(&b).map(|x| x as i32).unwrap_or(7);
    (a < b) as u32
        | ((a <= b) as u32) << 1
        | ((a == b) as u32) << 2
        | ((a >= b) as u32) << 3
        | ((a > b) as u32) << 4
        | ((a != b) as u32) << 5
        | ((c + 1) as u32) << 8
        | ((p + 1) as u32) << 12
}

// ---------------------------------------------------------------- SystemTime

#[wasm_bindgen]
pub fn sy_now() -> u32 {
    let t = SystemTime::now();
    st().syss.add(t)
}
#[wasm_bindgen]
pub fn sy_epoch(which: u32) -> u32 {
    let t = if which == 0 {
        UNIX_EPOCH
    } else {
        SystemTime::UNIX_EPOCH
    };
    st().syss.add(t)
}
/// op: 0 +, 1 +=, 2 checked_add, 3 -, 4 -=, 5 checked_sub
#[wasm_bindgen]
pub fn sy_op(a: u32, op: u32, s: u64, n: u32) -> Option<u32> {
    let mut t = *st().syss.get(a);
    let d = big(s, n);
    let r = match op {
        0 => Some(t + d),
        1 => {
            t += d;
            Some(t)
        }
        2 => t.checked_add(d),
        3 => Some(t - d),
        4 => {
            t -= d;
            Some(t)
        }
        _ => t.checked_sub(d),
    };
    r.map(|x| st().syss.add(x))
}
/// "+secs.nanos" or "-secs.nanos" (the error's duration)
#[wasm_bindgen]
pub fn sy_duration_since(a: u32, b: u32) -> String {
    let (a, b) = (*st().syss.get(a), *st().syss.get(b));
    match a.duration_since(b) {
        Ok(d) => format!("+{}", dstr(d)),
        Err(e) => format!("-{}", dstr(e.duration())),
    }
}
#[wasm_bindgen]
pub fn sy_err_text(a: u32, b: u32) -> String {
    let (a, b) = (*st().syss.get(a), *st().syss.get(b));
    match a.duration_since(b) {
        Ok(_) => String::new(),
        Err(e) => e.to_string(),
    }
}
#[wasm_bindgen]
pub fn sy_elapsed(a: u32) -> String {
    let a = *st().syss.get(a);
    match a.elapsed() {
        Ok(d) => format!("+{}", dstr(d)),
        Err(e) => format!("-{}", dstr(e.duration())),
    }
}
#[wasm_bindgen]
pub fn sy_cmp(a: u32, b: u32) -> u32 {
    let (a, b) = (*st().syss.get(a), *st().syss.get(b));
    let c = a.cmp(&b) as i32;
    let p = a.partial_cmp(&b).map(|x| x as i32).unwrap_or(7);
    (a < b) as u32
        | ((a <= b) as u32) << 1
        | ((a == b) as u32) << 2
        | ((a >= b) as u32) << 3
        | ((a > b) as u32) << 4
        | ((a != b) as u32) << 5
        | ((c + 1) as u32) << 8
        | ((p + 1) as u32) << 12
}
/// "ok:<json>" or "err:<message>"
#[wasm_bindgen]
pub fn sy_to_json(a: u32) -> String {
    match serde_json::to_string(st().syss.get(a)) {
        Ok(s) => format!("ok:{s}"),
        Err(e) => format!("err:{e}"),
    }
}
/// handle or undefined when the text is rejected
#[wasm_bindgen]
pub fn sy_from_json(s: &str) -> Option<u32> {
    match serde_json::from_str::<SystemTime>(s) {
        Ok(t) => Some(st().syss.add(t)),
        Err(_) => None,
    }
}
#[wasm_bindgen]
pub fn sy_from_json_err(s: &str) -> String {
    match serde_json::from_str::<SystemTime>(s) {
        Ok(_) => String::new(),
        Err(e) => e.to_string(),
    }
}
/// The sequence form (what a compact binary format uses): `parts` u64 values.
#[wasm_bindgen]
pub fn sy_from_seq(parts: Vec<u64>) -> Option<u32> {
    use serde::de::value::{Error, SeqDeserializer};
    use serde::de::{Deserialize, IntoDeserializer};
    let it = parts
        .into_iter()
        .map(|x| -> serde::de::value::U64Deserializer<Error> { x.into_deserializer() });
    let d: SeqDeserializer<_, Error> = SeqDeserializer::new(it);
    SystemTime::deserialize(d).ok().map(|t| st().syss.add(t))
}
/// The map form with byte-string keys (what some binary self-describing formats use).
#[wasm_bindgen]
pub fn sy_from_bytes_map(keys: &str, vals: Vec<u64>) -> Option<u32> {
    use serde::de::value::{BytesDeserializer, Error, MapDeserializer, U64Deserializer};
    use serde::de::{Deserialize, IntoDeserializer};
    #[derive(Clone)]
    struct K(Vec<u8>);
    struct KD(Vec<u8>);
    impl<'de> serde::de::Deserializer<'de> for KD {
        type Error = Error;
        fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            let b: BytesDeserializer<'_, Error> = BytesDeserializer::new(&self.0);
            b.deserialize_any(v)
        }
        serde::forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
            option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum
            identifier ignored_any
        }
    }
    impl<'de> IntoDeserializer<'de, Error> for K {
        type Deserializer = KD;
        fn into_deserializer(self) -> KD {
            KD(self.0)
        }
    }
    struct V(u64);
    impl<'de> IntoDeserializer<'de, Error> for V {
        type Deserializer = U64Deserializer<Error>;
        fn into_deserializer(self) -> Self::Deserializer {
            self.0.into_deserializer()
        }
    }
    let it = keys
        .split(',')
        .filter(|k| !k.is_empty())
        .map(|k| K(k.as_bytes().to_vec()))
        .zip(vals.into_iter().map(V))
        .collect::<Vec<_>>();
    let d = MapDeserializer::new(it.into_iter());
    SystemTime::deserialize(d).ok().map(|t| st().syss.add(t))
}

/// How a value presents itself to a format that is not self-describing: the names, lengths and types
/// it announces when it is written, and the ones it asks for when it is read.
mod shape {
    use serde::de::value::Error;
    use serde::de::{self, DeserializeSeed, SeqAccess, Visitor};
    use serde::ser::{Impossible, Serialize, SerializeStruct, Serializer};
    use std::cell::RefCell;
    use std::fmt::Write;

    type Log<'a> = &'a RefCell<String>;
    pub struct Ser<'a>(pub Log<'a>);
    pub struct SerStruct<'a>(Log<'a>);

    macro_rules! no {
        ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $t),*) -> Result<$r, Error> { Err(de::Error::custom(stringify!($f))) })* };
    }
    macro_rules! num {
        ($($f:ident $t:ty;)*) => { $(fn $f(self, x: $t) -> Result<(), Error> { let _ = write!(self.0.borrow_mut(), "{}={x},", stringify!($t)); Ok(()) })* };
    }
    impl<'a> Serializer for Ser<'a> {
        type Ok = ();
        type Error = Error;
        type SerializeSeq = Impossible<(), Error>;
        type SerializeTuple = Impossible<(), Error>;
        type SerializeTupleStruct = Impossible<(), Error>;
        type SerializeTupleVariant = Impossible<(), Error>;
        type SerializeMap = Impossible<(), Error>;
        type SerializeStruct = SerStruct<'a>;
        type SerializeStructVariant = Impossible<(), Error>;
        num! { serialize_u8 u8; serialize_u16 u16; serialize_u32 u32; serialize_u64 u64; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_f32 f32; serialize_f64 f64; }
        no! {
            serialize_bool(bool) -> ();
            serialize_char(char) -> ();
            serialize_str(&str) -> ();
            serialize_bytes(&[u8]) -> ();
            serialize_none() -> ();
            serialize_unit() -> ();
            serialize_unit_struct(&'static str) -> ();
            serialize_unit_variant(&'static str, u32, &'static str) -> ();
            serialize_seq(Option<usize>) -> Self::SerializeSeq;
            serialize_tuple(usize) -> Self::SerializeTuple;
            serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct;
            serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant;
            serialize_map(Option<usize>) -> Self::SerializeMap;
            serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant;
        }
        fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<(), Error> {
            Err(de::Error::custom("some"))
        }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(
            self,
            n: &'static str,
            x: &T,
        ) -> Result<(), Error> {
            let _ = write!(self.0.borrow_mut(), "{n}:");
            x.serialize(self)
        }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: &T,
        ) -> Result<(), Error> {
            Err(de::Error::custom("newtype variant"))
        }
        fn serialize_struct(self, n: &'static str, len: usize) -> Result<SerStruct<'a>, Error> {
            let _ = write!(self.0.borrow_mut(), "{n}/{len}{{");
            Ok(SerStruct(self.0))
        }
    }
    impl SerializeStruct for SerStruct<'_> {
        type Ok = ();
        type Error = Error;
        fn serialize_field<T: Serialize + ?Sized>(
            &mut self,
            k: &'static str,
            v: &T,
        ) -> Result<(), Error> {
            let _ = write!(self.0.borrow_mut(), "{k}:");
            v.serialize(Ser(self.0))
        }
        fn end(self) -> Result<(), Error> {
            self.0.borrow_mut().push('}');
            Ok(())
        }
    }

    /// Yields the values it was made with, one per field that is asked for.
    pub struct De<'a>(pub Log<'a>, pub &'a [u64]);
    struct Fields<'a>(Log<'a>, &'a [u64], usize);
    struct One<'a>(Log<'a>, u64);
    impl<'de> de::Deserializer<'de> for De<'_> {
        type Error = Error;
        fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
            Err(de::Error::custom("this format is not self-describing"))
        }
        fn deserialize_struct<V: Visitor<'de>>(
            self,
            n: &'static str,
            fields: &'static [&'static str],
            v: V,
        ) -> Result<V::Value, Error> {
            let _ = write!(self.0.borrow_mut(), "{n}{fields:?} ");
            v.visit_seq(Fields(self.0, self.1, fields.len()))
        }
        serde::forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
            option unit unit_struct newtype_struct seq tuple tuple_struct map enum
            identifier ignored_any
        }
    }
    impl<'de> SeqAccess<'de> for Fields<'_> {
        type Error = Error;
        fn next_element_seed<T: DeserializeSeed<'de>>(
            &mut self,
            seed: T,
        ) -> Result<Option<T::Value>, Error> {
            if self.2 == 0 || self.1.is_empty() {
                return Ok(None);
            }
            let x = self.1[0];
            self.1 = &self.1[1..];
            self.2 -= 1;
            seed.deserialize(One(self.0, x)).map(Some)
        }
        fn size_hint(&self) -> Option<usize> {
            Some(self.2)
        }
    }
    macro_rules! ask {
        ($($f:ident $v:ident $t:ty;)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            let _ = write!(self.0.borrow_mut(), "{},", stringify!($t));
            v.$v(self.1 as $t)
        })* };
    }
    impl<'de> de::Deserializer<'de> for One<'_> {
        type Error = Error;
        fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
            Err(de::Error::custom("this format is not self-describing"))
        }
        ask! { deserialize_u8 visit_u8 u8; deserialize_u16 visit_u16 u16; deserialize_u32 visit_u32 u32; deserialize_u64 visit_u64 u64; deserialize_i32 visit_i32 i32; deserialize_i64 visit_i64 i64; deserialize_f64 visit_f64 f64; }
        serde::forward_to_deserialize_any! {
            bool i8 i16 i128 u128 f32 char str string bytes byte_buf
            option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum
            identifier ignored_any
        }
    }
}
/// What a format that is not self-describing is told when the time is written, ours or (`ms` after the
/// epoch) that of the standard library.
#[wasm_bindgen]
pub fn sy_shape(a: u32) -> String {
    use serde::Serialize;
    let log = Default::default();
    let r = st().syss.get(a).serialize(shape::Ser(&log));
    format!("{} {:?}", log.into_inner(), r.is_ok())
}
#[wasm_bindgen]
pub fn std_shape(ms: u64) -> String {
    use serde::Serialize;
    let log = Default::default();
    let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_millis(ms);
    let r = t.serialize(shape::Ser(&log));
    format!("{} {:?}", log.into_inner(), r.is_ok())
}
/// Reads from such a format that holds `vals`: what is asked for, and milliseconds after the epoch.
#[wasm_bindgen]
pub fn sy_ask(vals: Vec<u64>) -> String {
    use serde::Deserialize;
    let log = Default::default();
    let r = SystemTime::deserialize(shape::De(&log, &vals)).map(|t| {
        t.duration_since(wasmtimer::std::UNIX_EPOCH)
            .unwrap()
            .as_millis()
    });
    format!("{}{:?}", log.into_inner(), r.ok())
}
#[wasm_bindgen]
pub fn std_ask(vals: Vec<u64>) -> String {
    use serde::Deserialize;
    let log = Default::default();
    let r = std::time::SystemTime::deserialize(shape::De(&log, &vals)).map(|t| {
        t.duration_since(std::time::SystemTime::UNIX_EPOCH)
            .unwrap()
            .as_millis()
    });
    format!("{}{:?}", log.into_inner(), r.ok())
}
