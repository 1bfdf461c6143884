//! Runs programs of timer operations on the native `tokio` and `tokio-util`, with paused time.
//! A program is a line of operations that are separated by ';'. Times are milliseconds,
//! instants are relative to the start. Prints one result per operation.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tokio::time::{self, Duration, Instant, MissedTickBehavior};
use tokio_util::time::{delay_queue::Key, DelayQueue};

struct W(AtomicBool);
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
fn waker() -> (Arc<W>, Waker) {
    let w = Arc::new(W(AtomicBool::new(false)));
    (w.clone(), Waker::from(w))
}
struct Timed<T> {
    t: T,
    pend: Option<Arc<W>>,
}
fn timed<T>(t: T) -> Timed<T> {
    Timed { t, pend: None }
}
struct Q {
    q: DelayQueue<usize>,
    keys: Vec<Option<Key>>,
    pend: Option<Arc<W>>,
}

async fn run(prog: String) -> String {
    let base = Instant::now();
    let at = |ms: i64| base + Duration::from_millis(ms as u64);
    let rel = |t: Instant| (t - base).as_millis();
    let ms = |n: i64| Duration::from_millis(n as u64);
    let mut sleeps: Vec<Timed<Pin<Box<time::Sleep>>>> = vec![];
    let mut ivs: Vec<Timed<time::Interval>> = vec![];
    let mut tos: Vec<Timed<Pin<Box<time::Timeout<time::Sleep>>>>> = vec![];
    let mut qs: Vec<Q> = vec![];
    let mut out: Vec<String> = vec![];
    for op in prog.split(';') {
        let mut f = op.split(' ');
        let name = f.next().unwrap();
        let a: Vec<i64> = f.map(|x| x.parse().unwrap()).collect();
        let r = match name {
            "adv" => {
                time::advance(ms(a[0])).await;
                rel(Instant::now()).to_string()
            }
            "sleep" => {
                sleeps.push(timed(Box::pin(time::sleep(ms(a[0])))));
                String::new()
            }
            "until" => {
                sleeps.push(timed(Box::pin(time::sleep_until(at(a[0])))));
                String::new()
            }
            "sp" => {
                let s = &mut sleeps[a[0] as usize];
                let (w, wk) = waker();
                match s.t.as_mut().poll(&mut Context::from_waker(&wk)) {
                    Poll::Ready(()) => {
                        s.pend = None;
                        format!("R {}", s.t.is_elapsed())
                    }
                    Poll::Pending => {
                        s.pend = Some(w);
                        format!("P {}", s.t.is_elapsed())
                    }
                }
            }
            "sr" => {
                let s = &mut sleeps[a[0] as usize];
                s.t.as_mut().reset(at(a[1]));
                s.pend = None;
                String::new()
            }
            "sd" => rel(sleeps[a[0] as usize].t.deadline()).to_string(),
            "sw" => sleeps[a[0] as usize].pend.as_ref().map_or(String::new(), |w| w.0.load(Ordering::SeqCst).to_string()),
            "iv" => {
                ivs.push(timed(time::interval(ms(a[0]))));
                String::new()
            }
            "ivat" => {
                ivs.push(timed(time::interval_at(at(a[0]), ms(a[1]))));
                String::new()
            }
            "im" => {
                ivs[a[0] as usize].t.set_missed_tick_behavior(match a[1] {
                    0 => MissedTickBehavior::Burst,
                    1 => MissedTickBehavior::Delay,
                    _ => MissedTickBehavior::Skip,
                });
                String::new()
            }
            "ip" => {
                let s = &mut ivs[a[0] as usize];
                let (w, wk) = waker();
                match s.t.poll_tick(&mut Context::from_waker(&wk)) {
                    Poll::Ready(t) => {
                        s.pend = None;
                        rel(t).to_string()
                    }
                    Poll::Pending => {
                        s.pend = Some(w);
                        "P".into()
                    }
                }
            }
            "ir" => {
                let s = &mut ivs[a[0] as usize];
                s.t.reset();
                s.pend = None;
                String::new()
            }
            "iw" => ivs[a[0] as usize].pend.as_ref().map_or(String::new(), |w| w.0.load(Ordering::SeqCst).to_string()),
            "to" => {
                tos.push(timed(Box::pin(time::timeout(ms(a[0]), time::sleep(ms(a[1]))))));
                String::new()
            }
            "toat" => {
                tos.push(timed(Box::pin(time::timeout_at(at(a[0]), time::sleep_until(at(a[1]))))));
                String::new()
            }
            "tp" => {
                let s = &mut tos[a[0] as usize];
                let (w, wk) = waker();
                match s.t.as_mut().poll(&mut Context::from_waker(&wk)) {
                    Poll::Ready(Ok(())) => {
                        s.pend = None;
                        "R".into()
                    }
                    Poll::Ready(Err(_)) => {
                        s.pend = None;
                        "E".into()
                    }
                    Poll::Pending => {
                        s.pend = Some(w);
                        "P".into()
                    }
                }
            }
            "tw" => tos[a[0] as usize].pend.as_ref().map_or(String::new(), |w| w.0.load(Ordering::SeqCst).to_string()),
            "q" => {
                qs.push(Q {
                    q: if a[0] == 0 { DelayQueue::new() } else { DelayQueue::with_capacity(a[0] as usize) },
                    keys: vec![],
                    pend: None,
                });
                String::new()
            }
            "qi" | "qd" => {
                let q = &mut qs[a[0] as usize];
                let id = q.keys.len();
                let k = if name == "qi" { q.q.insert_at(id, at(a[1])) } else { q.q.insert(id, ms(a[1])) };
                q.keys.push(Some(k));
                q.q.len().to_string()
            }
            "qx" | "qt" => {
                let q = &mut qs[a[0] as usize];
                match q.keys[a[1] as usize].take() {
                    None => "gone".into(),
                    Some(k) => {
                        let e = if name == "qx" { q.q.remove(&k) } else { q.q.try_remove(&k).unwrap() };
                        format!("{} {} {}", e.get_ref(), rel(e.deadline()), q.q.len())
                    }
                }
            }
            "qw" => qs[a[0] as usize].pend.as_ref().map_or(String::new(), |w| w.0.load(Ordering::SeqCst).to_string()),
            "ql" => {
                let q = &qs[a[0] as usize].q;
                format!("{} {} {}", q.len(), q.is_empty(), q.capacity() >= q.len())
            }
            "qr" | "qs" => {
                let q = &mut qs[a[0] as usize];
                match &q.keys[a[1] as usize] {
                    None => "gone".into(),
                    Some(k) => {
                        if name == "qr" {
                            q.q.reset_at(k, at(a[2]))
                        } else {
                            q.q.reset(k, ms(a[2]))
                        }
                        String::new()
                    }
                }
            }
            "qc" => {
                let q = &mut qs[a[0] as usize];
                q.q.clear();
                q.keys.iter_mut().for_each(|k| *k = None);
                q.q.len().to_string()
            }
            "qk" => {
                qs[a[0] as usize].q.compact();
                String::new()
            }
            "qp" => {
                // everything that is there, in the order of the ids
                let q = &mut qs[a[0] as usize];
                let mut got = vec![];
                let end = loop {
                    let (w, wk) = waker();
                    q.pend = None;
                    match q.q.poll_expired(&mut Context::from_waker(&wk)) {
                        Poll::Pending => {
                            q.pend = Some(w);
                            break "P";
                        }
                        Poll::Ready(None) => break "N",
                        Poll::Ready(Some(e)) => {
                            q.keys[*e.get_ref()] = None;
                            got.push((*e.get_ref(), rel(e.deadline())));
                        }
                    }
                };
                got.sort();
                format!("{}{}", got.iter().map(|(x, d)| format!("{x}@{d},")).collect::<String>(), end)
            }
            x => panic!("op {x}"),
        };
        out.push(r);
    }
    out.join(";")
}

/// Reads programs from one pipe and writes their results to another, a line each.
fn main() {
    use std::io::{BufRead, Write};
    let mut args = std::env::args().skip(1);
    let rx = std::fs::File::open(args.next().unwrap()).unwrap();
    let mut tx = std::fs::OpenOptions::new().write(true).open(args.next().unwrap()).unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    for prog in std::io::BufReader::new(rx).lines() {
        let prog = prog.unwrap();
        let res = std::panic::catch_unwind(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
            rt.block_on(tokio::task::unconstrained(run(prog)))
        });
        let line = res.unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()));
            format!("!{}", m.unwrap_or_default().replace('\n', " "))
        });
        if writeln!(tx, "{line}").is_err() {
            return;
        }
    }
}
