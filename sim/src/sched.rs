//! Threads that run one at a time: every device operation is a point at which the scheduler
//! decides, from the single source of choices, who goes on.

use crate::choice::Src;
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

pub struct State {
    pub src: Src,
    /// who may run
    turn: usize,
    alive: Vec<bool>,
    /// one of this many points is a switch
    pub rate: u64,
    pub switches: u64,
    pub points: u64,
    pub seq: u64,
    pub trace: Vec<(usize, u64)>,
}

pub struct Sched {
    st: Mutex<State>,
    cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(usize, Arc<Sched>)>> = const { RefCell::new(None) };
}

/// A possible switch, does nothing outside of scheduled threads.
pub fn point() {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((id, s)) = me {
        s.yield_point(id);
    }
}

/// Runs something with the schedulers state (of the running thread).
pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let me = ME.with(|m| m.borrow().clone());
    let (_, s) = me.expect("not a scheduled thread");
    let mut st = s.st.lock().unwrap_or_else(|e| e.into_inner());
    f(&mut st)
}

impl State {
    fn pick(&mut self, cur: Option<usize>) {
        let alive: Vec<usize> =
            self.alive.iter().enumerate().filter(|(_, a)| **a).map(|(i, _)| i).collect();
        if alive.is_empty() {
            return;
        }
        let next = match cur {
            Some(c) if alive.len() > 1 => {
                let rate = self.rate;
                if self.src.chance(1, rate) {
                    let others: Vec<usize> = alive.iter().copied().filter(|i| *i != c).collect();
                    *self.src.pick(&others)
                } else {
                    c
                }
            }
            Some(c) => c,
            None => *self.src.pick(&alive),
        };
        if cur != Some(next) {
            self.switches += 1;
            let p = self.points;
            self.trace.push((next, p));
        }
        self.turn = next;
    }
}

impl Sched {
    pub fn new(src: Src, threads: usize, rate: u64) -> Arc<Self> {
        let mut st = State {
            src,
            turn: 0,
            alive: vec![true; threads],
            rate,
            switches: 0,
            points: 0,
            seq: 0,
            trace: vec![],
        };
        st.pick(None);
        Arc::new(Sched { st: Mutex::new(st), cv: Condvar::new() })
    }

    fn yield_point(&self, id: usize) {
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        st.points += 1;
        st.pick(Some(id));
        if st.turn != id {
            self.cv.notify_all();
            while st.turn != id {
                st = self.cv.wait(st).unwrap_or_else(|e| e.into_inner());
            }
        }
    }

    /// Runs the bodies, each in a thread of its own, and gives the source back.
    pub fn run(self: Arc<Self>, bodies: Vec<Box<dyn FnOnce() + Send>>) -> State {
        std::thread::scope(|sc| {
            for (id, body) in bodies.into_iter().enumerate() {
                let me = self.clone();
                sc.spawn(move || {
                    {
                        let mut st = me.st.lock().unwrap_or_else(|e| e.into_inner());
                        while st.turn != id {
                            st = me.cv.wait(st).unwrap_or_else(|e| e.into_inner());
                        }
                    }
                    ME.with(|m| *m.borrow_mut() = Some((id, me.clone())));
                    crate::env::quiet_panics();
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                    ME.with(|m| *m.borrow_mut() = None);
                    let mut st = me.st.lock().unwrap_or_else(|e| e.into_inner());
                    st.alive[id] = false;
                    st.pick(None);
                    drop(st);
                    me.cv.notify_all();
                });
            }
        });
        match Arc::try_unwrap(self) {
            Ok(s) => s.st.into_inner().unwrap_or_else(|e| e.into_inner()),
            Err(_) => unreachable!("scheduler still in use"),
        }
    }
}
