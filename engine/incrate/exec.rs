//! Deterministic single-threaded executor under the control of a choice sequence.

use std::{
    cell::RefCell,
    collections::BTreeMap,
    error::Error,
    future::Future,
    pin::Pin,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    task::{Context, Poll, Wake, Waker},
    time::{Duration, Instant, SystemTime},
};

use fusio::executor::{Executor, JoinHandle, NoopMutex, NoopRwLock, Timer};
use fusio::dynamic::MaybeSendFuture;
use futures::channel::oneshot;

use super::core::{Chooser, Fail, R, bad};

type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;

struct WakeFlag(AtomicBool);
impl Wake for WakeFlag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

struct TaskSlot {
    fut: Option<BoxFut>,
    flag: Arc<WakeFlag>,
    name: &'static str,
}

struct TimerSlot {
    at: Duration,
    waker: Waker,
    done: Arc<AtomicBool>,
}

#[derive(Default)]
struct Inner {
    tasks: BTreeMap<u64, TaskSlot>,
    next: u64,
    timers: Vec<TimerSlot>,
    now: Duration,
    steps: u64,
}

#[derive(Clone)]
pub struct VExec {
    inner: Arc<Mutex<Inner>>,
    base: Instant,
}

impl Default for VExec {
    fn default() -> Self {
        Self::new()
    }
}

pub struct VJoin<T>(oneshot::Receiver<T>);
impl<T: Send> JoinHandle<T> for VJoin<T> {
    async fn join(self) -> Result<T, Box<dyn Error + Send + Sync>> {
        self.0.await.map_err(|e| Box::new(e) as Box<dyn Error + Send + Sync>)
    }
}

impl Executor for VExec {
    type JoinHandle<T> = VJoin<T> where T: Send;
    type Mutex<T> = NoopMutex<T> where T: Send + Sync;
    type RwLock<T> = NoopRwLock<T> where T: Send + Sync;
    fn spawn<F>(&self, future: F) -> VJoin<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send,
    {
        let (tx, rx) = oneshot::channel();
        // F::Output is only Send (not 'static-bounded), so go through an unsafe-free wrapper.
        self.spawn_boxed("spawned", wrap(future, tx));
        VJoin(rx)
    }
    fn mutex<T: Send + Sync>(value: T) -> NoopMutex<T> {
        NoopMutex::new(value)
    }
    fn rw_lock<T: Send + Sync>(value: T) -> NoopRwLock<T> {
        NoopRwLock::new(value)
    }
}

fn wrap<F>(future: F, tx: oneshot::Sender<F::Output>) -> BoxFut
where
    F: Future + Send + 'static,
    F::Output: Send,
{
    Box::pin(async move {
        let out = future.await;
        let _ = tx.send(out);
    })
}

impl Timer for VExec {
    fn sleep(&self, dur: Duration) -> Pin<Box<dyn MaybeSendFuture<Output = ()>>> {
        let inner = self.inner.clone();
        let at = inner.lock().unwrap().now + dur;
        Box::pin(SleepFut { inner, at, done: None })
    }
    fn now(&self) -> Instant {
        self.base + self.inner.lock().unwrap().now
    }
    fn system_time(&self) -> SystemTime {
        SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000) + self.inner.lock().unwrap().now
    }
}

struct SleepFut {
    inner: Arc<Mutex<Inner>>,
    at: Duration,
    done: Option<Arc<AtomicBool>>,
}
impl Future for SleepFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let inner = self.inner.clone();
        let mut g = inner.lock().unwrap();
        if g.now >= self.at {
            if let Some(d) = self.done.take() {
                d.store(true, Ordering::SeqCst);
            }
            return Poll::Ready(());
        }
        if let Some(d) = self.done.take() {
            d.store(true, Ordering::SeqCst);
        }
        let d = Arc::new(AtomicBool::new(false));
        self.done = Some(d.clone());
        let at = self.at;
        g.timers.push(TimerSlot { at, waker: cx.waker().clone(), done: d });
        Poll::Pending
    }
}
impl Drop for SleepFut {
    fn drop(&mut self) {
        if let Some(d) = self.done.take() {
            d.store(true, Ordering::SeqCst);
        }
    }
}

/// Yield once to the scheduler.
pub struct YieldNow(bool);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}
pub fn yield_now() -> YieldNow {
    YieldNow(false)
}

thread_local! {
    static RT: RefCell<Option<Arc<tokio::runtime::Runtime>>> = const { RefCell::new(None) };
}

fn tokio_rt() -> Arc<tokio::runtime::Runtime> {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        if r.is_none() {
            *r = Some(Arc::new(
                tokio::runtime::Builder::new_current_thread().build().expect("tokio rt"),
            ));
        }
        r.as_ref().unwrap().clone()
    })
}

fn pump_tokio(rt: &tokio::runtime::Runtime) {
    let mut rounds = 0;
    while rt.metrics().num_alive_tasks() > 0 && rounds < 64 {
        rt.block_on(async {
            for _ in 0..8 {
                tokio::task::yield_now().await;
            }
        });
        rounds += 1;
    }
}

pub struct RunOpts {
    pub max_steps: u64,
}
impl Default for RunOpts {
    fn default() -> Self {
        RunOpts { max_steps: 2_000_000 }
    }
}

impl VExec {
    pub fn new() -> Self {
        VExec { inner: Arc::new(Mutex::new(Inner::default())), base: Instant::now() }
    }

    pub fn spawn_boxed(&self, name: &'static str, fut: BoxFut) -> u64 {
        let mut g = self.inner.lock().unwrap();
        let id = g.next;
        g.next += 1;
        g.tasks.insert(
            id,
            TaskSlot { fut: Some(fut), flag: Arc::new(WakeFlag(AtomicBool::new(true))), name },
        );
        id
    }

    /// Drop every task (a "process crash": in-flight work disappears).
    pub fn kill_all(&self) {
        loop {
            let t = {
                let mut g = self.inner.lock().unwrap();
                let Some(k) = g.tasks.keys().next().copied() else { break };
                g.tasks.remove(&k)
            };
            drop(t);
        }
        self.inner.lock().unwrap().timers.clear();
    }

    pub fn advance(&self, d: Duration) {
        self.inner.lock().unwrap().now += d;
    }

    /// Run `main` to completion with the default schedule.
    pub fn block_on<T: Send + 'static>(&self, main: impl Future<Output = T> + Send) -> R<T> {
        let mut ch = Chooser::new(vec![]);
        self.run(&mut ch, main)
    }

    /// Run `main` to completion, asking `ch` whenever more than one task is runnable.
    pub fn run<T: Send + 'static>(
        &self,
        ch: &mut Chooser,
        main: impl Future<Output = T> + Send,
    ) -> R<T> {
        let out: Arc<Mutex<Option<T>>> = Arc::new(Mutex::new(None));
        let slot = out.clone();
        let fut: Pin<Box<dyn Future<Output = ()> + Send + '_>> = Box::pin(async move {
            let v = main.await;
            *slot.lock().unwrap() = Some(v);
        });
        // SAFETY: the task is removed from the executor before this function returns (also on
        // unwind, through the guard below), so the borrow never outlives `main`.
        let fut: BoxFut = unsafe { std::mem::transmute(fut) };
        let id = self.spawn_boxed("main", fut);
        struct Guard<'a>(&'a VExec, u64);
        impl Drop for Guard<'_> {
            fn drop(&mut self) {
                let t = self.0.inner.lock().unwrap().tasks.remove(&self.1);
                drop(t);
            }
        }
        let _g = Guard(self, id);
        self.drive(ch, || out.lock().unwrap().is_some())?;
        let v = out.lock().unwrap().take();
        v.ok_or_else(|| Fail::Bad("main task lost".into()))
    }

    fn drive(&self, ch: &mut Chooser, done: impl Fn() -> bool) -> R {
        let rt = tokio_rt();
        let _enter = rt.enter();
        let mut last: Option<u64> = None;
        let mut idle_rounds = 0;
        let limit = RunOpts::default().max_steps;
        let mut steps = 0u64;
        loop {
            if done() {
                return Ok(());
            }
            steps += 1;
            if steps > limit {
                return bad("livelock: step horizon exceeded");
            }
            let mut ready: Vec<u64> = {
                let g = self.inner.lock().unwrap();
                g.tasks
                    .iter()
                    .filter(|(_, t)| t.fut.is_some() && t.flag.0.load(Ordering::SeqCst))
                    .map(|(k, _)| *k)
                    .collect()
            };
            if ready.is_empty() {
                pump_tokio(&rt);
                let any = {
                    let g = self.inner.lock().unwrap();
                    g.tasks.values().any(|t| t.fut.is_some() && t.flag.0.load(Ordering::SeqCst))
                };
                if any {
                    continue;
                }
                // advance virtual time
                let mut g = self.inner.lock().unwrap();
                g.timers.retain(|t| !t.done.load(Ordering::SeqCst));
                if let Some(min) = g.timers.iter().map(|t| t.at).min() {
                    if min > g.now {
                        g.now = min;
                    }
                    let now = g.now;
                    let mut wake = vec![];
                    g.timers.retain(|t| {
                        if t.at <= now {
                            wake.push(t.waker.clone());
                            false
                        } else {
                            true
                        }
                    });
                    drop(g);
                    for w in wake {
                        w.wake();
                    }
                    continue;
                }
                drop(g);
                idle_rounds += 1;
                if idle_rounds > 3 {
                    let names: Vec<_> = self
                        .inner
                        .lock()
                        .unwrap()
                        .tasks
                        .iter()
                        .map(|(k, t)| format!("{}#{}", t.name, k))
                        .collect();
                    return bad(format!("deadlock: no runnable task among {names:?}"));
                }
                continue;
            }
            idle_rounds = 0;
            // canonical order: the running task first, then ascending ids
            if let Some(l) = last {
                if let Some(p) = ready.iter().position(|x| *x == l) {
                    let x = ready.remove(p);
                    ready.insert(0, x);
                }
            }
            let pick = if ready.len() > 1 { ready[ch.choose(ready.len())] } else { ready[0] };
            last = Some(pick);
            let (mut fut, flag) = {
                let mut g = self.inner.lock().unwrap();
                let t = g.tasks.get_mut(&pick).unwrap();
                t.flag.0.store(false, Ordering::SeqCst);
                (t.fut.take().unwrap(), t.flag.clone())
            };
            let waker = Waker::from(flag);
            let mut cx = Context::from_waker(&waker);
            let r = fut.as_mut().poll(&mut cx);
            let mut g = self.inner.lock().unwrap();
            g.steps += 1;
            match r {
                Poll::Ready(()) => {
                    g.tasks.remove(&pick);
                    drop(g);
                    drop(fut);
                }
                Poll::Pending => {
                    if let Some(t) = g.tasks.get_mut(&pick) {
                        t.fut = Some(fut);
                    } else {
                        drop(g);
                        drop(fut);
                    }
                }
            }
            if rt.metrics().num_alive_tasks() > 0 {
                pump_tokio(&rt);
            }
        }
    }

    pub fn steps(&self) -> u64 {
        self.inner.lock().unwrap().steps
    }
}

/// The executor is single-threaded; futures that are not `Send` may run on it.
pub struct AssumeSend<F>(pub F);
unsafe impl<F> Send for AssumeSend<F> {}
impl<F: Future> Future for AssumeSend<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}
