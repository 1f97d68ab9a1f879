//! In-memory link used from several threads; every user blocks by parking its own thread.
use postcard_rpc::host_client::{WireRx, WireSpawn, WireTx};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::thread::{self, JoinHandle, Thread};

struct Unpark(Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w = Waker::from(Arc::new(Unpark(thread::current())));
    let mut cx = Context::from_waker(&w);
    loop {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return v,
            Poll::Pending => thread::park(),
        }
    }
}
/// poll at most n times (parking in between only if `park`), then drop the future
pub fn poll_some<F: Future>(f: F, n: usize) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let w = Waker::from(Arc::new(Unpark(thread::current())));
    let mut cx = Context::from_waker(&w);
    for _ in 0..n {
        if let Poll::Ready(v) = Pin::new(&mut f).poll(&mut cx) {
            return Some(v);
        }
        thread::yield_now();
    }
    None
}

#[derive(Debug)]
pub struct LErr;
impl std::fmt::Display for LErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "link failure")
    }
}
impl std::error::Error for LErr {}

pub struct Chan<T> {
    q: VecDeque<T>,
    waker: Option<Waker>,
    pub closed: bool,
}
pub struct Q<T>(Mutex<Chan<T>>);
impl<T> Q<T> {
    pub fn new() -> Arc<Self> {
        Arc::new(Q(Mutex::new(Chan { q: VecDeque::new(), waker: None, closed: false })))
    }
    pub fn push(&self, t: T) {
        let w = {
            let mut g = self.0.lock().unwrap();
            g.q.push_back(t);
            g.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn close(&self) {
        let w = {
            let mut g = self.0.lock().unwrap();
            g.closed = true;
            g.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn is_closed(&self) -> bool {
        self.0.lock().unwrap().closed
    }
    /// None: closed and drained
    pub async fn pop(&self) -> Option<T> {
        std::future::poll_fn(|cx| {
            let mut g = self.0.lock().unwrap();
            if let Some(x) = g.q.pop_front() {
                return Poll::Ready(Some(x));
            }
            if g.closed {
                return Poll::Ready(None);
            }
            g.waker = Some(cx.waker().clone());
            Poll::Pending
        })
        .await
    }
}
/// frames sent by the client; the peer pops them. Closed when the client drops its side.
pub struct LTx(pub Arc<Q<Vec<u8>>>, pub Arc<Mutex<bool>>);
/// frames for the client. Closed by the peer = receive failure.
pub struct LRx(pub Arc<Q<Vec<u8>>>, pub Arc<Mutex<bool>>);
impl WireTx for LTx {
    type Error = LErr;
    async fn send(&mut self, data: Vec<u8>) -> Result<(), LErr> {
        if *self.1.lock().unwrap() {
            return Err(LErr);
        }
        self.0.push(data);
        Ok(())
    }
}
impl Drop for LTx {
    fn drop(&mut self) {
        self.0.close()
    }
}
impl WireRx for LRx {
    type Error = LErr;
    async fn receive(&mut self) -> Result<Vec<u8>, LErr> {
        self.0.pop().await.ok_or(LErr)
    }
}
impl Drop for LRx {
    fn drop(&mut self) {
        *self.1.lock().unwrap() = true;
    }
}
pub struct TSpawn(pub Arc<Mutex<Vec<JoinHandle<()>>>>);
impl WireSpawn for TSpawn {
    fn spawn(&mut self, fut: impl Future<Output = ()> + Send + 'static) {
        self.0.lock().unwrap().push(thread::spawn(move || block_on(fut)));
    }
}
