#![allow(dead_code)]
//! A scripted in-memory element queue: every storage operation is numbered, and can be made to
//! fail, or to hang (stay pending for ever, so that the caller's future can be dropped there).
use cfg_noodle::{Crc32, Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData};
use std::num::NonZeroU32;
use std::sync::{Arc, Mutex};

#[derive(Clone, PartialEq, Debug)]
pub enum It {
    Start(u32),
    Data(Vec<u8>),
    End(u32, u32),
    Garbage,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Iter,
    Next,
    Push,
    Inval,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// the operation returns an error and has no effect
    Err,
    /// the operation hangs before it had any effect
    HangBefore,
    /// the operation has its effect, then hangs
    HangAfter,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct SimErr;

#[derive(Default)]
pub struct Inner {
    pub items: Vec<(u64, It)>,
    ctr: u64,
    pub counts: [usize; 4],
    /// (operation, how many of that operation from now on succeed first, fault)
    pub faults: Vec<(Op, usize, Fault)>,
    pub log: Vec<String>,
    /// called (with the inner state) on every push
    pub corrupt_pushes: bool,
}

#[derive(Clone, Default)]
pub struct Sim(pub Arc<Mutex<Inner>>);

fn fault(inner: &Mutex<Inner>, op: Op) -> Option<Fault> {
    let mut g = inner.lock().unwrap();
    g.counts[op as usize] += 1;
    for i in 0..g.faults.len() {
        if g.faults[i].0 == op {
            if g.faults[i].1 == 0 {
                let f = g.faults[i].2;
                g.faults.remove(i);
                return Some(f);
            }
            g.faults[i].1 -= 1;
        }
    }
    None
}

impl Sim {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&self, it: It) {
        let mut g = self.0.lock().unwrap();
        g.ctr += 1;
        let c = g.ctr;
        g.items.push((c, it));
    }
    pub fn inject(&self, op: Op, after: usize, f: Fault) {
        self.0.lock().unwrap().faults.push((op, after, f));
    }
    pub fn clear_faults(&self) {
        self.0.lock().unwrap().faults.clear();
    }
    pub fn items(&self) -> Vec<It> {
        self.0.lock().unwrap().items.iter().map(|x| x.1.clone()).collect()
    }
    pub fn count(&self, op: Op) -> usize {
        self.0.lock().unwrap().counts[op as usize]
    }
    /// add a whole well-formed record holding one u64 per key
    pub fn add_record(&self, seq: u32, kvs: &[(&str, u64)]) {
        let mut crc = Crc32::new();
        self.add(It::Start(seq));
        for (k, v) in kvs {
            let d = kv(k, *v);
            crc.update(&d[1..]);
            self.add(It::Data(d));
        }
        self.add(It::End(seq, crc.finalize()));
    }
    pub fn crc_of(kvs: &[(&str, u64)]) -> u32 {
        let mut crc = Crc32::new();
        for (k, v) in kvs {
            crc.update(&kv(k, *v)[1..]);
        }
        crc.finalize()
    }
    /// The newest well-formed record (independent reference decoder): (seq, key/value pairs)
    pub fn newest(&self) -> Option<(u32, Vec<(String, u64)>)> {
        let mut best: Option<(u32, Vec<(String, u64)>)> = None;
        let mut cur: Option<(u32, Vec<Vec<u8>>)> = None;
        for it in self.items() {
            match it {
                It::Start(s) => cur = Some((s, vec![])),
                It::Data(d) => {
                    if let Some(c) = cur.as_mut() {
                        c.1.push(d)
                    }
                }
                It::Garbage => cur = None,
                It::End(s, crc) => {
                    if let Some((s0, ds)) = cur.take() {
                        let mut c = Crc32::new();
                        ds.iter().for_each(|d| c.update(&d[1..]));
                        if s0 == s && c.finalize() == crc && best.as_ref().is_none_or(|b| b.0 < s) {
                            best = Some((s, ds.iter().map(|d| unkv(d)).collect()));
                        }
                    }
                }
            }
        }
        best
    }
}

pub fn kv(k: &str, v: u64) -> Vec<u8> {
    let mut d = vec![1u8];
    let mut buf = [0u8; 512];
    let mut c = cfg_noodle::minicbor::encode::write::Cursor::new(buf.as_mut_slice());
    cfg_noodle::minicbor::encode(k, &mut c).unwrap();
    cfg_noodle::minicbor::encode(v, &mut c).unwrap();
    let n = c.position();
    d.extend_from_slice(&buf[..n]);
    d
}
pub fn unkv(d: &[u8]) -> (String, u64) {
    let mut dec = cfg_noodle::minicbor::Decoder::new(&d[1..]);
    let k: String = dec.str().unwrap().to_string();
    let v = dec.u64().unwrap_or(u64::MAX);
    (k, v)
}

async fn hang<T>() -> T {
    std::future::pending::<T>().await
}

pub struct SimIter {
    sto: Arc<Mutex<Inner>>,
    remain: std::collections::VecDeque<(u64, It)>,
}
pub struct SimNode {
    sto: Arc<Mutex<Inner>>,
    item: (u64, It),
}

impl NdlDataStorage for Sim {
    type Iter<'this> = SimIter;
    type Error = SimErr;
    async fn iter_elems<'this>(&'this mut self) -> Result<SimIter, SimErr> {
        match fault(&self.0, Op::Iter) {
            Some(Fault::Err) => return Err(SimErr),
            Some(_) => hang().await,
            None => {}
        }
        let remain = self.0.lock().unwrap().items.iter().cloned().collect();
        Ok(SimIter { sto: self.0.clone(), remain })
    }
    async fn push(&mut self, data: &Elem<'_>) -> Result<usize, SimErr> {
        let f = fault(&self.0, Op::Push);
        if f == Some(Fault::Err) {
            return Err(SimErr);
        }
        if f == Some(Fault::HangBefore) {
            hang::<()>().await;
        }
        let it = match data {
            Elem::Start { seq_no } => It::Start(seq_no.get()),
            Elem::Data { data } => {
                let mut v = vec![data.hdr()];
                v.extend_from_slice(data.key_val());
                if self.0.lock().unwrap().corrupt_pushes {
                    let n = v.len();
                    v[n - 1] ^= 1;
                }
                It::Data(v)
            }
            Elem::End { seq_no, calc_crc } => It::End(seq_no.get(), *calc_crc),
        };
        self.add(it);
        if f == Some(Fault::HangAfter) {
            hang::<()>().await;
        }
        Ok(9)
    }
    const MAX_ELEM_SIZE: usize = 64;
}

impl NdlElemIter for SimIter {
    type Item<'this, 'buf>
        = SimNode
    where
        Self: 'this,
        Self: 'buf;
    type Error = SimErr;
    async fn next<'iter, 'buf>(&'iter mut self, _b: &'buf mut [u8]) -> Result<Option<SimNode>, SimErr>
    where
        Self: 'buf,
        Self: 'iter,
    {
        match fault(&self.sto, Op::Next) {
            Some(Fault::Err) => return Err(SimErr),
            Some(_) => hang().await,
            None => {}
        }
        Ok(self.remain.pop_front().map(|item| SimNode { sto: self.sto.clone(), item }))
    }
}

impl NdlElemIterNode for SimNode {
    type Error = SimErr;
    fn data(&self) -> Option<Elem<'_>> {
        Some(match &self.item.1 {
            It::Garbage => return None,
            It::Start(s) => Elem::Start { seq_no: NonZeroU32::new(*s)? },
            It::Data(d) => Elem::Data { data: SerData::from_existing(d)? },
            It::End(s, c) => Elem::End { seq_no: NonZeroU32::new(*s)?, calc_crc: *c },
        })
    }
    fn len(&self) -> usize {
        9
    }
    async fn invalidate(self) -> Result<(), SimErr> {
        let f = fault(&self.sto, Op::Inval);
        match f {
            Some(Fault::Err) => return Err(SimErr),
            Some(Fault::HangBefore) => hang().await,
            _ => {}
        }
        let id = self.item.0;
        self.sto.lock().unwrap().items.retain(|i| i.0 != id);
        if f == Some(Fault::HangAfter) {
            hang::<()>().await;
        }
        Ok(())
    }
}

/// Poll a future a bounded number of times; `None` if it is still pending (it is then dropped).
pub fn poll_some<F: Future>(f: F, n: usize) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(w);
    for _ in 0..n {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
    }
    None
}
pub fn now<F: Future>(f: F) -> F::Output {
    poll_some(f, 3).expect("future did not complete")
}
pub use std::future::Future;

/// Run a future on an embassy executor (embassy-time's std driver only works there), for at most
/// `secs` seconds. `None` if it did not complete (or panicked).
pub fn embassy_run<F, T>(secs: u64, mk: impl FnOnce() -> F + Send + 'static) -> Option<T>
where
    F: Future<Output = T> + 'static,
    T: Send + 'static,
{
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let ex: &'static mut embassy_executor::Executor = Box::leak(Box::new(embassy_executor::Executor::new()));
        ex.run(move |sp| {
            let f = mk();
            spawn_on(sp, async move {
                let _ = tx.send(f.await);
            });
        });
    });
    rx.recv_timeout(std::time::Duration::from_secs(secs)).ok()
}
fn spawn_on<F: Future<Output = ()> + 'static>(sp: embassy_executor::Spawner, f: F) {
    let st: &'static embassy_executor::raw::TaskStorage<F> = Box::leak(Box::new(embassy_executor::raw::TaskStorage::new()));
    let tok = st.spawn(move || f);
    #[allow(clippy::let_unit_value)]
    let _ = sp.spawn(tok.unwrap_tok());
}
trait UnwrapTok { type T; fn unwrap_tok(self) -> Self::T; }
impl<S> UnwrapTok for embassy_executor::SpawnToken<S> { type T = Self; fn unwrap_tok(self) -> Self { self } }
