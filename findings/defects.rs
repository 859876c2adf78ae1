use cfg_noodle::{error::*, *};
use mutex::raw_impls::cs::CriticalSectionRawMutex as M;
#[path = "/verif/tools/demo/support.rs"]
mod support;
use support::*;

type L = StorageList<M, 3>;
fn list() -> &'static L { Box::leak(Box::new(StorageList::new())) }
fn node(k: &'static str) -> &'static StorageListNode<u64> { Box::leak(Box::new(StorageListNode::new(k))) }
fn attach(l: &'static L, n: &'static StorageListNode<u64>, s: &mut Sim) -> Option<StorageListNodeHandle<u64, M, 3>> {
    let mut f = Box::pin(n.attach(l));
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(w);
    assert!(f.as_mut().poll(&mut cx).is_pending());
    let mut buf = [0u8; 64];
    let _ = now(l.process_reads(s, &mut buf));
    match f.as_mut().poll(&mut cx) { std::task::Poll::Ready(v) => Some(v.unwrap()), _ => None }
}

#[test]
fn a_partial_scan() {
    let mut s = Sim::new();
    s.add_record(1, &[("k", 1)]);
    s.add_record(2, &[("k", 2)]);
    let l = list(); let n = node("k");
    s.inject(Op::Next, 4, Fault::Err);
    let mut buf = [0u8; 64];
    let mut f = Box::pin(n.attach(l));
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(w);
    assert!(f.as_mut().poll(&mut cx).is_pending());
    assert!(now(l.process_reads(&mut s, &mut buf)).is_err());
    now(l.process_reads(&mut s, &mut buf)).unwrap();
    let std::task::Poll::Ready(h) = f.as_mut().poll(&mut cx) else { panic!() };
    assert_eq!(h.unwrap().load(), 2);
}
#[test]
fn b_failed_write_retry() {
    let mut s = Sim::new();
    let l = list(); let n = node("k");
    let mut buf = [0u8; 64];
    let mut h = attach(l, n, &mut s).unwrap();
    now(h.write(&7)).unwrap();
    s.inject(Op::Push, 1, Fault::Err);
    assert!(now(l.process_writes(&mut s, &mut buf)).is_err());
    for _ in 0..3 {
        let r = now(l.process_writes(&mut s, &mut buf));
        if r.is_ok() { break }
        let _ = now(l.process_garbage(&mut s, &mut buf));
    }
    assert_eq!(s.newest(), Some((1, vec![("k".into(), 7)])));
    assert_eq!(s.items().len(), 3, "{:?}", s.items());
    assert_eq!(s.count(Op::Push), 5);
}
#[test]
fn c_only_garbage() {
    let mut s = Sim::new();
    s.add(It::Start(1));
    s.add(It::Data(kv("k", 5)));
    let l = list(); let n = node("k");
    let mut buf = [0u8; 64];
    let mut h = attach(l, n, &mut s).unwrap();
    now(h.write(&7)).unwrap();
    for _ in 0..3 {
        now(l.process_garbage(&mut s, &mut buf)).unwrap();
        if now(l.process_writes(&mut s, &mut buf)).is_ok() { break }
    }
    assert_eq!(s.newest(), Some((1, vec![("k".into(), 7)])));
    assert!(s.items().len() == 3, "{:?}", s.items());
}
#[test]
fn d_range_past_end() {
    let mut s = Sim::new();
    let l = list(); let n = node("k");
    let mut buf = [0u8; 64];
    let mut h = attach(l, n, &mut s).unwrap();
    now(h.write(&7)).unwrap();
    now(l.process_garbage(&mut s, &mut buf)).unwrap();
    now(l.process_writes(&mut s, &mut buf)).unwrap();
    s.add(It::Data(kv("k", 3)));
    // element right after the record isn't part of it
    now(l.process_garbage(&mut s, &mut buf)).unwrap();
    assert_eq!(s.items().len(), 3, "{:?}", s.items());
}
#[test]
fn d2_range_past_end() {
    let mut s = Sim::new();
    let l = list(); let n = node("k");
    let mut buf = [0u8; 64];
    let mut h = attach(l, n, &mut s).unwrap();
    now(h.write(&7)).unwrap();
    s.inject(Op::Iter, 0, Fault::Err);
    assert!(now(l.process_writes(&mut s, &mut buf)).is_err());
    for _ in 0..3 {
        let r = now(l.process_writes(&mut s, &mut buf));
        let _ = now(l.process_garbage(&mut s, &mut buf));
        if r.is_ok() { break }
    }
    assert_eq!(s.items().len(), 3, "{:?}", s.items());
}
#[test]
fn e_cancel_attach() {
    let mut s = Sim::new();
    let l = list(); let n = node("k");
    assert!(poll_some(n.attach(l), 2).is_none());
    assert!(attach(l, n, &mut s).is_some());
}
#[test]
fn e2_detach_after_cancel() {
    let l = list(); let n = node("k");
    assert!(poll_some(n.attach(l), 2).is_none());
    now(n.detach(l)).unwrap();
}
#[test]
fn g_too_large() {
    let mut s = Sim::new();
    let l = list();
    let n: &'static StorageListNode<String> = Box::leak(Box::new(StorageListNode::new("k")));
    let mut f = Box::pin(n.attach(l));
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(w);
    assert!(f.as_mut().poll(&mut cx).is_pending());
    let mut buf = [0u8; 64];
    let _ = now(l.process_reads(&mut s, &mut buf));
    let std::task::Poll::Ready(Ok(mut h)) = f.as_mut().poll(&mut cx) else { panic!() };
    now(h.write(&"x".repeat(100))).unwrap();
    assert_eq!(now(l.process_writes(&mut s, &mut buf)).unwrap_err(), LoadStoreError::AppError(Error::Serialization));
}
#[test]
fn j_extract_read_error() {
    let mut s = Sim::new();
    s.add_record(1, &[("k", 1)]);
    let l = list(); let n = node("k");
    let mut buf = [0u8; 64];
    assert!(poll_some(n.attach(l), 2).is_none());
    s.inject(Op::Next, 4, Fault::Err);
    assert_eq!(now(l.process_reads(&mut s, &mut buf)).unwrap_err(), LoadStoreError::FlashRead(SimErr));
}
