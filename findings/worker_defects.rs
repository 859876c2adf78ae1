use cfg_noodle::{*, worker_task::default_worker_task};
use mutex::raw_impls::cs::CriticalSectionRawMutex as M;
use embassy_time::{Duration, Timer};
use std::sync::Arc;
use maitake_sync::WaitQueue;
#[path = "/verif/tools/demo/support.rs"]
mod support;
use support::*;
type L = StorageList<M, 3>;
fn list() -> &'static L { Box::leak(Box::new(StorageList::new())) }
fn node(k: &'static str) -> &'static StorageListNode<u64> { Box::leak(Box::new(StorageListNode::new(k))) }

// H: a write signal in debounce when a read is selected
#[test]
fn h_lost_write() {
    let r = embassy_run(20, || async {
    let s = Sim::new();
    let l = list(); let n = node("k"); let n2 = node("k2");
        let mut buf = [0u8; 64];
        let stop = Arc::new(WaitQueue::new());
        let st = stop.clone();
        let w = default_worker_task(l, s.clone(), async move { let _ = st.wait().await; }, &mut buf);
        let s2=s.clone();
        let t = async {
            let mut h = n.attach(l).await.unwrap();
            h.write(&5).await.unwrap();
            Timer::after(Duration::from_millis(300)).await;
            let _h2 = n2.attach(l).await.unwrap();
            Timer::after(Duration::from_millis(11500)).await;
            s2.newest()
        };
        embassy_futures::select::select(w,t).await;
        s.newest()
    });
    assert!(r.clone().flatten().is_some_and(|r| r.1.contains(&("k".into(), 5))), "{r:?}");
}
#[test]
fn f_stop_during_gc() {
    let r = embassy_run(20, || async {
    let s = Sim::new();
    s.add(It::Garbage);
    s.add_record(1, &[("k", 1)]);
    let l = list(); let n = node("k");
        let mut buf = [0u8; 64];
        let stop = Arc::new(WaitQueue::new());
        let st = stop.clone();
        let w = default_worker_task(l, s.clone(), async move { let _ = st.wait().await; }, &mut buf);
        let t = async {
            let mut h = n.attach(l).await.unwrap();
            h.write(&5).await.unwrap();
            s.inject(Op::Inval, 0, Fault::HangBefore);
            Timer::after(Duration::from_millis(10300)).await;
            stop.close();
        };
        embassy_futures::join::join(w, t).await;
        s.newest()
    });
    assert!(r.clone().flatten().is_some_and(|r| r.1.contains(&("k".into(), 5))), "{r:?}");
}
