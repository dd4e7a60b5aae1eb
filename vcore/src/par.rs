//! Parallel map and scratch directories.
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
/// Map over all items on all cores, keeping order.
pub fn par<A: Sync, R: Send>(items: &[A], f: impl Fn(&A) -> R + Sync) -> Vec<R> {
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let next = AtomicUsize::new(0);
    let mut out: Vec<(usize, R)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|_| std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, || {
            let mut v = vec![];
            loop {
                let i = next.fetch_add(16, Ordering::Relaxed);
                if i >= items.len() { break v; }
                for k in i..(i + 16).min(items.len()) { v.push((k, f(&items[k]))); }
            }
        }).unwrap()).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    out.sort_by_key(|x| x.0);
    out.into_iter().map(|x| x.1).collect()
}
/// A scratch directory removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let p = base.join(format!("vscratch-{tag}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p.canonicalize().unwrap())
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
