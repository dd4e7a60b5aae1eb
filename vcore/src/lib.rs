pub mod tensor; pub mod proto; pub mod refi; pub mod report; pub mod fam; pub mod fam2;
pub mod prog;
pub mod topo;
pub mod names;
pub mod shp;
pub mod fan;
pub mod judge;
pub mod par;
pub mod ctl; pub mod wts;
#[cfg(test)]
mod tests {
    #[test]
    fn count() {
        let v = crate::fam2::all();
        let mut m = std::collections::BTreeMap::new();
        for c in &v { *m.entry((c.group, c.lvl)).or_insert(0) += 1; }
        println!("{} {:?}", v.len(), m); let mut names = std::collections::HashSet::new(); for c in &v { if !names.insert(c.name.clone()) { println!("duplicate {}", c.name); } } assert_eq!(crate::fam::UNSUP.load(std::sync::atomic::Ordering::Relaxed), 0);
    }
}
