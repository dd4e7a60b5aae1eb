//! The standard library with one change: in which order a HashMap or HashSet hands out its
//! elements is decided by the explorer in `ctl`, not by a random seed. Everything a program can
//! see of an order (iter, keys, values, drain, into_iter, retain, Debug, the set operations) is one event.
pub use std::*;

pub mod ctl {
    use std::cell::RefCell;
    /// what happened at one iteration: how many elements there were
    #[derive(Default)]
    struct C { on: bool, n: Vec<usize>, plan: Vec<(usize, Vec<usize>)> }
    thread_local! { static C: RefCell<C> = RefCell::new(C::default()); }
    /// run from here on with the given events permuted (event number, permutation)
    pub fn begin(plan: Vec<(usize, Vec<usize>)>) { C.with(|c| *c.borrow_mut() = C { on: true, n: vec![], plan }) }
    /// the sizes of the iterations met since `begin` (those of two elements or more)
    pub fn end() -> Vec<usize> { C.with(|c| { let mut c = c.borrow_mut(); c.on = false; std::mem::take(&mut c.n) }) }
    pub fn order<T>(v: Vec<T>) -> Vec<T> {
        if v.len() < 2 { return v }
        let p = C.try_with(|c| {
            let Ok(mut c) = c.try_borrow_mut() else { return None };
            if !c.on { return None }
            let k = c.n.len();
            c.n.push(v.len());
            c.plan.iter().find(|(e, p)| *e == k && p.len() == v.len()).map(|(_, p)| p.clone())
        });
        let Ok(Some(p)) = p else { return v };
        let mut s: Vec<Option<T>> = v.into_iter().map(Some).collect();
        p.iter().map(|&i| s[i].take().expect("permutation")).collect()
    }
}

pub mod collections {
    pub use std::collections::*;
    pub mod hash_map { pub use super::HashMap; pub use std::collections::hash_map::{Entry, OccupiedEntry, VacantEntry, DefaultHasher, RandomState}; }
    pub mod hash_set { pub use super::HashSet; }

    use super::ctl::order;
    use std::borrow::Borrow;
    use std::collections::hash_map::DefaultHasher;
    use std::fmt;
    use std::hash::{BuildHasherDefault, Hash};
    use std::ops::{Deref, DerefMut};
    use std::vec::IntoIter;
    type B = BuildHasherDefault<DefaultHasher>;

    pub struct HashMap<K, V>(std::collections::HashMap<K, V, B>);
    impl<K, V> HashMap<K, V> {
        pub fn new() -> Self { Self(Default::default()) }
        pub fn with_capacity(n: usize) -> Self { Self(std::collections::HashMap::with_capacity_and_hasher(n, B::default())) }
        pub fn iter(&self) -> IntoIter<(&K, &V)> { order(self.0.iter().collect()).into_iter() }
        pub fn iter_mut(&mut self) -> IntoIter<(&K, &mut V)> { order(self.0.iter_mut().collect()).into_iter() }
        pub fn keys(&self) -> IntoIter<&K> { order(self.0.keys().collect()).into_iter() }
        pub fn values(&self) -> IntoIter<&V> { order(self.0.values().collect()).into_iter() }
        pub fn values_mut(&mut self) -> IntoIter<&mut V> { order(self.0.values_mut().collect()).into_iter() }
        pub fn into_keys(self) -> IntoIter<K> { order(self.0.into_keys().collect()).into_iter() }
        pub fn into_values(self) -> IntoIter<V> { order(self.0.into_values().collect()).into_iter() }
        pub fn drain(&mut self) -> IntoIter<(K, V)> { order(self.0.drain().collect()).into_iter() }
    }
    impl<K: Eq + Hash, V> HashMap<K, V> {
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
            let all = order(self.0.drain().collect());
            for (k, mut v) in all { if f(&k, &mut v) { self.0.insert(k, v); } }
        }
    }
    impl<K, V> Deref for HashMap<K, V> { type Target = std::collections::HashMap<K, V, B>; fn deref(&self) -> &Self::Target { &self.0 } }
    impl<K, V> DerefMut for HashMap<K, V> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
    impl<K, V> Default for HashMap<K, V> { fn default() -> Self { Self::new() } }
    impl<K: Clone, V: Clone> Clone for HashMap<K, V> { fn clone(&self) -> Self { Self(self.0.clone()) } }
    impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
    impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() }
    }
    impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { Self(i.into_iter().collect()) } }
    impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { self.0.extend(i) } }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
    impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { order(self.0.into_iter().collect()).into_iter() } }
    impl<'a, K, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = IntoIter<(&'a K, &'a V)>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
    impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> { type Item = (&'a K, &'a mut V); type IntoIter = IntoIter<(&'a K, &'a mut V)>; fn into_iter(self) -> Self::IntoIter { self.iter_mut() } }
    impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V> std::ops::Index<&Q> for HashMap<K, V> { type Output = V; fn index(&self, k: &Q) -> &V { &self.0[k] } }

    pub struct HashSet<T>(std::collections::HashSet<T, B>);
    impl<T> HashSet<T> {
        pub fn new() -> Self { Self(Default::default()) }
        pub fn with_capacity(n: usize) -> Self { Self(std::collections::HashSet::with_capacity_and_hasher(n, B::default())) }
        pub fn iter(&self) -> IntoIter<&T> { order(self.0.iter().collect()).into_iter() }
        pub fn drain(&mut self) -> IntoIter<T> { order(self.0.drain().collect()).into_iter() }
    }
    impl<T: Eq + Hash> HashSet<T> {
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
            let all = order(self.0.drain().collect());
            for v in all { if f(&v) { self.0.insert(v); } }
        }
        pub fn union<'a>(&'a self, o: &'a Self) -> IntoIter<&'a T> { order(self.0.union(&o.0).collect()).into_iter() }
        pub fn intersection<'a>(&'a self, o: &'a Self) -> IntoIter<&'a T> { order(self.0.intersection(&o.0).collect()).into_iter() }
        pub fn difference<'a>(&'a self, o: &'a Self) -> IntoIter<&'a T> { order(self.0.difference(&o.0).collect()).into_iter() }
        pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> IntoIter<&'a T> { order(self.0.symmetric_difference(&o.0).collect()).into_iter() }
        pub fn is_subset(&self, o: &Self) -> bool { self.0.is_subset(&o.0) }
        pub fn is_superset(&self, o: &Self) -> bool { self.0.is_superset(&o.0) }
        pub fn is_disjoint(&self, o: &Self) -> bool { self.0.is_disjoint(&o.0) }
    }
    impl<T> Deref for HashSet<T> { type Target = std::collections::HashSet<T, B>; fn deref(&self) -> &Self::Target { &self.0 } }
    impl<T> DerefMut for HashSet<T> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
    impl<T> Default for HashSet<T> { fn default() -> Self { Self::new() } }
    impl<T: Clone> Clone for HashSet<T> { fn clone(&self) -> Self { Self(self.0.clone()) } }
    impl<T: Eq + Hash> PartialEq for HashSet<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl<T: Eq + Hash> Eq for HashSet<T> {}
    impl<T: fmt::Debug> fmt::Debug for HashSet<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() } }
    impl<T: Eq + Hash> FromIterator<T> for HashSet<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { Self(i.into_iter().collect()) } }
    impl<T: Eq + Hash> Extend<T> for HashSet<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { self.0.extend(i) } }
    impl<'a, T: Eq + Hash + Copy + 'a> Extend<&'a T> for HashSet<T> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) { self.0.extend(i) } }
    impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> { fn from(a: [T; N]) -> Self { a.into_iter().collect() } }
    impl<T> IntoIterator for HashSet<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> Self::IntoIter { order(self.0.into_iter().collect()).into_iter() } }
    impl<'a, T> IntoIterator for &'a HashSet<T> { type Item = &'a T; type IntoIter = IntoIter<&'a T>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
}
