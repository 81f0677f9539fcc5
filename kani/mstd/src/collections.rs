//! HashMap and HashSet as lists of distinct keys.
pub use std::collections::*;
use std::borrow::Borrow;
use std::{fmt, mem};

pub mod hash_map {
    pub use super::HashMap;
}
pub mod hash_set {
    pub use super::HashSet;
}

#[derive(Clone)]
pub struct HashMap<K, V> {
    // what a map holds is never given back
    items: mem::ManuallyDrop<Vec<(K, V)>>,
}
fn held<K, V>(v: Vec<(K, V)>) -> HashMap<K, V> { HashMap { items: mem::ManuallyDrop::new(v) } }
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self { held(Vec::new()) }
    /// a map of distinct keys
    pub fn verif_of<const N: usize>(a: [(K, V); N]) -> Self { held(Vec::from(a)) }
    /// an empty map that is recognised by an address
    pub fn verif_token(p: usize) -> Self { held(unsafe { Vec::from_raw_parts(p as *mut (K, V), 0, 0) }) }
    pub fn verif_mark(&self) -> usize { self.items.as_ptr() as usize }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn len(&self) -> usize { self.items.len() }
    pub fn is_empty(&self) -> bool { self.items.is_empty() }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> { self.items.iter().map(|(k, v)| (k, v)) }
    pub fn keys(&self) -> impl Iterator<Item = &K> { self.items.iter().map(|(k, _)| k) }
    pub fn values(&self) -> impl Iterator<Item = &V> { self.items.iter().map(|(_, v)| v) }
    pub fn clear(&mut self) { self.items.clear() }
}
impl<K: Eq, V> HashMap<K, V> {
    fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
        let mut i = 0;
        while i < self.items.len() {
            if self.items[i].0.borrow() == k { return Some(i); }
            i += 1;
        }
        None
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => Some(std::mem::replace(&mut self.items[i].1, v)),
            None => { self.items.push((k, v)); None }
        }
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        match self.find(k) { Some(i) => Some(&self.items[i].1), None => None }
    }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        match self.find(k) { Some(i) => Some(&mut self.items[i].1), None => None }
    }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.find(k).is_some() }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
        match self.find(k) { Some(i) => Some(self.items.swap_remove(i).1), None => None }
    }
}
impl<K: PartialEq, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.items.len() == o.items.len() && self.items.iter().all(|x| o.items.iter().any(|y| x == y))
    }
}
impl<K, V> Default for HashMap<K, V> { fn default() -> Self { Self::new() } }
impl<K, V> fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("HashMap") }
}
impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::new();
        for (k, v) in it { let _ = m.insert(k, v); }
        m
    }
}
impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it { let _ = self.insert(k, v); }
    }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter { mem::ManuallyDrop::into_inner(self.items).into_iter() }
}
impl<K: Eq + Borrow<Q>, Q: ?Sized + Eq, V> std::ops::Index<&Q> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") }
}

/// the most elements a modelled set holds
pub const SET: usize = 4;
/// without heap memory: the first `n` places are taken
#[derive(Clone)]
pub struct HashSet<T> {
    at: [Option<T>; SET],
    n: usize,
}
pub struct SetIter<'a, T> {
    s: &'a HashSet<T>,
    i: usize,
}
impl<'a, T> Clone for SetIter<'a, T> {
    fn clone(&self) -> Self { SetIter { s: self.s, i: self.i } }
}
impl<'a, T> Iterator for SetIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.i >= self.s.n { return None; }
        self.i += 1;
        self.s.at[self.i - 1].as_ref()
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.s.n - self.i, Some(self.s.n - self.i)) }
}
impl<'a, T> ExactSizeIterator for SetIter<'a, T> {}
pub struct SetIntoIter<T> {
    s: HashSet<T>,
    i: usize,
}
impl<T> Iterator for SetIntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i >= self.s.n { return None; }
        self.i += 1;
        self.s.at[self.i - 1].take()
    }
}
impl<T> HashSet<T> {
    pub fn new() -> Self { HashSet { at: [const { None }; SET], n: 0 } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn len(&self) -> usize { self.n }
    pub fn is_empty(&self) -> bool { self.n == 0 }
    pub fn iter(&self) -> SetIter<'_, T> { SetIter { s: self, i: 0 } }
}
impl<T: Eq> HashSet<T> {
    fn find<Q: ?Sized + Eq>(&self, v: &Q) -> Option<usize> where T: Borrow<Q> {
        let mut i = 0;
        while i < self.n {
            if let Some(ref x) = self.at[i] { if x.borrow() == v { return Some(i); } }
            i += 1;
        }
        None
    }
    pub fn contains<Q: ?Sized + Eq>(&self, v: &Q) -> bool where T: Borrow<Q> { self.find(v).is_some() }
    pub fn get<Q: ?Sized + Eq>(&self, v: &Q) -> Option<&T> where T: Borrow<Q> { self.find(v).and_then(|i| self.at[i].as_ref()) }
    pub fn insert(&mut self, v: T) -> bool {
        if self.contains(&v) { return false; }
        kani::assert(self.n < SET, "model: a set of more elements than the model holds");
        self.at[self.n] = Some(v);
        self.n += 1;
        true
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, v: &Q) -> bool where T: Borrow<Q> {
        match self.find(v) {
            Some(i) => {
                self.n -= 1;
                self.at.swap(i, self.n);
                self.at[self.n] = None;
                true
            }
            None => false,
        }
    }
    pub fn is_disjoint(&self, o: &HashSet<T>) -> bool {
        let mut i = 0;
        while i < self.n {
            if let Some(ref x) = self.at[i] { if o.contains(x) { return false; } }
            i += 1;
        }
        true
    }
    pub fn is_subset(&self, o: &HashSet<T>) -> bool { self.iter().all(|x| o.contains(x)) }
    pub fn is_superset(&self, o: &HashSet<T>) -> bool { o.is_subset(self) }
    pub fn intersection<'a>(&'a self, o: &'a HashSet<T>) -> impl Iterator<Item = &'a T> {
        self.iter().filter(move |x| o.contains(*x))
    }
    pub fn difference<'a>(&'a self, o: &'a HashSet<T>) -> impl Iterator<Item = &'a T> {
        self.iter().filter(move |x| !o.contains(*x))
    }
    pub fn union<'a>(&'a self, o: &'a HashSet<T>) -> impl Iterator<Item = &'a T> {
        self.iter().chain(o.difference(self))
    }
}
impl<T: Eq> PartialEq for HashSet<T> {
    fn eq(&self, o: &Self) -> bool { self.n == o.n && self.is_subset(o) }
}
impl<T: Eq> Eq for HashSet<T> {}
impl<T> Default for HashSet<T> { fn default() -> Self { Self::new() } }
impl<T> fmt::Debug for HashSet<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("HashSet") }
}
impl<T: Eq> FromIterator<T> for HashSet<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut s = Self::new();
        for v in it { let _ = s.insert(v); }
        s
    }
}
impl<T: Eq> Extend<T> for HashSet<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for v in it { let _ = self.insert(v); } }
}
impl<'a, T: 'a + Eq + Copy> Extend<&'a T> for HashSet<T> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for v in it { let _ = self.insert(*v); } }
}
impl<T> IntoIterator for HashSet<T> {
    type Item = T;
    type IntoIter = SetIntoIter<T>;
    fn into_iter(self) -> Self::IntoIter { SetIntoIter { s: self, i: 0 } }
}
impl<'a, T> IntoIterator for &'a HashSet<T> {
    type Item = &'a T;
    type IntoIter = SetIter<'a, T>;
    fn into_iter(self) -> Self::IntoIter { self.iter() }
}
impl<T: Eq, const N: usize> From<[T; N]> for HashSet<T> {
    fn from(a: [T; N]) -> Self { a.into_iter().collect() }
}
