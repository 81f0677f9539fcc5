//! A byte vector without a heap: at most `CAP` bytes, which every push asserts.
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

pub const CAP: usize = 16;

#[derive(Debug, Clone, Copy)]
pub struct Vec<T> {
    b: [u8; CAP],
    n: usize,
    t: PhantomData<T>,
}
impl Vec<u8> {
    pub const fn new() -> Self { Vec { b: [0; CAP], n: 0, t: PhantomData } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn push(&mut self, v: u8) {
        kani::assert(self.n < CAP, "model: the text fits");
        self.b[self.n] = v;
        self.n += 1;
    }
    pub fn pop(&mut self) -> Option<u8> {
        if self.n == 0 { return None; }
        self.n -= 1;
        Some(self.b[self.n])
    }
    pub fn clear(&mut self) { self.n = 0; }
    pub fn truncate(&mut self, n: usize) { if n < self.n { self.n = n; } }
    pub fn extend_from_slice(&mut self, s: &[u8]) {
        let mut i = 0;
        while i < s.len() {
            self.push(s[i]);
            i += 1;
        }
    }
    pub fn append(&mut self, o: &mut Self) {
        self.extend_from_slice(&o.b[..o.n]);
        o.n = 0;
    }
    pub fn as_slice(&self) -> &[u8] { &self.b[..self.n] }
}
impl Deref for Vec<u8> {
    type Target = [u8];
    fn deref(&self) -> &[u8] { &self.b[..self.n] }
}
impl DerefMut for Vec<u8> {
    fn deref_mut(&mut self) -> &mut [u8] { &mut self.b[..self.n] }
}
impl Extend<u8> for Vec<u8> {
    fn extend<I: IntoIterator<Item = u8>>(&mut self, it: I) { for v in it { self.push(v); } }
}
impl<'a> Extend<&'a u8> for Vec<u8> {
    fn extend<I: IntoIterator<Item = &'a u8>>(&mut self, it: I) { for v in it { self.push(*v); } }
}
impl FromIterator<u8> for Vec<u8> {
    fn from_iter<I: IntoIterator<Item = u8>>(it: I) -> Self {
        let mut v = Self::new();
        v.extend(it);
        v
    }
}
impl From<&[u8]> for Vec<u8> {
    fn from(s: &[u8]) -> Self {
        let mut v = Self::new();
        v.extend_from_slice(s);
        v
    }
}
impl<const N: usize> From<&[u8; N]> for Vec<u8> {
    fn from(s: &[u8; N]) -> Self { Self::from(&s[..]) }
}
impl From<String> for Vec<u8> {
    fn from(s: String) -> Self { Self::from(s.as_bytes()) }
}
impl From<&str> for Vec<u8> {
    fn from(s: &str) -> Self { Self::from(s.as_bytes()) }
}
impl PartialEq for Vec<u8> {
    fn eq(&self, o: &Self) -> bool { self.as_slice() == o.as_slice() }
}
impl Default for Vec<u8> {
    fn default() -> Self { Self::new() }
}
impl<'a> IntoIterator for &'a Vec<u8> {
    type Item = &'a u8;
    type IntoIter = std::slice::Iter<'a, u8>;
    fn into_iter(self) -> Self::IntoIter { self.as_slice().iter() }
}
