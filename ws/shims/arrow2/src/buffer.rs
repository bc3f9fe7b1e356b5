use std::ops::Deref;
use std::sync::Arc;
#[derive(Clone)]
pub struct Buffer<T> { v: Arc<Vec<T>>, off: usize, len: usize }
impl<T> Buffer<T> {
    pub fn sliced(mut self, off: usize, len: usize) -> Self { assert!(off + len <= self.len, "the offset of the new Buffer cannot exceed the existing length"); self.off += off; self.len = len; self }
}
impl<T> From<Vec<T>> for Buffer<T> { fn from(v: Vec<T>) -> Self { let len = v.len(); Buffer { v: Arc::new(v), off: 0, len } } }
impl<T> Deref for Buffer<T> { type Target = [T]; fn deref(&self) -> &[T] { &self.v[self.off..self.off + self.len] } }
impl<T: std::fmt::Debug> std::fmt::Debug for Buffer<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (**self).fmt(f) } }
impl<T: PartialEq> PartialEq for Buffer<T> { fn eq(&self, o: &Self) -> bool { **self == **o } }
