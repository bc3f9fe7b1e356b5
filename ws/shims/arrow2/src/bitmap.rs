use std::sync::Arc;
/// Immutable bitmap; set bit = valid.
#[derive(Clone)]
pub struct Bitmap { v: Arc<Vec<bool>>, off: usize, len: usize }
impl std::fmt::Debug for Bitmap {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_list().entries(self.iter()).finish() }
}
impl PartialEq for Bitmap { fn eq(&self, o: &Self) -> bool { self.len == o.len && self.iter().eq(o.iter()) } }
impl Eq for Bitmap {}
impl Bitmap {
    pub fn from_vec(v: Vec<bool>) -> Self { let len = v.len(); Bitmap { v: Arc::new(v), off: 0, len } }
    pub fn len(&self) -> usize { self.len }
    pub fn is_empty(&self) -> bool { self.len == 0 }
    pub fn get_bit(&self, i: usize) -> bool { assert!(i < self.len); self.v[self.off + i] }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ { self.v[self.off..self.off + self.len].iter().copied() }
    pub fn unset_bits(&self) -> usize { self.iter().filter(|b| !b).count() }
    pub fn sliced(mut self, off: usize, len: usize) -> Self { assert!(off + len <= self.len); self.off += off; self.len = len; self }
}
impl From<Vec<bool>> for Bitmap { fn from(v: Vec<bool>) -> Self { Self::from_vec(v) } }
