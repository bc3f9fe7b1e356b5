//! Stand-in for lru 0.12: a bounded map evicting the least recently used entry.
use std::borrow::Borrow;
use std::hash::Hash;
use std::num::NonZeroUsize;

#[derive(Debug)]
pub struct LruCache<K, V> {
    cap: NonZeroUsize,
    // most recently used last; caches in the repository are small
    items: Vec<(K, V)>,
}
impl<K: Hash + Eq, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self {
        LruCache { cap, items: vec![] }
    }
    pub fn unbounded() -> Self {
        Self::new(NonZeroUsize::MAX)
    }
    fn pos<Q: Eq + ?Sized>(&self, k: &Q) -> Option<usize>
    where K: Borrow<Q> {
        self.items.iter().position(|(x, _)| x.borrow() == k)
    }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        let old = self.pos(&k).map(|i| self.items.remove(i).1);
        if old.is_none() && self.items.len() >= self.cap.get() {
            self.items.remove(0);
        }
        self.items.push((k, v));
        old
    }
    pub fn get<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<&V>
    where K: Borrow<Q> {
        let i = self.pos(k)?;
        let e = self.items.remove(i);
        self.items.push(e);
        self.items.last().map(|e| &e.1)
    }
    pub fn get_mut<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where K: Borrow<Q> {
        let i = self.pos(k)?;
        let e = self.items.remove(i);
        self.items.push(e);
        self.items.last_mut().map(|e| &mut e.1)
    }
    pub fn peek<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<&V>
    where K: Borrow<Q> {
        self.pos(k).map(|i| &self.items[i].1)
    }
    pub fn contains<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool
    where K: Borrow<Q> {
        self.pos(k).is_some()
    }
    pub fn pop<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<V>
    where K: Borrow<Q> {
        self.pos(k).map(|i| self.items.remove(i).1)
    }
    pub fn pop_lru(&mut self) -> Option<(K, V)> {
        if self.items.is_empty() { None } else { Some(self.items.remove(0)) }
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn cap(&self) -> NonZeroUsize {
        self.cap
    }
    pub fn clear(&mut self) {
        self.items.clear()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.items.iter().rev().map(|e| (&e.0, &e.1))
    }
}
