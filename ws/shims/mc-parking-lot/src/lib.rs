//! parking_lot's Mutex and RwLock, which they wrap. On a thread that has a control, taking one is a scheduling point
//! and waiting for one is done by the control. As with parking_lot, who wants to read waits for those who wait to write.
use std::cell::RefCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

pub trait Control {
    fn point(&self, what: &'static str);
    /// the lock is taken: false when nobody will ever release it
    fn blocked(&self) -> bool;
    fn released(&self);
}
thread_local! { static CONTROL: RefCell<Option<Arc<dyn Control>>> = const { RefCell::new(None) }; }
pub fn set_control(c: Option<Arc<dyn Control>>) { CONTROL.with(|x| *x.borrow_mut() = c) }
fn control() -> Option<Arc<dyn Control>> { CONTROL.try_with(|x| x.borrow().clone()).ok().flatten() }
fn released() { if let Some(c) = control() { c.released() } }
fn wait(c: &dyn Control) { if !c.blocked() { panic!("deadlock") } }

#[derive(Default)]
pub struct Mutex<T: ?Sized>(parking_lot::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized>(Option<parking_lot::MutexGuard<'a, T>>);
impl<T> Mutex<T> { pub const fn new(v: T) -> Self { Mutex(parking_lot::Mutex::new(v)) } pub fn into_inner(self) -> T { self.0.into_inner() } }
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        let Some(c) = control() else { return MutexGuard(Some(self.0.lock())) };
        c.point("lock");
        loop { if let Some(g) = self.0.try_lock() { return MutexGuard(Some(g)) } wait(&*c) }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> { if let Some(c) = control() { c.point("try_lock") } self.0.try_lock().map(|g| MutexGuard(Some(g))) }
    pub fn get_mut(&mut self) -> &mut T { self.0.get_mut() }
    pub fn is_locked(&self) -> bool { self.0.is_locked() }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.0.as_ref().unwrap() } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { self.0.as_mut().unwrap() } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { self.0 = None; released() } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }

#[derive(Default)]
pub struct RwLock<T: ?Sized> { writers: AtomicUsize, l: parking_lot::RwLock<T> }
pub struct RwLockReadGuard<'a, T: ?Sized>(Option<parking_lot::RwLockReadGuard<'a, T>>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(Option<parking_lot::RwLockWriteGuard<'a, T>>);
impl<T> RwLock<T> { pub const fn new(v: T) -> Self { RwLock { writers: AtomicUsize::new(0), l: parking_lot::RwLock::new(v) } } pub fn into_inner(self) -> T { self.l.into_inner() } }
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        let Some(c) = control() else { return RwLockReadGuard(Some(self.l.read())) };
        c.point("read");
        loop {
            if self.writers.load(SeqCst) == 0 { if let Some(g) = self.l.try_read_recursive() { return RwLockReadGuard(Some(g)) } }
            wait(&*c)
        }
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        let Some(c) = control() else { return RwLockWriteGuard(Some(self.l.write())) };
        c.point("write");
        loop {
            if let Some(g) = self.l.try_write() { return RwLockWriteGuard(Some(g)) }
            self.writers.fetch_add(1, SeqCst);
            let ok = c.blocked();
            self.writers.fetch_sub(1, SeqCst);
            if !ok { panic!("deadlock") }
        }
    }
    pub fn get_mut(&mut self) -> &mut T { self.l.get_mut() }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.0.as_ref().unwrap() } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.0.as_ref().unwrap() } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { self.0.as_mut().unwrap() } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { self.0 = None; released() } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { self.0 = None; released() } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.l.fmt(f) } }
