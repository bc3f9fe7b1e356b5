//! Stand-in for rust-rocksdb's pessimistic `TransactionDB` (not available offline), in memory.
//!
//! What it keeps of RocksDB: a transaction's writes are invisible to others until `commit`, which
//! applies them atomically and in one step; `put`, `delete` and `get_for_update` lock the key until
//! the transaction ends, `get` and iterators lock nothing and see committed data plus the
//! transaction's own writes; an iterator sees the state at its creation; dropping rolls back;
//! `prefix_iterator` without a prefix extractor runs from the prefix to the end of the keys.
//!
//! For model checking: `Control` is called before every operation, and when a lock is taken by
//! somebody else (a control decides whether to wait or to time out; without one it times out).
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ErrorKind { TimedOut, Busy, IOError }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error { kind: ErrorKind, message: String }
impl Error { pub fn kind(&self) -> ErrorKind { self.kind.clone() } pub fn into_string(self) -> String { self.message } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.message) } }
impl std::error::Error for Error {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op { Begin, Get, GetForUpdate, Put, Delete, Iterate, Commit }
pub trait Control {
    /// before an operation
    fn point(&self, op: Op, key: &[u8]);
    /// the key's lock is held by another transaction: true to try again, false to time out
    fn blocked(&self, key: &[u8]) -> bool;
    /// some locks were released
    fn released(&self);
    /// a commit may be refused, as by a process that died here
    fn may_commit(&self) -> bool { true }
}
thread_local! { static CONTROL: RefCell<Option<Arc<dyn Control>>> = const { RefCell::new(None) }; }
pub fn set_control(c: Option<Arc<dyn Control>>) { CONTROL.with(|x| *x.borrow_mut() = c) }
fn control() -> Option<Arc<dyn Control>> { CONTROL.with(|x| x.borrow().clone()) }
fn point(op: Op, key: &[u8]) { if let Some(c) = control() { c.point(op, key) } }

#[derive(Clone, Default)]
pub struct Options;
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
    pub fn create_missing_column_families(&mut self, _: bool) {}
}
#[derive(Default)]
pub struct TransactionDBOptions;
pub struct ColumnFamilyDescriptor { pub name: String }
impl ColumnFamilyDescriptor { pub fn new<S: Into<String>>(name: S, _o: Options) -> Self { ColumnFamilyDescriptor { name: name.into() } } }

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Default)]
struct Inner { data: Map, locks: HashMap<Vec<u8>, u64>, next_tx: u64, commits: u64 }
#[derive(Default)]
struct Store(Mutex<Inner>);
static STORES: Mutex<BTreeMap<PathBuf, Arc<Store>>> = Mutex::new(BTreeMap::new());

pub struct SingleThreaded;
pub struct TransactionDB<T = SingleThreaded> { store: Arc<Store>, _t: std::marker::PhantomData<fn(T)> }
impl TransactionDB {
    pub fn open_cf_descriptors<P: AsRef<Path>, I: IntoIterator<Item = ColumnFamilyDescriptor>>(_o: &Options, _t: &TransactionDBOptions, path: P, _c: I) -> Result<Self, Error> {
        let s = STORES.lock().unwrap().entry(path.as_ref().to_path_buf()).or_default().clone();
        Ok(TransactionDB { store: s, _t: Default::default() })
    }
    /// a store nobody else can open
    pub fn private() -> Self { TransactionDB { store: Default::default(), _t: Default::default() } }
    /// another handle on the same data, as after closing and opening again (no lock survives)
    pub fn reopen(&self) -> Self {
        let s = Store::default();
        s.0.lock().unwrap().data = self.store.0.lock().unwrap().data.clone();
        TransactionDB { store: Arc::new(s), _t: Default::default() }
    }
    pub fn forget<P: AsRef<Path>>(path: P) { STORES.lock().unwrap().remove(path.as_ref()); }
    pub fn dump(&self) -> BTreeMap<Vec<u8>, Vec<u8>> { self.store.0.lock().unwrap().data.clone() }
    pub fn load(&self, d: BTreeMap<Vec<u8>, Vec<u8>>) { self.store.0.lock().unwrap().data = d }
    pub fn commits(&self) -> u64 { self.store.0.lock().unwrap().commits }
    /// outside a transaction: an own one of a single write, committed at once
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        let tx = self.transaction();
        tx.put(key, value)?;
        tx.commit()
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        let tx = self.transaction();
        tx.delete(key)?;
        tx.commit()
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        point(Op::Get, key.as_ref());
        Ok(self.store.0.lock().unwrap().data.get(key.as_ref()).cloned())
    }
    pub fn transaction(&self) -> Transaction<'_, TransactionDB> {
        point(Op::Begin, b"");
        let mut i = self.store.0.lock().unwrap();
        i.next_tx += 1;
        Transaction { db: self, id: i.next_tx, own: RefCell::new(BTreeMap::new()) }
    }
}
pub struct Transaction<'db, DB> { db: &'db DB, id: u64, own: RefCell<BTreeMap<Vec<u8>, Option<Vec<u8>>>> }
impl<'db> Transaction<'db, TransactionDB> {
    fn lock(&self, key: &[u8]) -> Result<(), Error> {
        loop {
            {
                let mut i = self.db.store.0.lock().unwrap();
                match i.locks.get(key) {
                    Some(o) if *o != self.id => {}
                    _ => { i.locks.insert(key.to_vec(), self.id); return Ok(()); }
                }
            }
            let retry = control().map(|c| c.blocked(key)).unwrap_or(false);
            if !retry { return Err(Error { kind: ErrorKind::TimedOut, message: "Operation timed out: Timeout waiting to lock key".into() }); }
        }
    }
    fn read(&self, key: &[u8]) -> Option<Vec<u8>> {
        if let Some(v) = self.own.borrow().get(key) { return v.clone(); }
        self.db.store.0.lock().unwrap().data.get(key).cloned()
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        point(Op::Get, key.as_ref());
        Ok(self.read(key.as_ref()))
    }
    pub fn get_for_update<K: AsRef<[u8]>>(&self, key: K, _exclusive: bool) -> Result<Option<Vec<u8>>, Error> {
        point(Op::GetForUpdate, key.as_ref());
        self.lock(key.as_ref())?;
        Ok(self.read(key.as_ref()))
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        point(Op::Put, key.as_ref());
        self.lock(key.as_ref())?;
        self.own.borrow_mut().insert(key.as_ref().to_vec(), Some(value.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        point(Op::Delete, key.as_ref());
        self.lock(key.as_ref())?;
        self.own.borrow_mut().insert(key.as_ref().to_vec(), None);
        Ok(())
    }
    fn from(&self, start: &[u8]) -> DBIterator {
        let mut m: Map = self.db.store.0.lock().unwrap().data.range(start.to_vec()..).map(|(k, v)| (k.clone(), v.clone())).collect();
        for (k, v) in self.own.borrow().range(start.to_vec()..) {
            match v { Some(v) => { m.insert(k.clone(), v.clone()); } None => { m.remove(k); } }
        }
        DBIterator { it: m.into_iter() }
    }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, prefix: P) -> DBIterator {
        point(Op::Iterate, prefix.as_ref());
        self.from(prefix.as_ref())
    }
    pub fn commit(self) -> Result<(), Error> {
        point(Op::Commit, b"");
        if !control().map(|c| c.may_commit()).unwrap_or(true) {
            return Err(Error { kind: ErrorKind::IOError, message: "IO error: the process died here".into() });
        }
        let mut i = self.db.store.0.lock().unwrap();
        i.commits += 1;
        for (k, v) in self.own.borrow_mut().iter() {
            match v { Some(v) => { i.data.insert(k.clone(), v.clone()); } None => { i.data.remove(k); } }
        }
        Ok(())
        // locks go with the drop below
    }
    pub fn rollback(&self) -> Result<(), Error> {
        self.own.borrow_mut().clear();
        Ok(())
    }
}
impl<'db, DB> Drop for Transaction<'db, DB> {
    fn drop(&mut self) {
        // DB is TransactionDB; the parameter only mirrors the original's signature
        let db = unsafe { &*(self.db as *const DB as *const TransactionDB) };
        let mut i = match db.store.0.lock() { Ok(i) => i, Err(p) => p.into_inner() };
        let n = i.locks.len();
        i.locks.retain(|_, o| *o != self.id);
        let freed = i.locks.len() != n;
        drop(i);
        if freed { if let Some(c) = control() { c.released() } }
    }
}
pub struct DBIterator { it: std::collections::btree_map::IntoIter<Vec<u8>, Vec<u8>> }
impl Iterator for DBIterator {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> { self.it.next().map(|(k, v)| Ok((k.into_boxed_slice(), v.into_boxed_slice()))) }
}
