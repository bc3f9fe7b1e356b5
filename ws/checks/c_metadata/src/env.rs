//! A metadata provider on a store of its own, one per thread, with the state under control.
use common::{group_col, types::TABLE_EVENTS, GROUPS_COUNT};
use metadata::MetadataProvider;
use rocksdb::TransactionDB;
use std::collections::BTreeMap;
use std::sync::Arc;
use storage::db::{OptiDBImpl, Options};
use storage::table::Options as TableOptions;

pub type Dump = BTreeMap<Vec<u8>, Vec<u8>>;
static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// an event store with the tables, on disk because there is no other kind
pub fn opti() -> Arc<OptiDBImpl> {
    let p = mc::scratch().join(format!("o{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    let db = Arc::new(OptiDBImpl::open(p, Options {}).unwrap());
    db.create_table(TABLE_EVENTS.to_string(), TableOptions::test(false)).unwrap();
    for i in 0..GROUPS_COUNT { db.create_table(group_col(i), TableOptions::test(true)).unwrap(); }
    db
}
thread_local! { static OPTI: Arc<OptiDBImpl> = opti(); }

pub struct Env { pub db: Arc<TransactionDB>, pub md: MetadataProvider, pub opti: Arc<OptiDBImpl> }
impl Env {
    pub fn new() -> Env { Env::from(TransactionDB::private()) }
    pub fn from(db: TransactionDB) -> Env {
        let o = OPTI.with(|o| o.clone());
        Env::with(db, o)
    }
    pub fn with(db: TransactionDB, opti: Arc<OptiDBImpl>) -> Env {
        let db = Arc::new(db);
        crate::kinds::DB.with(|d| *d.borrow_mut() = Some(db.clone()));
        Env { md: MetadataProvider::try_new(db.clone(), opti.clone()).unwrap(), db, opti }
    }
    /// closed and opened again
    pub fn reopen(self) -> Env { Env::with(self.db.reopen(), self.opti.clone()) }
    pub fn load(d: &Dump) -> Env { let e = Env::new(); e.db.load(d.clone()); e }
}
