//! Stand-in: a table from addresses to (country, city) behind maxminddb's reader API.
use std::collections::{BTreeMap, HashMap};
use std::net::IpAddr;
#[derive(Debug, PartialEq, Eq)]
pub enum MaxMindDBError { AddressNotFoundError(String), InvalidDatabaseError(String), IoError(String), MapError(String), DecodingError(String), InvalidNetworkError(String) }
impl std::fmt::Display for MaxMindDBError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for MaxMindDBError {}
pub struct Reader<S> { table: HashMap<IpAddr, (Option<String>, Option<String>)>, _s: std::marker::PhantomData<S> }
impl Reader<Vec<u8>> {
    pub fn stand_in(table: HashMap<IpAddr, (Option<String>, Option<String>)>) -> Self { Reader { table, _s: Default::default() } }
    pub fn open_readfile<P: AsRef<std::path::Path>>(p: P) -> Result<Self, MaxMindDBError> { Err(MaxMindDBError::IoError(p.as_ref().display().to_string())) }
    pub fn lookup<'a, T: Record<'a>>(&'a self, ip: IpAddr) -> Result<T, MaxMindDBError> {
        match self.table.get(&ip) { Some((c, t)) => Ok(T::make(c.as_deref(), t.as_deref())), None => Err(MaxMindDBError::AddressNotFoundError("Address not found in database".into())) }
    }
}
pub trait Record<'a> { fn make(country: Option<&'a str>, city: Option<&'a str>) -> Self; }
pub mod geoip2 {
    use super::*;
    pub struct Named<'a> { pub names: Option<BTreeMap<&'a str, &'a str>> }
    pub struct City<'a> { pub city: Option<Named<'a>>, pub country: Option<Named<'a>> }
    impl<'a> Record<'a> for City<'a> {
        fn make(country: Option<&'a str>, city: Option<&'a str>) -> Self {
            let n = |s: Option<&'a str>| s.map(|s| Named { names: Some(BTreeMap::from([("en", s)])) });
            City { city: n(city), country: n(country) }
        }
    }
}
