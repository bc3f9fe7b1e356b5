use super::*;
pub trait Growable<'a> {
    fn extend(&mut self, index: usize, start: usize, len: usize);
    fn extend_validity(&mut self, additional: usize);
    fn as_box(&mut self) -> Box<dyn Array>;
}
struct G<'a> { dt: DataType, arrs: Vec<&'a dyn Array>, picks: Vec<Option<(usize, usize)>> }
impl<'a> Growable<'a> for G<'a> {
    fn extend(&mut self, index: usize, start: usize, len: usize) {
        assert!(start + len <= self.arrs[index].len());
        for i in start..start + len { self.picks.push(Some((index, i))); }
    }
    fn extend_validity(&mut self, n: usize) { for _ in 0..n { self.picks.push(None); } }
    fn as_box(&mut self) -> Box<dyn Array> { let p = std::mem::take(&mut self.picks); gather(&self.dt, &self.arrs, &p) }
}
pub fn make_growable<'a>(arrays: &[&'a dyn Array], _use_validity: bool, _capacity: usize) -> Box<dyn Growable<'a> + 'a> {
    assert!(!arrays.is_empty());
    let dt = arrays[0].data_type().clone();
    for a in arrays { assert_eq!(a.data_type().to_physical_type(), dt.to_physical_type()); }
    Box::new(G { dt, arrs: arrays.to_vec(), picks: vec![] })
}
