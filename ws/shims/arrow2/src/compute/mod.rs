pub mod merge_sort {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct SortOptions { pub descending: bool, pub nulls_first: bool }
    impl Default for SortOptions { fn default() -> Self { SortOptions { descending: false, nulls_first: true } } }
}
pub mod sort {
    use super::merge_sort::SortOptions;
    use crate::array::*;
    use crate::datatypes::PhysicalType;
    use crate::error::{Error, Result};
    use crate::types::{NativeType, PrimitiveType};
    use std::cmp::Ordering;
    pub struct SortColumn<'a> { pub values: &'a dyn Array, pub options: Option<SortOptions> }
    pub trait Index: NativeType { fn fu(v: usize) -> Self; }
    impl Index for i32 { fn fu(v: usize) -> Self { v as i32 } }
    impl Index for i64 { fn fu(v: usize) -> Self { v as i64 } }
    impl Index for u32 { fn fu(v: usize) -> Self { v as u32 } }
    impl Index for u64 { fn fu(v: usize) -> Self { v as u64 } }
    fn cmp_vals(a: &dyn Array, i: usize, j: usize) -> Ordering {
        macro_rules! p { ($t:ty) => {{ let x = a.as_any().downcast_ref::<PrimitiveArray<$t>>().unwrap(); x.value(i).cmp_total(&x.value(j)) }}; }
        match a.data_type().to_physical_type() {
            PhysicalType::Primitive(PrimitiveType::Int8) => p!(i8), PhysicalType::Primitive(PrimitiveType::Int16) => p!(i16),
            PhysicalType::Primitive(PrimitiveType::Int32) => p!(i32), PhysicalType::Primitive(PrimitiveType::Int64) => p!(i64),
            PhysicalType::Primitive(PrimitiveType::Int128) => p!(i128), PhysicalType::Primitive(PrimitiveType::UInt64) => p!(u64),
            PhysicalType::Primitive(PrimitiveType::UInt32) => p!(u32), PhysicalType::Primitive(PrimitiveType::Float64) => p!(f64),
            PhysicalType::Boolean => { let x = a.as_any().downcast_ref::<BooleanArray>().unwrap(); x.value(i).cmp(&x.value(j)) }
            PhysicalType::Utf8 => { let x = a.as_any().downcast_ref::<Utf8Array<i32>>().unwrap(); x.value(i).cmp(x.value(j)) }
            o => unimplemented!("{:?}", o),
        }
    }
    /// arrow2 sorts lexicographically with an unstable sort; ties may come out in any order. std's unstable
    /// sort is used here as there.
    pub fn lexsort_to_indices<I: Index>(columns: &[SortColumn], limit: Option<usize>) -> Result<PrimitiveArray<I>> {
        if columns.is_empty() { return Err(Error::InvalidArgumentError("Sort requires at least one column".into())); }
        let n = columns[0].values.len();
        if columns.iter().any(|c| c.values.len() != n) { return Err(Error::InvalidArgumentError("lexical sort columns have different row counts".into())); }
        let mut v: Vec<usize> = (0..n).collect();
        v.sort_unstable_by(|&i, &j| {
            for c in columns {
                let o = c.options.unwrap_or_default();
                let r = match (c.values.is_null(i), c.values.is_null(j)) {
                    (true, true) => Ordering::Equal,
                    (true, false) => if o.nulls_first { Ordering::Less } else { Ordering::Greater },
                    (false, true) => if o.nulls_first { Ordering::Greater } else { Ordering::Less },
                    _ => { let r = cmp_vals(c.values, i, j); if o.descending { r.reverse() } else { r } }
                };
                if r != Ordering::Equal { return r; }
            }
            Ordering::Equal
        });
        v.truncate(limit.unwrap_or(n));
        Ok(PrimitiveArray::from_vec(v.into_iter().map(I::fu).collect()))
    }
}
pub mod take {
    use crate::array::*;
    use crate::error::Result;
    use crate::types::NativeType;
    pub trait TakeIndex: NativeType { fn us(&self) -> usize; }
    impl TakeIndex for i32 { fn us(&self) -> usize { *self as usize } }
    impl TakeIndex for i64 { fn us(&self) -> usize { *self as usize } }
    impl TakeIndex for u32 { fn us(&self) -> usize { *self as usize } }
    impl TakeIndex for u64 { fn us(&self) -> usize { *self as usize } }
    pub fn take<O: TakeIndex>(values: &dyn Array, indices: &PrimitiveArray<O>) -> Result<Box<dyn Array>> {
        let picks: Vec<_> = indices.iter().map(|i| i.map(|i| { let i = i.us(); assert!(i < values.len()); (0, i) })).collect();
        Ok(gather(values.data_type(), &[values], &picks))
    }
}
pub mod concatenate {
    use crate::array::*;
    use crate::error::{Error, Result};
    pub fn concatenate(arrays: &[&dyn Array]) -> Result<Box<dyn Array>> {
        if arrays.is_empty() { return Err(Error::InvalidArgumentError("concat requires input of at least one array".into())); }
        if arrays.iter().any(|a| a.data_type() != arrays[0].data_type()) { return Err(Error::InvalidArgumentError("It is not possible to concatenate arrays of different data types.".into())); }
        let picks: Vec<_> = arrays.iter().enumerate().flat_map(|(k, a)| (0..a.len()).map(move |i| Some((k, i)))).collect();
        Ok(gather(arrays[0].data_type(), arrays, &picks))
    }
}
pub mod cast {
    use crate::array::*;
    use crate::datatypes::DataType;
    use crate::types::NativeType;
    pub trait AsI128: NativeType { fn a(&self) -> i128; }
    impl AsI128 for i128 { fn a(&self) -> i128 { *self } }
    impl AsI128 for i64 { fn a(&self) -> i128 { *self as i128 } }
    impl AsI128 for i32 { fn a(&self) -> i128 { *self as i128 } }
    pub fn integer_to_decimal<T: AsI128>(from: &PrimitiveArray<T>, p: usize, s: usize) -> PrimitiveArray<i128> {
        let m = 10i128.pow(s as u32);
        PrimitiveArray::<i128>::from(from.iter().map(|v| v.and_then(|v| v.a().checked_mul(m))).collect::<Vec<_>>()).to(DataType::Decimal(p, s))
    }
}
