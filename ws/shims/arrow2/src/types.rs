use crate::datatypes::DataType;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PrimitiveType { Int8, Int16, Int32, Int64, Int128, Int256, UInt8, UInt16, UInt32, UInt64, Float16, Float32, Float64, DaysMs, MonthDayNano }
pub trait NativeType: Copy + std::fmt::Debug + std::fmt::Display + PartialEq + Default + Send + Sync + 'static {
    const PRIMITIVE: PrimitiveType;
    fn default_dt() -> DataType;
    fn cmp_total(&self, o: &Self) -> std::cmp::Ordering;
    fn put(&self, out: &mut Vec<u8>);
    fn take(b: &[u8]) -> Self;
    const SIZE: usize;
}
macro_rules! nat {
    ($t:ty, $p:ident, $d:expr, $cmp:expr) => {
        impl NativeType for $t {
            const PRIMITIVE: PrimitiveType = PrimitiveType::$p;
            fn default_dt() -> DataType { $d }
            fn cmp_total(&self, o: &Self) -> std::cmp::Ordering { let f: fn(&$t, &$t) -> std::cmp::Ordering = $cmp; f(self, o) }
            fn put(&self, out: &mut Vec<u8>) { out.extend_from_slice(&self.to_le_bytes()) }
            fn take(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) }
            const SIZE: usize = std::mem::size_of::<$t>();
        }
    };
}
nat!(i8, Int8, DataType::Int8, |a, b| a.cmp(b));
nat!(i16, Int16, DataType::Int16, |a, b| a.cmp(b));
nat!(i32, Int32, DataType::Int32, |a, b| a.cmp(b));
nat!(i64, Int64, DataType::Int64, |a, b| a.cmp(b));
nat!(i128, Int128, DataType::Decimal(32, 32), |a, b| a.cmp(b));
nat!(u8, UInt8, DataType::UInt8, |a, b| a.cmp(b));
nat!(u16, UInt16, DataType::UInt16, |a, b| a.cmp(b));
nat!(u32, UInt32, DataType::UInt32, |a, b| a.cmp(b));
nat!(u64, UInt64, DataType::UInt64, |a, b| a.cmp(b));
nat!(f32, Float32, DataType::Float32, |a, b| a.total_cmp(b));
nat!(f64, Float64, DataType::Float64, |a, b| a.total_cmp(b));
