use std::collections::BTreeMap;
use std::sync::Arc;
use serde::{Deserialize, Serialize};
pub use crate::types::PrimitiveType;
pub type Metadata = BTreeMap<String, String>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum IntervalUnit { YearMonth, DayTime, MonthDayNano }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum UnionMode { Dense, Sparse }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum IntegerType { Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64 }

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum DataType {
    Null, Boolean, Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64,
    Float16, Float32, Float64,
    Timestamp(TimeUnit, Option<String>),
    Date32, Date64, Time32(TimeUnit), Time64(TimeUnit), Duration(TimeUnit), Interval(IntervalUnit),
    Binary, FixedSizeBinary(usize), LargeBinary, Utf8, LargeUtf8,
    List(Box<Field>), FixedSizeList(Box<Field>, usize), LargeList(Box<Field>),
    Struct(Vec<Field>),
    Union(Vec<Field>, Option<Vec<i32>>, UnionMode),
    Map(Box<Field>, bool),
    Dictionary(IntegerType, Box<DataType>, bool),
    Decimal(usize, usize), Decimal256(usize, usize),
    Extension(String, Box<DataType>, Option<String>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PhysicalType {
    Null, Boolean, Primitive(PrimitiveType), Binary, FixedSizeBinary, LargeBinary, Utf8, LargeUtf8,
    List, FixedSizeList, LargeList, Struct, Union, Map, Dictionary(IntegerType),
}

impl DataType {
    pub fn to_physical_type(&self) -> PhysicalType {
        use DataType::*;
        match self {
            Null => PhysicalType::Null,
            Boolean => PhysicalType::Boolean,
            Int8 => PhysicalType::Primitive(PrimitiveType::Int8),
            Int16 => PhysicalType::Primitive(PrimitiveType::Int16),
            Int32 | Date32 | Time32(_) | Interval(IntervalUnit::YearMonth) => PhysicalType::Primitive(PrimitiveType::Int32),
            Int64 | Date64 | Timestamp(_, _) | Time64(_) | Duration(_) => PhysicalType::Primitive(PrimitiveType::Int64),
            Decimal(_, _) => PhysicalType::Primitive(PrimitiveType::Int128),
            Decimal256(_, _) => PhysicalType::Primitive(PrimitiveType::Int256),
            UInt8 => PhysicalType::Primitive(PrimitiveType::UInt8),
            UInt16 => PhysicalType::Primitive(PrimitiveType::UInt16),
            UInt32 => PhysicalType::Primitive(PrimitiveType::UInt32),
            UInt64 => PhysicalType::Primitive(PrimitiveType::UInt64),
            Float16 => PhysicalType::Primitive(PrimitiveType::Float16),
            Float32 => PhysicalType::Primitive(PrimitiveType::Float32),
            Float64 => PhysicalType::Primitive(PrimitiveType::Float64),
            Interval(IntervalUnit::DayTime) => PhysicalType::Primitive(PrimitiveType::DaysMs),
            Interval(IntervalUnit::MonthDayNano) => PhysicalType::Primitive(PrimitiveType::MonthDayNano),
            Binary => PhysicalType::Binary,
            FixedSizeBinary(_) => PhysicalType::FixedSizeBinary,
            LargeBinary => PhysicalType::LargeBinary,
            Utf8 => PhysicalType::Utf8,
            LargeUtf8 => PhysicalType::LargeUtf8,
            List(_) => PhysicalType::List,
            FixedSizeList(_, _) => PhysicalType::FixedSizeList,
            LargeList(_) => PhysicalType::LargeList,
            Struct(_) => PhysicalType::Struct,
            Union(_, _, _) => PhysicalType::Union,
            Map(_, _) => PhysicalType::Map,
            Dictionary(k, _, _) => PhysicalType::Dictionary(*k),
            Extension(_, k, _) => k.to_physical_type(),
        }
    }
    pub fn to_logical_type(&self) -> &DataType {
        match self { DataType::Extension(_, k, _) => k.to_logical_type(), o => o }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Field { pub name: String, pub data_type: DataType, pub is_nullable: bool, pub metadata: Metadata }
impl Field {
    pub fn new<T: Into<String>>(name: T, data_type: DataType, is_nullable: bool) -> Self {
        Field { name: name.into(), data_type, is_nullable, metadata: Default::default() }
    }
    pub fn data_type(&self) -> &DataType { &self.data_type }
}

#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Schema { pub fields: Vec<Field>, pub metadata: Metadata }
impl Schema {
    pub fn filter<F: Fn(usize, &Field) -> bool>(self, predicate: F) -> Self {
        let fields = self.fields.into_iter().enumerate().filter_map(|(i, f)| if predicate(i, &f) { Some(f) } else { None }).collect();
        Schema { fields, metadata: self.metadata }
    }
}
impl From<Vec<Field>> for Schema {
    fn from(fields: Vec<Field>) -> Self { Schema { fields, metadata: Default::default() } }
}
pub type SchemaRef = Arc<Schema>;

/// arrow-rs view of a data type, used by the FFI stand-in.
pub fn to_arrow1(dt: &DataType) -> arrow_schema::DataType {
    use arrow_schema::DataType as D;
    let tu = |t: &TimeUnit| match t {
        TimeUnit::Second => arrow_schema::TimeUnit::Second,
        TimeUnit::Millisecond => arrow_schema::TimeUnit::Millisecond,
        TimeUnit::Microsecond => arrow_schema::TimeUnit::Microsecond,
        TimeUnit::Nanosecond => arrow_schema::TimeUnit::Nanosecond,
    };
    match dt {
        DataType::Null => D::Null,
        DataType::Boolean => D::Boolean,
        DataType::Int8 => D::Int8,
        DataType::Int16 => D::Int16,
        DataType::Int32 => D::Int32,
        DataType::Int64 => D::Int64,
        DataType::UInt8 => D::UInt8,
        DataType::UInt16 => D::UInt16,
        DataType::UInt32 => D::UInt32,
        DataType::UInt64 => D::UInt64,
        DataType::Float32 => D::Float32,
        DataType::Float64 => D::Float64,
        DataType::Timestamp(t, tz) => D::Timestamp(tu(t), tz.clone().map(|s| s.into())),
        DataType::Date32 => D::Date32,
        DataType::Date64 => D::Date64,
        DataType::Time32(t) => D::Time32(tu(t)),
        DataType::Time64(t) => D::Time64(tu(t)),
        DataType::Duration(t) => D::Duration(tu(t)),
        DataType::Binary => D::Binary,
        DataType::LargeBinary => D::LargeBinary,
        DataType::FixedSizeBinary(s) => D::FixedSizeBinary(*s as i32),
        DataType::Utf8 => D::Utf8,
        DataType::LargeUtf8 => D::LargeUtf8,
        DataType::List(f) => D::List(Arc::new(field_to_arrow1(f))),
        DataType::LargeList(f) => D::LargeList(Arc::new(field_to_arrow1(f))),
        DataType::Decimal(p, s) => D::Decimal128(*p as u8, *s as i8),
        o => unimplemented!("to_arrow1 {:?}", o),
    }
}
pub fn field_to_arrow1(f: &Field) -> arrow_schema::Field {
    arrow_schema::Field::new(f.name.clone(), to_arrow1(&f.data_type), f.is_nullable)
}
