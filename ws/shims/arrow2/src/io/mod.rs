pub mod parquet;
pub mod print;
