pub use arrow::*;
pub mod ffi {
    use arrow::array::ArrayData;
    use arrow::error::ArrowError;
    pub use arrow_data_with_ffi::ffi::{FFI_ArrowArray, FFI_ArrowSchema};
    pub unsafe fn from_ffi_and_data_type(a: FFI_ArrowArray, dt: arrow::datatypes::DataType) -> Result<ArrayData, ArrowError> {
        if *a.0.data_type() == dt { Ok(a.0) } else { a.0.into_builder().data_type(dt).build() }
    }
    pub unsafe fn from_ffi(a: FFI_ArrowArray, s: &FFI_ArrowSchema) -> Result<ArrayData, ArrowError> { from_ffi_and_data_type(a, s.0.data_type().clone()) }
}
