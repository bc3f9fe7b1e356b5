use crate::array::Array;
use crate::datatypes::{DataType, Field};
use arrow_with_ffi::ffi::{FFI_ArrowArray, FFI_ArrowSchema};
#[repr(transparent)]
pub struct ArrowArray(FFI_ArrowArray);
#[repr(transparent)]
pub struct ArrowSchema(FFI_ArrowSchema);
pub fn export_array_to_c(a: Box<dyn Array>) -> ArrowArray {
    ArrowArray(FFI_ArrowArray::new(&a.to_arrow1().to_data()))
}
pub fn export_field_to_c(f: &Field) -> ArrowSchema {
    ArrowSchema(FFI_ArrowSchema(crate::datatypes::field_to_arrow1(f)))
}
/// # Safety
/// same contract as arrow2
pub unsafe fn import_array_from_c(a: ArrowArray, dt: DataType) -> crate::error::Result<Box<dyn Array>> {
    let d = crate::datatypes::to_arrow1(&dt);
    let data = arrow_with_ffi::ffi::from_ffi_and_data_type(a.0, d).map_err(|e| crate::error::Error::oos(e.to_string()))?;
    Ok(crate::array::from_arrow1(&arrow::array::make_array(data), &dt))
}
