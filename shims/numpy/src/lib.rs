//! A stand-in for rust-numpy: arrays are ndarray arrays owned by the objects of ../pyo3, and are freed
//! when the last reference to their object is dropped.
use ndarray::{Array, ArrayBase, ArrayView, ArrayViewMut, Data, Dimension, IntoDimension, NdIndex};
use pyo3::{FromPyObject, IntoPy, Py, PyAny, PyErr, PyObject, PyResult, Python, ToPyObject};
use std::cell::UnsafeCell;
use std::ops::Deref;
use std::sync::Arc;

pub use ndarray;
pub use ndarray::{array, Ix1, Ix2, Ix3, Ix4, Ix5, Ix6, IxDyn};
pub use pyo3;

/// What arrays may hold.
pub unsafe trait Element: Clone + Send + 'static {}
macro_rules! element {
    ($($t:ty)*) => {$(unsafe impl Element for $t {})*};
}
element!(f32 f64 u8 u16 u32 u64 usize i8 i16 i32 i64 isize bool symrt::Sym);

pub struct PyArray<T, D>(UnsafeCell<Array<T, D>>);
pub type PyArray1<T> = PyArray<T, Ix1>;
pub type PyArray2<T> = PyArray<T, Ix2>;
pub type PyArray3<T> = PyArray<T, Ix3>;
pub type PyArrayDyn<T> = PyArray<T, IxDyn>;

impl<T: Element, D: Dimension + 'static> PyArray<T, D> {
    fn inner(&self) -> &Array<T, D> {
        unsafe { &*self.0.get() }
    }
    pub fn from_owned_array(_: Python<'_>, a: Array<T, D>) -> &Self {
        let obj = Arc::new(PyAny::Array(Box::new(PyArray(UnsafeCell::new(a)))));
        pyo3::keep(obj.clone());
        match &*obj {
            // the call in progress keeps the object
            PyAny::Array(b) => unsafe { &*(b.downcast_ref::<Self>().unwrap() as *const Self) },
            _ => unreachable!(),
        }
    }
    pub fn from_array<'py, S: Data<Elem = T>>(py: Python<'py>, a: &ArrayBase<S, D>) -> &'py Self {
        Self::from_owned_array(py, a.to_owned())
    }
    fn object(&self) -> PyObject {
        Py::from_arc(pyo3::find(|x| matches!(x, PyAny::Array(b) if b.downcast_ref::<Self>().map_or(false, |p| std::ptr::eq(p, self)))).expect("an array of this call"))
    }
    /// A counted reference.
    #[allow(clippy::should_implement_trait)]
    pub fn to_owned(&self) -> Py<Self> {
        self.object().retype()
    }
    pub fn shape(&self) -> &[usize] {
        self.inner().shape()
    }
    pub fn strides(&self) -> &[isize] {
        self.inner().strides()
    }
    pub fn ndim(&self) -> usize {
        self.inner().ndim()
    }
    pub fn dims(&self) -> D {
        self.inner().raw_dim()
    }
    pub fn len(&self) -> usize {
        self.inner().len()
    }
    pub fn is_empty(&self) -> bool {
        self.inner().is_empty()
    }
    pub fn is_c_contiguous(&self) -> bool {
        self.inner().is_standard_layout()
    }
    pub fn is_fortran_contiguous(&self) -> bool {
        self.inner().t().is_standard_layout()
    }
    pub fn is_contiguous(&self) -> bool {
        self.is_c_contiguous() || self.is_fortran_contiguous()
    }
    pub fn readonly(&self) -> PyReadonlyArray<'_, T, D> {
        PyReadonlyArray { array: self }
    }
    pub unsafe fn as_slice(&self) -> Result<&[T], NotContiguousError> {
        self.inner().as_slice_memory_order().ok_or(NotContiguousError)
    }
    pub unsafe fn as_slice_mut(&self) -> Result<&mut [T], NotContiguousError> {
        (*self.0.get()).as_slice_memory_order_mut().ok_or(NotContiguousError)
    }
    pub unsafe fn as_array(&self) -> ArrayView<'_, T, D> {
        self.inner().view()
    }
    pub unsafe fn as_array_mut(&self) -> ArrayViewMut<'_, T, D> {
        (*self.0.get()).view_mut()
    }
    pub fn to_owned_array(&self) -> Array<T, D> {
        self.inner().clone()
    }
    pub fn to_vec(&self) -> Result<Vec<T>, NotContiguousError> {
        unsafe { self.as_slice() }.map(|s| s.to_vec())
    }
    pub fn reshape<'py, ID: IntoDimension>(&'py self, dims: ID) -> PyResult<&'py PyArray<T, ID::Dim>>
    where
        ID::Dim: 'static,
    {
        let v: Vec<T> = self.inner().iter().cloned().collect();
        let a = Array::from_shape_vec(dims.into_dimension(), v).map_err(|e| PyErr { kind: "ValueError", msg: e.to_string() })?;
        Ok(PyArray::from_owned_array(Python::assume_gil_acquired(), a))
    }
}
impl<T: Element> PyArray<T, Ix1> {
    pub fn from_vec(py: Python<'_>, v: Vec<T>) -> &Self {
        Self::from_owned_array(py, Array::from_vec(v))
    }
    pub fn from_slice<'py>(py: Python<'py>, v: &[T]) -> &'py Self {
        Self::from_vec(py, v.to_vec())
    }
    pub fn from_iter(py: Python<'_>, it: impl IntoIterator<Item = T>) -> &Self {
        Self::from_vec(py, it.into_iter().collect())
    }
}
impl<T: Element> PyArray<T, Ix2> {
    pub fn from_vec2<'py>(py: Python<'py>, v: &[Vec<T>]) -> Result<&'py Self, NotContiguousError> {
        let m = v.first().map_or(0, |r| r.len());
        Array::from_shape_vec((v.len(), m), v.concat()).map(|a| Self::from_owned_array(py, a)).map_err(|_| NotContiguousError)
    }
}
impl<T: Element, D: Dimension + 'static> From<&PyArray<T, D>> for PyObject {
    fn from(a: &PyArray<T, D>) -> PyObject {
        a.object()
    }
}
impl<T: Element, D: Dimension + 'static> From<&PyArray<T, D>> for Py<PyArray<T, D>> {
    fn from(a: &PyArray<T, D>) -> Self {
        a.to_owned()
    }
}
impl<T: Element, D: Dimension + 'static> IntoPy<PyObject> for &PyArray<T, D> {
    fn into_py(self, _: Python<'_>) -> PyObject {
        self.object()
    }
}
impl<T: Element, D: Dimension + 'static> IntoPy<Py<PyArray<T, D>>> for &PyArray<T, D> {
    fn into_py(self, _: Python<'_>) -> Py<PyArray<T, D>> {
        self.to_owned()
    }
}
impl<T: Element, D: Dimension + 'static> ToPyObject for PyArray<T, D> {
    fn to_object(&self, _: Python<'_>) -> PyObject {
        self.object()
    }
}
impl<'py, T: Element, D: Dimension + 'static> FromPyObject<'py> for &'py PyArray<T, D> {
    fn extract(a: &'py PyAny) -> PyResult<Self> {
        match a {
            PyAny::Array(b) => b.downcast_ref::<PyArray<T, D>>().ok_or(PyErr { kind: "TypeError", msg: "array of another type or dimensionality".into() }),
            a => Err(PyErr { kind: "TypeError", msg: format!("'{}' object cannot be converted to 'PyArray'", a.kind()) }),
        }
    }
}
pub struct PyReadonlyArray<'py, T, D> {
    array: &'py PyArray<T, D>,
}
pub type PyReadonlyArray1<'py, T> = PyReadonlyArray<'py, T, Ix1>;
pub type PyReadonlyArray2<'py, T> = PyReadonlyArray<'py, T, Ix2>;
pub type PyReadonlyArray3<'py, T> = PyReadonlyArray<'py, T, Ix3>;
pub type PyReadonlyArrayDyn<'py, T> = PyReadonlyArray<'py, T, IxDyn>;

impl<T, D> Deref for PyReadonlyArray<'_, T, D> {
    type Target = PyArray<T, D>;
    fn deref(&self) -> &PyArray<T, D> {
        self.array
    }
}
impl<'py, T: Element, D: Dimension + 'static> PyReadonlyArray<'py, T, D> {
    pub fn as_slice(&self) -> Result<&[T], NotContiguousError> {
        unsafe { self.array.as_slice() }
    }
    pub fn as_array(&self) -> ArrayView<'_, T, D> {
        self.array.inner().view()
    }
    pub fn get(&self, index: impl NdIndex<D>) -> Option<&T> {
        self.array.inner().get(index)
    }
}
impl<'py, T: Element, D: Dimension + 'static> FromPyObject<'py> for PyReadonlyArray<'py, T, D> {
    fn extract(a: &'py PyAny) -> PyResult<Self> {
        Ok(PyReadonlyArray { array: <&PyArray<T, D>>::extract(a)? })
    }
}
impl<'py, T: Element, D: Dimension + 'static> From<&'py PyArray<T, D>> for PyReadonlyArray<'py, T, D> {
    fn from(array: &'py PyArray<T, D>) -> Self {
        PyReadonlyArray { array }
    }
}

pub trait IntoPyArray {
    type Item: Element;
    type Dim: Dimension + 'static;
    fn into_pyarray(self, py: Python<'_>) -> &PyArray<Self::Item, Self::Dim>;
}
impl<T: Element> IntoPyArray for Vec<T> {
    type Item = T;
    type Dim = Ix1;
    fn into_pyarray(self, py: Python<'_>) -> &PyArray<T, Ix1> {
        PyArray::from_vec(py, self)
    }
}
impl<T: Element> IntoPyArray for Box<[T]> {
    type Item = T;
    type Dim = Ix1;
    fn into_pyarray(self, py: Python<'_>) -> &PyArray<T, Ix1> {
        PyArray::from_vec(py, self.into_vec())
    }
}
impl<T: Element, D: Dimension + 'static> IntoPyArray for Array<T, D> {
    type Item = T;
    type Dim = D;
    fn into_pyarray(self, py: Python<'_>) -> &PyArray<T, D> {
        PyArray::from_owned_array(py, self)
    }
}
pub trait ToPyArray {
    type Item: Element;
    type Dim: Dimension + 'static;
    fn to_pyarray<'py>(&self, py: Python<'py>) -> &'py PyArray<Self::Item, Self::Dim>;
}
impl<T: Element> ToPyArray for [T] {
    type Item = T;
    type Dim = Ix1;
    fn to_pyarray<'py>(&self, py: Python<'py>) -> &'py PyArray<T, Ix1> {
        PyArray::from_slice(py, self)
    }
}
impl<S: Data<Elem = T>, T: Element, D: Dimension + 'static> ToPyArray for ArrayBase<S, D> {
    type Item = T;
    type Dim = D;
    fn to_pyarray<'py>(&self, py: Python<'py>) -> &'py PyArray<T, D> {
        PyArray::from_array(py, self)
    }
}

#[derive(Debug)]
pub struct NotContiguousError;
impl std::fmt::Display for NotContiguousError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "The given array is not contiguous")
    }
}
impl std::error::Error for NotContiguousError {}
impl From<NotContiguousError> for PyErr {
    fn from(e: NotContiguousError) -> PyErr {
        PyErr { kind: "TypeError", msg: e.to_string() }
    }
}

// for the harness

/// An array object; `column_major` lays the columns out one after another.
pub fn object2<T: Element>(rows: usize, cols: usize, v: Vec<T>, column_major: bool) -> PyObject {
    let a = Array::from_shape_vec((rows, cols), v).unwrap();
    let a = if column_major {
        let mut t = Array::from_shape_vec((cols, rows), a.t().iter().cloned().collect()).unwrap();
        t.swap_axes(0, 1);
        t
    } else {
        a
    };
    Py::of(PyAny::Array(Box::new(PyArray(UnsafeCell::new(a)))))
}
pub fn object1<T: Element>(v: Vec<T>) -> PyObject {
    Py::of(PyAny::Array(Box::new(PyArray(UnsafeCell::new(Array::from_vec(v))))))
}
/// Shape and elements of an array object, if it has this element type.
pub fn read<T: Element>(o: &PyObject) -> Option<(Vec<usize>, Vec<T>)> {
    match &*o.obj {
        PyAny::Array(b) => {
            if let Some(a) = b.downcast_ref::<PyArray<T, Ix1>>() {
                return Some((a.shape().to_vec(), a.inner().iter().cloned().collect()));
            }
            b.downcast_ref::<PyArray<T, Ix2>>().map(|a| (a.shape().to_vec(), a.inner().iter().cloned().collect()))
        }
        _ => None,
    }
}
