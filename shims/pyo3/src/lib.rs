//! A stand-in for pyo3: Python objects are values of this program, a module is a table of classes
//! and methods which are called by name with positional and keyword arguments. Arguments are
//! converted as pyo3 does it, so that a wrong type is a TypeError, a negative number for an unsigned
//! one an OverflowError, and a missing argument a TypeError.
use std::any::Any;
use std::cell::{RefCell, UnsafeCell};
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::sync::Arc;

pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);
impl<'py> Python<'py> {
    pub fn assume_gil_acquired() -> Python<'py> {
        Python(PhantomData)
    }
    pub fn with_gil<R>(f: impl for<'p> FnOnce(Python<'p>) -> R) -> R {
        f(Python(PhantomData))
    }
    pub fn allow_threads<R>(self, f: impl FnOnce() -> R) -> R {
        f()
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> PyObject {
        PyObject::of(PyAny::None)
    }
    pub fn check_signals(self) -> PyResult<()> {
        Ok(())
    }
}

/// A Python object.
pub enum PyAny {
    None,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Tuple(Vec<PyObject>),
    List(Vec<PyObject>),
    /// a numpy array
    Array(Box<dyn Any>),
    /// an instance of a class: a PyCell<T>
    Instance(Box<dyn Any>),
}

/// A counted reference to an object.
pub struct Py<T> {
    pub obj: Arc<PyAny>,
    _p: PhantomData<T>,
}
unsafe impl<T> Send for Py<T> {}
unsafe impl<T> Sync for Py<T> {}
pub type PyObject = Py<PyAny>;

impl<T> Py<T> {
    pub fn of(a: PyAny) -> Py<T> {
        Py { obj: Arc::new(a), _p: PhantomData }
    }
    pub fn from_arc(obj: Arc<PyAny>) -> Py<T> {
        Py { obj, _p: PhantomData }
    }
    pub fn clone_ref(&self, _: Python<'_>) -> Py<T> {
        Py::from_arc(self.obj.clone())
    }
    pub fn is_none(&self, _: Python<'_>) -> bool {
        matches!(&*self.obj, PyAny::None)
    }
    pub fn retype<U>(self) -> Py<U> {
        Py::from_arc(self.obj)
    }
}
impl<T> Clone for Py<T> {
    fn clone(&self) -> Self {
        Py::from_arc(self.obj.clone())
    }
}

pub struct PyCell<T>(UnsafeCell<T>);

impl PyAny {
    fn cell<T: 'static>(&self) -> &PyCell<T> {
        match self {
            PyAny::Instance(b) => b.downcast_ref::<PyCell<T>>().expect("an instance of another class"),
            _ => panic!("not an instance"),
        }
    }
    pub fn get_ref<T: 'static>(&self) -> &T {
        unsafe { &*self.cell::<T>().0.get() }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get_mut<T: 'static>(&self) -> &mut T {
        unsafe { &mut *self.cell::<T>().0.get() }
    }
    pub fn is_none(&self) -> bool {
        matches!(self, PyAny::None)
    }
    pub fn kind(&self) -> &'static str {
        match self {
            PyAny::None => "None",
            PyAny::Bool(_) => "bool",
            PyAny::Int(_) => "int",
            PyAny::Float(_) => "float",
            PyAny::Str(_) => "str",
            PyAny::Tuple(_) => "tuple",
            PyAny::List(_) => "list",
            PyAny::Array(_) => "array",
            PyAny::Instance(_) => "instance",
        }
    }
    pub fn extract<'a, T: FromPyObject<'a>>(&'a self) -> PyResult<T> {
        T::extract(self)
    }
}

pub fn instance<T: PyClass + 'static>(t: T) -> PyObject {
    Py::of(PyAny::Instance(Box::new(PyCell(UnsafeCell::new(t)))))
}

macro_rules! pyref {
    ($name:ident) => {
        pub struct $name<'p, T>(&'p PyAny, PhantomData<T>);
        impl<'p, T: 'static> $name<'p, T> {
            pub fn py(&self) -> Python<'p> {
                Python(PhantomData)
            }
        }
        impl<T: 'static> Deref for $name<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.0.get_ref::<T>()
            }
        }
        impl<'p, T: 'static> Receiver<'p> for $name<'p, T> {
            fn receive(a: &'p PyAny) -> Self {
                $name(a, PhantomData)
            }
        }
    };
}
/// What a method may take in place of `&self`.
pub trait Receiver<'p> {
    fn receive(a: &'p PyAny) -> Self;
}
pyref!(PyRef);
pyref!(PyRefMut);
impl<T: 'static> DerefMut for PyRefMut<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.get_mut::<T>()
    }
}
impl<'p, T: 'static> Receiver<'p> for &'p PyCell<T> {
    fn receive(a: &'p PyAny) -> Self {
        a.cell::<T>()
    }
}
impl<T: 'static> PyCell<T> {
    pub fn borrow(&self) -> &T {
        unsafe { &*self.0.get() }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn borrow_mut(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

// errors

pub struct PyErr {
    pub kind: &'static str,
    pub msg: String,
}
pub type PyResult<T> = Result<T, PyErr>;

pub trait PyErrArguments {
    fn text(self) -> String;
}
impl PyErrArguments for &str {
    fn text(self) -> String {
        self.to_string()
    }
}
impl PyErrArguments for String {
    fn text(self) -> String {
        self
    }
}
impl PyErrArguments for () {
    fn text(self) -> String {
        String::new()
    }
}
impl<A: PyErrArguments> PyErrArguments for (A,) {
    fn text(self) -> String {
        self.0.text()
    }
}
impl PyErr {
    pub fn new<T: PyTypeInfo, A: PyErrArguments>(a: A) -> PyErr {
        PyErr { kind: T::NAME, msg: a.text() }
    }
}
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}: {}", self.kind, self.msg)
    }
}
impl std::fmt::Debug for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}: {}", self.kind, self.msg)
    }
}
impl std::error::Error for PyErr {}

pub trait PyTypeInfo {
    const NAME: &'static str;
}
pub mod exceptions {
    macro_rules! exception {
        ($($n:ident $s:literal)*) => {$(
            pub struct $n;
            impl crate::PyTypeInfo for $n { const NAME: &'static str = $s; }
            impl $n {
                pub fn new_err<A: crate::PyErrArguments>(a: A) -> crate::PyErr { crate::PyErr::new::<$n, A>(a) }
            }
        )*};
    }
    exception! {
        PyValueError "ValueError" PyTypeError "TypeError" PyRuntimeError "RuntimeError" PyIndexError "IndexError"
        PyKeyError "KeyError" PyOverflowError "OverflowError" PyException "Exception" PyOSError "OSError" PyIOError "OSError"
        PyArithmeticError "ArithmeticError" PyMemoryError "MemoryError" PyNotImplementedError "NotImplementedError"
        PyAssertionError "AssertionError" PyBufferError "BufferError" PyAttributeError "AttributeError" PySystemError "SystemError"
        PyStopIteration "StopIteration" PyZeroDivisionError "ZeroDivisionError" PyTimeoutError "TimeoutError"
    }
}
macro_rules! errors {
    ($($t:ty => $k:literal),* $(,)?) => {$(
        impl From<$t> for PyErr {
            fn from(e: $t) -> PyErr { PyErr { kind: $k, msg: e.to_string() } }
        }
    )*};
}
errors! {
    std::io::Error => "OSError",
    std::num::ParseIntError => "ValueError",
    std::num::ParseFloatError => "ValueError",
    std::num::TryFromIntError => "ValueError",
    std::array::TryFromSliceError => "ValueError",
    std::str::Utf8Error => "UnicodeDecodeError",
    std::string::FromUtf8Error => "UnicodeDecodeError",
    PyDowncastError => "TypeError",
}
impl From<std::convert::Infallible> for PyErr {
    fn from(e: std::convert::Infallible) -> PyErr {
        match e {}
    }
}
#[derive(Debug)]
pub struct PyDowncastError(pub String);
impl std::fmt::Display for PyDowncastError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for PyDowncastError {}

pub fn missing(name: &str) -> PyErr {
    PyErr { kind: "TypeError", msg: format!("missing required argument: '{name}'") }
}
fn wrong(a: &PyAny, want: &str) -> PyErr {
    PyErr { kind: "TypeError", msg: format!("'{}' object cannot be interpreted as {want}", a.kind()) }
}

// arguments

pub trait FromPyObject<'a>: Sized {
    fn extract(a: &'a PyAny) -> PyResult<Self>;
}
impl<'a, T: FromPyObject<'a>> FromPyObject<'a> for Option<T> {
    fn extract(a: &'a PyAny) -> PyResult<Self> {
        match a {
            PyAny::None => Ok(None),
            a => T::extract(a).map(Some),
        }
    }
}
macro_rules! ints {
    ($($t:ty)*) => {$(
        impl<'a> FromPyObject<'a> for $t {
            fn extract(a: &'a PyAny) -> PyResult<Self> {
                match a {
                    PyAny::Int(i) => (*i).try_into().map_err(|_| PyErr { kind: "OverflowError", msg: "int out of range".to_string() }),
                    PyAny::Bool(b) => Ok(*b as $t),
                    a => Err(wrong(a, "an integer")),
                }
            }
        }
        impl IntoPy<PyObject> for $t {
            fn into_py(self, _: Python<'_>) -> PyObject { Py::of(PyAny::Int(self as i128)) }
        }
    )*};
}
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
macro_rules! floats {
    ($($t:ty)*) => {$(
        impl<'a> FromPyObject<'a> for $t {
            fn extract(a: &'a PyAny) -> PyResult<Self> {
                match a {
                    PyAny::Float(x) => Ok(*x as $t),
                    PyAny::Int(i) => Ok(*i as $t),
                    a => Err(wrong(a, "a float")),
                }
            }
        }
        impl IntoPy<PyObject> for $t {
            fn into_py(self, _: Python<'_>) -> PyObject { Py::of(PyAny::Float(self as f64)) }
        }
    )*};
}
floats!(f32 f64);
impl<'a> FromPyObject<'a> for bool {
    fn extract(a: &'a PyAny) -> PyResult<Self> {
        match a {
            PyAny::Bool(b) => Ok(*b),
            a => Err(wrong(a, "a bool")),
        }
    }
}
impl<'a> FromPyObject<'a> for String {
    fn extract(a: &'a PyAny) -> PyResult<Self> {
        match a {
            PyAny::Str(b) => Ok(b.clone()),
            a => Err(wrong(a, "a str")),
        }
    }
}
impl<'a> FromPyObject<'a> for &'a PyAny {
    fn extract(a: &'a PyAny) -> PyResult<Self> {
        Ok(a)
    }
}
impl<'a, T: FromPyObject<'a>> FromPyObject<'a> for Vec<T> {
    fn extract(a: &'a PyAny) -> PyResult<Self> {
        match a {
            PyAny::List(v) | PyAny::Tuple(v) => v.iter().map(|x| T::extract(&x.obj)).collect(),
            a => Err(wrong(a, "a sequence")),
        }
    }
}

thread_local! {
    // the references that arguments are converted from, so that an argument can be kept
    static GIVEN: RefCell<Vec<Arc<PyAny>>> = const { RefCell::new(vec![]) };
}
/// Keep an object alive until the call in progress returns.
pub fn keep(a: Arc<PyAny>) {
    GIVEN.with(|g| g.borrow_mut().push(a))
}
/// The first object of the call in progress that `f` picks.
pub fn find(f: impl Fn(&PyAny) -> bool) -> Option<Arc<PyAny>> {
    GIVEN.with(|g| g.borrow().iter().find(|x| f(x)).cloned())
}
/// The counted reference behind an argument of the call in progress.
pub fn counted(a: &PyAny) -> Option<Arc<PyAny>> {
    find(|x| std::ptr::eq(x, a))
}
impl<'a, T: 'a> FromPyObject<'a> for Py<T>
where
    &'a T: FromPyObject<'a>,
{
    fn extract(a: &'a PyAny) -> PyResult<Self> {
        <&'a T>::extract(a)?;
        Ok(Py::from_arc(counted(a).expect("an argument of this call")))
    }
}

pub struct Args {
    values: Vec<Option<Arc<PyAny>>>,
}
impl Args {
    pub fn get(&self, at: usize) -> Option<&PyAny> {
        self.values[at].as_deref()
    }
}

// results

pub trait IntoPy<T> {
    fn into_py(self, py: Python<'_>) -> T;
}
pub trait ToPyObject {
    fn to_object(&self, py: Python<'_>) -> PyObject;
}
impl IntoPy<PyObject> for () {
    fn into_py(self, _: Python<'_>) -> PyObject {
        Py::of(PyAny::None)
    }
}
impl IntoPy<PyObject> for bool {
    fn into_py(self, _: Python<'_>) -> PyObject {
        Py::of(PyAny::Bool(self))
    }
}
impl IntoPy<PyObject> for String {
    fn into_py(self, _: Python<'_>) -> PyObject {
        Py::of(PyAny::Str(self))
    }
}
impl IntoPy<PyObject> for &str {
    fn into_py(self, _: Python<'_>) -> PyObject {
        Py::of(PyAny::Str(self.to_string()))
    }
}
impl<T> IntoPy<PyObject> for Py<T> {
    fn into_py(self, _: Python<'_>) -> PyObject {
        self.retype()
    }
}
impl<T> ToPyObject for Py<T> {
    fn to_object(&self, _: Python<'_>) -> PyObject {
        self.clone().retype()
    }
}
impl<T: IntoPy<PyObject>> IntoPy<PyObject> for Option<T> {
    fn into_py(self, py: Python<'_>) -> PyObject {
        match self {
            Some(x) => x.into_py(py),
            None => Py::of(PyAny::None),
        }
    }
}
impl<T: IntoPy<PyObject>> IntoPy<PyObject> for Vec<T> {
    fn into_py(self, py: Python<'_>) -> PyObject {
        Py::of(PyAny::List(self.into_iter().map(|x| x.into_py(py)).collect()))
    }
}
macro_rules! tuples {
    ($($($n:ident)*;)*) => {$(
        impl<$($n: IntoPy<PyObject>),*> IntoPy<PyObject> for ($($n,)*) {
            #[allow(non_snake_case)]
            fn into_py(self, py: Python<'_>) -> PyObject {
                let ($($n,)*) = self;
                Py::of(PyAny::Tuple(vec![$($n.into_py(py)),*]))
            }
        }
    )*};
}
tuples! { A; A B; A B C; A B C D; A B C D E; }

// modules

pub trait PyClass {
    const NAME: &'static str;
}
pub trait PyMethods {
    fn methods() -> Vec<Method>;
}
pub struct Method {
    pub name: &'static str,
    pub args: &'static [&'static str],
    pub call: fn(&PyAny, &Args) -> PyResult<PyObject>,
}
pub struct Class {
    pub name: &'static str,
    pub methods: Vec<Method>,
}
#[derive(Default)]
pub struct PyModule {
    classes: RefCell<Vec<Class>>,
}
impl PyModule {
    pub fn add_class<T: PyClass + PyMethods>(&self) -> PyResult<()> {
        self.classes.borrow_mut().push(Class { name: T::NAME, methods: T::methods() });
        Ok(())
    }
    pub fn add<V: IntoPy<PyObject>>(&self, _: &str, _: V) -> PyResult<()> {
        Ok(())
    }
    /// Call a method of a class (`__new__` to make an instance) as Python does.
    pub fn call(&self, class: &str, slf: Option<&PyObject>, method: &str, pos: Vec<PyObject>, kw: Vec<(&str, PyObject)>) -> PyResult<PyObject> {
        let cs = self.classes.borrow();
        let c = cs.iter().find(|c| c.name == class).unwrap_or_else(|| panic!("no class {class}"));
        let m = c.methods.iter().find(|m| m.name == method).unwrap_or_else(|| panic!("no method {method} of {class}"));
        let mut values: Vec<Option<Arc<PyAny>>> = m.args.iter().map(|_| None).collect();
        if pos.len() > values.len() {
            return Err(PyErr { kind: "TypeError", msg: "too many positional arguments".into() });
        }
        for (i, p) in pos.into_iter().enumerate() {
            values[i] = Some(p.obj);
        }
        for (k, v) in kw {
            match m.args.iter().position(|a| *a == k) {
                Some(i) if values[i].is_none() => values[i] = Some(v.obj),
                _ => return Err(PyErr { kind: "TypeError", msg: format!("unexpected keyword argument {k}") }),
            }
        }
        let before = GIVEN.with(|g| {
            let mut g = g.borrow_mut();
            g.extend(values.iter().flatten().cloned());
            g.len() - values.iter().flatten().count()
        });
        struct Truncate(usize);
        impl Drop for Truncate {
            fn drop(&mut self) {
                let gone = GIVEN.with(|g| g.borrow_mut().split_off(self.0));
                drop(gone)
            }
        }
        let _t = Truncate(before);
        let none = PyAny::None;
        (m.call)(slf.map_or(&none, |s| &s.obj), &Args { values })
    }
}

pub mod types {
    pub use crate::PyModule;
    pub use crate::PyAny;
}
pub mod pyclass {
    pub use crate::PyClass;
}
pub mod conversion {
    pub use crate::{FromPyObject, IntoPy, ToPyObject};
}
pub mod prelude {
    pub use crate::{pyclass, pyfunction, pymethods, pymodule};
    pub use crate::{FromPyObject, IntoPy, Py, PyAny, PyCell, PyErr, PyModule, PyObject, PyRef, PyRefMut, PyResult, Python, ToPyObject};
}
