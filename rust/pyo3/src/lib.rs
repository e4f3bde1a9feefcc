pub use pyo3m::{pyclass, pyfunction, pymethods, pymodule};
