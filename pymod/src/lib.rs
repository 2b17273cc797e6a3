//! The Python extension module of /repo, linked as it is; with feature `hub` the two interpreter
//! functions that give up and take back the interpreter lock are wrapped for the scheduler.
extern crate seuif97;

#[cfg(feature = "hub")]
mod wrap {
    use std::ffi::c_void;
    extern "C" {
        fn __real_PyEval_SaveThread() -> *mut c_void;
        fn __real_PyEval_RestoreThread(t: *mut c_void);
        fn hub_gil_released();
        fn hub_gil_wanted();
    }
    #[no_mangle]
    pub unsafe extern "C" fn __wrap_PyEval_SaveThread() -> *mut c_void {
        let r = __real_PyEval_SaveThread();
        hub_gil_released();
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn __wrap_PyEval_RestoreThread(t: *mut c_void) {
        hub_gil_wanted();
        __real_PyEval_RestoreThread(t)
    }
}
