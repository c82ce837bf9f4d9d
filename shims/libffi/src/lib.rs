//! Stand-in for `libffi`. Calls of foreign functions are not supported.
pub mod middle {
    use std::ffi::c_void;
    use std::marker::PhantomData;
    #[derive(Clone, Debug)]
    pub struct Type;
    macro_rules! types { ($($f:ident)*) => { impl Type { $(pub fn $f() -> Type { Type })* } } }
    types!(void pointer i8 u8 i16 u16 i32 u32 i64 u64 f32 f64);
    #[derive(Clone, Debug)]
    pub struct Arg<'a>(PhantomData<&'a ()>);
    impl<'a> Arg<'a> {
        pub fn new<T: ?Sized>(_: &'a T) -> Self {
            Arg(PhantomData)
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct CodePtr(pub *mut c_void);
    #[derive(Clone, Debug)]
    pub struct Cif;
    impl Cif {
        pub fn new(_: impl IntoIterator<Item = Type>, _: Type) -> Self {
            Cif
        }
        /// # Safety
        /// Never returns.
        pub unsafe fn call<R>(&self, _: CodePtr, _: &[Arg]) -> R {
            unimplemented!("foreign function calls are not available in this build")
        }
    }
}
