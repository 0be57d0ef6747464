//! The builders' public push methods behind one pair of traits.
pub type BuildResult<T> = Result<T, yason::BuildError>;
pub type YasonResult<T> = Result<T, yason::YasonError>;
use yason::*;

pub trait ArrBuilder {
    fn push_object(&mut self, n: u16, sorted: bool) -> BuildResult<ObjectRefBuilder<'_>>;
    fn push_array(&mut self, n: u16) -> BuildResult<ArrayRefBuilder<'_>>;
    fn push_string(&mut self, v: &str) -> BuildResult<()>;
    fn push_number(&mut self, v: &Number) -> BuildResult<()>;
    fn push_bool(&mut self, v: bool) -> BuildResult<()>;
    fn push_null(&mut self) -> BuildResult<()>;
}
pub trait ObjBuilder {
    fn push_object(&mut self, k: &str, n: u16, sorted: bool) -> BuildResult<ObjectRefBuilder<'_>>;
    fn push_array(&mut self, k: &str, n: u16) -> BuildResult<ArrayRefBuilder<'_>>;
    fn push_string(&mut self, k: &str, v: &str) -> BuildResult<()>;
    fn push_number(&mut self, k: &str, v: &Number) -> BuildResult<()>;
    fn push_bool(&mut self, k: &str, v: bool) -> BuildResult<()>;
    fn push_null(&mut self, k: &str) -> BuildResult<()>;
}
macro_rules! arr {
    ($t:ident) => {
        impl ArrBuilder for $t<'_> {
            fn push_object(&mut self, n: u16, sorted: bool) -> BuildResult<ObjectRefBuilder<'_>> {
                $t::push_object(self, n, sorted)
            }
            fn push_array(&mut self, n: u16) -> BuildResult<ArrayRefBuilder<'_>> {
                $t::push_array(self, n)
            }
            fn push_string(&mut self, v: &str) -> BuildResult<()> {
                $t::push_string(self, v).map(|_| ())
            }
            fn push_number(&mut self, v: &Number) -> BuildResult<()> {
                $t::push_number(self, v).map(|_| ())
            }
            fn push_bool(&mut self, v: bool) -> BuildResult<()> {
                $t::push_bool(self, v).map(|_| ())
            }
            fn push_null(&mut self) -> BuildResult<()> {
                $t::push_null(self).map(|_| ())
            }
        }
    };
}
macro_rules! obj {
    ($t:ident) => {
        impl ObjBuilder for $t<'_> {
            fn push_object(&mut self, k: &str, n: u16, sorted: bool) -> BuildResult<ObjectRefBuilder<'_>> {
                $t::push_object(self, k, n, sorted)
            }
            fn push_array(&mut self, k: &str, n: u16) -> BuildResult<ArrayRefBuilder<'_>> {
                $t::push_array(self, k, n)
            }
            fn push_string(&mut self, k: &str, v: &str) -> BuildResult<()> {
                $t::push_string(self, k, v).map(|_| ())
            }
            fn push_number(&mut self, k: &str, v: &Number) -> BuildResult<()> {
                $t::push_number(self, k, v).map(|_| ())
            }
            fn push_bool(&mut self, k: &str, v: bool) -> BuildResult<()> {
                $t::push_bool(self, k, v).map(|_| ())
            }
            fn push_null(&mut self, k: &str) -> BuildResult<()> {
                $t::push_null(self, k).map(|_| ())
            }
        }
    };
}
arr!(ArrayBuilder);
arr!(ArrayRefBuilder);
obj!(ObjectBuilder);
obj!(ObjectRefBuilder);
