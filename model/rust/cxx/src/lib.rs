//! A stand-in for cxx: the C++ side of a bridge is a recorder.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::ops::Deref;
use std::pin::Pin;

pub use cxxmacro::bridge;

/// An argument as the bridge got it.
#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Bits(u64), // of an f64
    Int(i128),
    Bool(bool),
    Text(String),
    List(Vec<Value>),
    Struct(&'static str, Vec<(&'static str, Value)>),
    Fn(usize),
}

pub trait ToValue {
    fn to_value(&self) -> Value;
}
impl ToValue for f64 {
    fn to_value(&self) -> Value {
        Value::Bits(self.to_bits())
    }
}
macro_rules! ints { ($($t:ty),*) => { $(impl ToValue for $t {
    fn to_value(&self) -> Value { Value::Int(*self as i128) }
})* } }
ints!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
impl ToValue for bool {
    fn to_value(&self) -> Value {
        Value::Bool(*self)
    }
}
impl ToValue for String {
    fn to_value(&self) -> Value {
        Value::Text(self.clone())
    }
}
impl ToValue for str {
    fn to_value(&self) -> Value {
        Value::Text(self.to_string())
    }
}
impl<T: ToValue> ToValue for Vec<T> {
    fn to_value(&self) -> Value {
        Value::List(self.iter().map(|x| x.to_value()).collect())
    }
}
impl<T: ToValue> ToValue for [T] {
    fn to_value(&self) -> Value {
        Value::List(self.iter().map(|x| x.to_value()).collect())
    }
}
impl<T: ToValue + ?Sized> ToValue for &T {
    fn to_value(&self) -> Value {
        (**self).to_value()
    }
}
impl<A> ToValue for fn(A) {
    fn to_value(&self) -> Value {
        Value::Fn(*self as usize)
    }
}
impl<A, B> ToValue for fn(A, B) {
    fn to_value(&self) -> Value {
        Value::Fn(*self as usize)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub name: &'static str,
    pub object: Option<u64>,
    pub args: Vec<Value>,
}

thread_local! {
    static CALLS: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
    static ANSWERS: RefCell<VecDeque<Result<Box<dyn Any>, String>>> = const { RefCell::new(VecDeque::new()) };
    static NEXT: Cell<u64> = const { Cell::new(1) };
}

/// What was called since last asked.
pub fn calls() -> Vec<Call> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
/// What the next fallible or value-returning function answers.
pub fn answer(a: Result<Box<dyn Any>, String>) {
    ANSWERS.with(|q| q.borrow_mut().push_back(a));
}
pub fn unanswered() -> usize {
    ANSWERS.with(|q| std::mem::take(&mut *q.borrow_mut()).len())
}

pub mod private {
    use super::*;
    pub fn record(name: &'static str, object: Option<u64>, args: Vec<Value>) {
        CALLS.with(|c| c.borrow_mut().push(Call { name, object, args }));
    }
    pub fn fresh() -> u64 {
        NEXT.with(|n| n.replace(n.get() + 1))
    }
    pub fn take<T: 'static>() -> Result<T, Exception> {
        match ANSWERS.with(|q| q.borrow_mut().pop_front()) {
            Some(Ok(v)) => Ok(*v.downcast::<T>().expect("answer of another type")),
            Some(Err(what)) => Err(Exception { what }),
            None => Err(Exception { what: "called more often than expected".into() }),
        }
    }
}

#[derive(Debug)]
pub struct Exception {
    what: String,
}
impl Exception {
    pub fn what(&self) -> &str {
        &self.what
    }
}
impl std::fmt::Display for Exception {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.what)
    }
}
impl std::error::Error for Exception {}

pub struct UniquePtr<T>(Option<Box<T>>);
impl<T> UniquePtr<T> {
    pub fn null() -> Self {
        UniquePtr(None)
    }
    pub fn new(v: T) -> Self {
        UniquePtr(Some(Box::new(v)))
    }
    pub fn is_null(&self) -> bool {
        self.0.is_none()
    }
    pub fn as_ref(&self) -> Option<&T> {
        self.0.as_deref()
    }
    pub fn as_mut(&mut self) -> Option<Pin<&mut T>> {
        // Never moved out of its box, as in cxx.
        self.0.as_deref_mut().map(|x| unsafe { Pin::new_unchecked(x) })
    }
    pub fn pin_mut(&mut self) -> Pin<&mut T> {
        self.as_mut().expect("called pin_mut on a null UniquePtr")
    }
}
impl<T> Deref for UniquePtr<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.as_ref().expect("called deref on a null UniquePtr")
    }
}
unsafe impl<T: Send> Send for UniquePtr<T> {}
