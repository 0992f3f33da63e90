//! Stand-in for the `arrayvec` dependency, used only in the analysis build.
//!
//! Natively it behaves like `arrayvec::ArrayVec` (same API subset, same panics on overflow).
//! In the symbolic executor the four `__vx_*` hooks are intercepted:
//!   * `__vx_list_new`   returns a fresh non-zero log id: pushes are then logged as
//!     (path condition, element) pairs instead of being stored at a symbolic index;
//!   * `__vx_list_push`  appends to that log;
//!   * `__vx_list_settle` is called by every operation that reads the list; the executor continues
//!     once for every distinct logged element (and for the empty list), with the list holding
//!     exactly that element, in ordinary memory ("element projection").
//! A list whose log id is zero is an ordinary array-backed vector.
use std::cell::UnsafeCell;
use std::mem::MaybeUninit;
use std::ops::{Deref, DerefMut};

extern "C" {
    fn __vx_list_new() -> u32;
    fn __vx_list_push(id: u32, elem: *const u8, size: usize);
    fn __vx_list_settle(id: u32, log: *mut u32, len: *mut u32, data: *mut u8, size: usize, cap: usize);
    fn __vx_list_clone(id: u32) -> u32;
}

pub struct ArrayVec<T, const CAP: usize> {
    len: UnsafeCell<u32>,
    log: UnsafeCell<u32>,
    xs: UnsafeCell<[MaybeUninit<T>; CAP]>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct CapacityError<T = ()>(T);
impl<T> CapacityError<T> {
    pub const fn new(e: T) -> Self {
        CapacityError(e)
    }
    pub fn element(self) -> T {
        self.0
    }
    pub fn simplify(self) -> CapacityError {
        CapacityError(())
    }
}
impl<T> std::fmt::Display for CapacityError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("insufficient capacity")
    }
}
impl<T: std::fmt::Debug> std::error::Error for CapacityError<T> {}

impl<T, const CAP: usize> ArrayVec<T, CAP> {
    pub const CAPACITY: usize = CAP;
    #[inline]
    pub fn new() -> Self {
        ArrayVec {
            len: UnsafeCell::new(0),
            log: UnsafeCell::new(unsafe { __vx_list_new() }),
            xs: UnsafeCell::new(unsafe { MaybeUninit::uninit().assume_init() }),
        }
    }
    #[inline]
    fn log_id(&self) -> u32 {
        unsafe { self.log.get().read() }
    }
    #[inline]
    fn settle(&self) {
        let id = self.log_id();
        if id != 0 {
            unsafe {
                __vx_list_settle(
                    id,
                    self.log.get(),
                    self.len.get(),
                    self.xs.get() as *mut u8,
                    std::mem::size_of::<T>(),
                    CAP,
                )
            }
        }
    }
    #[inline]
    fn l(&self) -> usize {
        unsafe { self.len.get().read() as usize }
    }
    #[inline]
    fn set_l(&mut self, n: usize) {
        *self.len.get_mut() = n as u32
    }
    #[inline]
    fn p(&self) -> *mut T {
        self.xs.get() as *mut T
    }
    #[inline]
    pub fn len(&self) -> usize {
        self.settle();
        self.l()
    }
    #[inline]
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    #[inline]
    pub const fn capacity(&self) -> usize {
        CAP
    }
    #[inline]
    pub fn is_full(&self) -> bool {
        // In log mode the capacity is not modelled (see DESIGN.md).
        self.log_id() == 0 && self.l() == CAP
    }
    #[inline]
    pub fn remaining_capacity(&self) -> usize {
        CAP - self.len()
    }
    #[inline]
    pub fn try_push(&mut self, e: T) -> Result<(), CapacityError<T>> {
        let id = self.log_id();
        if id != 0 {
            let e = MaybeUninit::new(e);
            unsafe { __vx_list_push(id, e.as_ptr() as *const u8, std::mem::size_of::<T>()) };
            return Ok(());
        }
        let n = self.l();
        if n < CAP {
            unsafe { self.p().add(n).write(e) };
            self.set_l(n + 1);
            Ok(())
        } else {
            Err(CapacityError(e))
        }
    }
    #[inline]
    #[track_caller]
    pub fn push(&mut self, e: T) {
        if self.try_push(e).is_err() {
            full()
        }
    }
    #[inline]
    pub unsafe fn push_unchecked(&mut self, e: T) {
        if self.try_push(e).is_err() {
            full()
        }
    }
    #[inline]
    pub fn truncate(&mut self, n: usize) {
        self.settle();
        if n < self.l() {
            self.set_l(n)
        }
    }
    #[inline]
    pub fn clear(&mut self) {
        self.truncate(0)
    }
    #[track_caller]
    pub fn insert(&mut self, i: usize, e: T) {
        self.settle();
        let n = self.l();
        if i > n {
            oob()
        }
        if n >= CAP {
            full()
        }
        unsafe {
            let p = self.p().add(i);
            std::ptr::copy(p, p.add(1), n - i);
            p.write(e);
        }
        self.set_l(n + 1);
    }
    #[inline]
    pub fn pop(&mut self) -> Option<T> {
        self.settle();
        let n = self.l();
        if n == 0 {
            return None;
        }
        self.set_l(n - 1);
        Some(unsafe { self.p().add(n - 1).read() })
    }
    #[inline]
    pub fn swap_pop(&mut self, i: usize) -> Option<T> {
        let n = self.len();
        if i >= n {
            return None;
        }
        unsafe { std::ptr::swap(self.p().add(i), self.p().add(n - 1)) };
        self.pop()
    }
    #[inline]
    #[track_caller]
    pub fn swap_remove(&mut self, i: usize) -> T {
        match self.swap_pop(i) {
            Some(e) => e,
            None => oob(),
        }
    }
    #[inline]
    pub fn pop_at(&mut self, i: usize) -> Option<T> {
        let n = self.len();
        if i >= n {
            return None;
        }
        unsafe {
            let p = self.p().add(i);
            let e = p.read();
            std::ptr::copy(p.add(1), p, n - i - 1);
            self.set_l(n - 1);
            Some(e)
        }
    }
    #[inline]
    #[track_caller]
    pub fn remove(&mut self, i: usize) -> T {
        match self.pop_at(i) {
            Some(e) => e,
            None => oob(),
        }
    }
    #[inline]
    pub fn retain<F: FnMut(&mut T) -> bool>(&mut self, mut f: F) {
        self.settle();
        let n = self.l();
        let mut kept = 0;
        let mut i = 0;
        while i < n {
            unsafe {
                let p = self.p();
                if f(&mut *p.add(i)) {
                    if kept != i {
                        std::ptr::copy(p.add(i), p.add(kept), 1);
                    }
                    kept += 1;
                }
            }
            i += 1;
        }
        self.set_l(kept);
    }
    #[inline]
    pub unsafe fn set_len(&mut self, n: usize) {
        self.settle();
        self.set_l(n)
    }
    pub fn try_extend_from_slice(&mut self, other: &[T]) -> Result<(), CapacityError>
    where
        T: Copy,
    {
        for &e in other {
            self.try_push(e).map_err(|e| e.simplify())?
        }
        Ok(())
    }
    pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, range: R) -> std::vec::IntoIter<T> {
        use std::ops::Bound::*;
        let n = self.len();
        let a = match range.start_bound() {
            Unbounded => 0,
            Included(&i) => i,
            Excluded(&i) => i + 1,
        };
        let b = match range.end_bound() {
            Unbounded => n,
            Included(&i) => i + 1,
            Excluded(&i) => i,
        };
        let mut v = Vec::new();
        for _ in a..b {
            v.push(self.remove(a));
        }
        v.into_iter()
    }
    pub fn take(&mut self) -> Self {
        std::mem::replace(self, Self::new())
    }
    #[inline]
    pub fn as_slice(&self) -> &[T] {
        self
    }
    #[inline]
    pub fn as_mut_slice(&mut self) -> &mut [T] {
        self
    }
    #[inline]
    pub fn as_ptr(&self) -> *const T {
        self.settle();
        self.p()
    }
    #[inline]
    pub fn as_mut_ptr(&mut self) -> *mut T {
        self.settle();
        self.p()
    }
}

#[cold]
#[track_caller]
fn full() -> ! {
    panic!("ArrayVec: capacity exceeded")
}
#[cold]
#[track_caller]
fn oob() -> ! {
    panic!("ArrayVec: index out of bounds")
}

impl<T, const CAP: usize> Deref for ArrayVec<T, CAP> {
    type Target = [T];
    #[inline]
    fn deref(&self) -> &[T] {
        self.settle();
        unsafe { std::slice::from_raw_parts(self.p(), self.l()) }
    }
}
impl<T, const CAP: usize> DerefMut for ArrayVec<T, CAP> {
    #[inline]
    fn deref_mut(&mut self) -> &mut [T] {
        self.settle();
        unsafe { std::slice::from_raw_parts_mut(self.p(), self.l()) }
    }
}
impl<T, const CAP: usize> AsRef<[T]> for ArrayVec<T, CAP> {
    fn as_ref(&self) -> &[T] {
        self
    }
}
impl<T, const CAP: usize> Default for ArrayVec<T, CAP> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone, const CAP: usize> Clone for ArrayVec<T, CAP> {
    fn clone(&self) -> Self {
        let id = self.log_id();
        let mut r = Self::new();
        if id != 0 {
            *r.log.get_mut() = unsafe { __vx_list_clone(id) };
        } else {
            for e in self.iter() {
                r.push(e.clone())
            }
        }
        r
    }
}
impl<T: std::fmt::Debug, const CAP: usize> std::fmt::Debug for ArrayVec<T, CAP> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: PartialEq, const CAP: usize> PartialEq for ArrayVec<T, CAP> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: Eq, const CAP: usize> Eq for ArrayVec<T, CAP> {}
impl<T, const CAP: usize> Extend<T> for ArrayVec<T, CAP> {
    #[inline]
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for e in it {
            self.push(e)
        }
    }
}
impl<T, const CAP: usize> std::iter::FromIterator<T> for ArrayVec<T, CAP> {
    #[inline]
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut r = Self::new();
        r.extend(it);
        r
    }
}
pub struct IntoIter<T, const CAP: usize> {
    i: usize,
    v: ArrayVec<T, CAP>,
}
impl<T, const CAP: usize> Iterator for IntoIter<T, CAP> {
    type Item = T;
    #[inline]
    fn next(&mut self) -> Option<T> {
        if self.i == self.v.l() {
            return None;
        }
        self.i += 1;
        Some(unsafe { self.v.p().add(self.i - 1).read() })
    }
}
impl<T, const CAP: usize> IntoIterator for ArrayVec<T, CAP> {
    type Item = T;
    type IntoIter = IntoIter<T, CAP>;
    #[inline]
    fn into_iter(self) -> IntoIter<T, CAP> {
        self.settle();
        IntoIter { i: 0, v: self }
    }
}
impl<'a, T, const CAP: usize> IntoIterator for &'a ArrayVec<T, CAP> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    #[inline]
    fn into_iter(self) -> std::slice::Iter<'a, T> {
        (**self).iter()
    }
}
impl<'a, T, const CAP: usize> IntoIterator for &'a mut ArrayVec<T, CAP> {
    type Item = &'a mut T;
    type IntoIter = std::slice::IterMut<'a, T>;
    #[inline]
    fn into_iter(self) -> std::slice::IterMut<'a, T> {
        (**self).iter_mut()
    }
}
impl<T, const CAP: usize> From<[T; CAP]> for ArrayVec<T, CAP> {
    fn from(a: [T; CAP]) -> Self {
        a.into_iter().collect()
    }
}
