//! Instrumented atomics: transparent wrappers of the standard ones.

use crate::sched;
pub use std::sync::atomic::Ordering;
use std::fmt;

pub fn fence(order: Ordering) {
    sched::hb_fence(order);
    std::sync::atomic::fence(order);
}

macro_rules! atomic_common {
    ($name:ident, $std:ty, $val:ty) => {
        impl $name {
            #[inline]
            pub const fn new(v: $val) -> Self {
                Self(<$std>::new(v))
            }
            #[inline]
            fn at(&self) -> usize {
                self as *const Self as *const u8 as usize
            }
            #[inline]
            pub fn load(&self, o: Ordering) -> $val {
                sched::point(self.at(), false);
                sched::hb_load(self.at(), o);
                self.0.load(o)
            }
            #[inline]
            pub fn store(&self, v: $val, o: Ordering) {
                sched::point(self.at(), true);
                sched::hb_store(self.at(), o);
                self.0.store(v, o)
            }
            #[inline]
            pub fn swap(&self, v: $val, o: Ordering) -> $val {
                sched::point(self.at(), true);
                sched::hb_rmw(self.at(), o);
                self.0.swap(v, o)
            }
            #[inline]
            pub fn compare_exchange(
                &self,
                c: $val,
                n: $val,
                s: Ordering,
                f: Ordering,
            ) -> Result<$val, $val> {
                sched::point(self.at(), true);
                let r = self.0.compare_exchange(c, n, s, f);
                if r.is_ok() {
                    sched::hb_rmw(self.at(), s);
                } else {
                    sched::hb_load(self.at(), f);
                }
                r
            }
            #[inline]
            pub fn compare_exchange_weak(
                &self,
                c: $val,
                n: $val,
                s: Ordering,
                f: Ordering,
            ) -> Result<$val, $val> {
                self.compare_exchange(c, n, s, f)
            }
            #[inline]
            pub fn fetch_update<F: FnMut($val) -> Option<$val>>(
                &self,
                s: Ordering,
                f: Ordering,
                mut func: F,
            ) -> Result<$val, $val> {
                let mut prev = self.load(f);
                while let Some(next) = func(prev) {
                    match self.compare_exchange(prev, next, s, f) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            #[inline]
            pub fn get_mut(&mut self) -> &mut $val {
                self.0.get_mut()
            }
            #[inline]
            pub fn into_inner(self) -> $val {
                self.0.into_inner()
            }
            /// Reads the value without a scheduling point.
            #[inline]
            pub unsafe fn unsync_load(&self) -> $val {
                self.0.load(Ordering::Relaxed)
            }
            #[inline]
            pub fn with_mut<R>(&mut self, f: impl FnOnce(&mut $val) -> R) -> R {
                f(self.0.get_mut())
            }
        }
    };
}

macro_rules! deref_fallback {
    ($name:ident, $std:ty) => {
        /// Any other method of the standard type: a conservative scheduling point.
        impl std::ops::Deref for $name {
            type Target = $std;
            fn deref(&self) -> &$std {
                sched::point(self.at(), true);
                sched::hb_rmw(self.at(), Ordering::AcqRel);
                &self.0
            }
        }
    };
}

macro_rules! atomic_int {
    ($name:ident, $std:ty, $val:ty) => {
        #[repr(transparent)]
        #[derive(Default)]
        pub struct $name($std);
        atomic_common!($name, $std, $val);
        deref_fallback!($name, $std);
        impl $name {
            #[inline]
            pub fn fetch_add(&self, v: $val, o: Ordering) -> $val {
                sched::point(self.at(), true);
                sched::hb_rmw(self.at(), o);
                self.0.fetch_add(v, o)
            }
            #[inline]
            pub fn fetch_sub(&self, v: $val, o: Ordering) -> $val {
                sched::point(self.at(), true);
                sched::hb_rmw(self.at(), o);
                self.0.fetch_sub(v, o)
            }
            #[inline]
            pub fn fetch_or(&self, v: $val, o: Ordering) -> $val {
                sched::point(self.at(), true);
                sched::hb_rmw(self.at(), o);
                self.0.fetch_or(v, o)
            }
            #[inline]
            pub fn fetch_and(&self, v: $val, o: Ordering) -> $val {
                sched::point(self.at(), true);
                sched::hb_rmw(self.at(), o);
                self.0.fetch_and(v, o)
            }
            #[inline]
            pub fn fetch_xor(&self, v: $val, o: Ordering) -> $val {
                sched::point(self.at(), true);
                sched::hb_rmw(self.at(), o);
                self.0.fetch_xor(v, o)
            }
            #[inline]
            pub fn fetch_max(&self, v: $val, o: Ordering) -> $val {
                sched::point(self.at(), true);
                sched::hb_rmw(self.at(), o);
                self.0.fetch_max(v, o)
            }
            #[inline]
            pub fn fetch_min(&self, v: $val, o: Ordering) -> $val {
                sched::point(self.at(), true);
                sched::hb_rmw(self.at(), o);
                self.0.fetch_min(v, o)
            }
        }
        impl From<$val> for $name {
            fn from(v: $val) -> Self {
                Self::new(v)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
    };
}

atomic_int!(AtomicUsize, std::sync::atomic::AtomicUsize, usize);
atomic_int!(AtomicIsize, std::sync::atomic::AtomicIsize, isize);
atomic_int!(AtomicU64, std::sync::atomic::AtomicU64, u64);
atomic_int!(AtomicU32, std::sync::atomic::AtomicU32, u32);
atomic_int!(AtomicI32, std::sync::atomic::AtomicI32, i32);
atomic_int!(AtomicU16, std::sync::atomic::AtomicU16, u16);
atomic_int!(AtomicU8, std::sync::atomic::AtomicU8, u8);

#[repr(transparent)]
#[derive(Default)]
pub struct AtomicBool(std::sync::atomic::AtomicBool);
atomic_common!(AtomicBool, std::sync::atomic::AtomicBool, bool);
deref_fallback!(AtomicBool, std::sync::atomic::AtomicBool);
impl AtomicBool {
    #[inline]
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        sched::point(self.at(), true);
        sched::hb_rmw(self.at(), o);
        self.0.fetch_or(v, o)
    }
    #[inline]
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        sched::point(self.at(), true);
        sched::hb_rmw(self.at(), o);
        self.0.fetch_and(v, o)
    }
}
impl fmt::Debug for AtomicBool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
    #[inline]
    pub const fn new(v: *mut T) -> Self {
        Self(std::sync::atomic::AtomicPtr::new(v))
    }
    #[inline]
    fn at(&self) -> usize {
        self as *const Self as *const u8 as usize
    }
    #[inline]
    pub fn load(&self, o: Ordering) -> *mut T {
        sched::point(self.at(), false);
        sched::hb_load(self.at(), o);
        self.0.load(o)
    }
    #[inline]
    pub fn store(&self, v: *mut T, o: Ordering) {
        sched::point(self.at(), true);
        sched::hb_store(self.at(), o);
        self.0.store(v, o)
    }
    #[inline]
    pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T {
        sched::point(self.at(), true);
        sched::hb_rmw(self.at(), o);
        self.0.swap(v, o)
    }
    #[inline]
    pub fn compare_exchange(
        &self,
        c: *mut T,
        n: *mut T,
        s: Ordering,
        f: Ordering,
    ) -> Result<*mut T, *mut T> {
        sched::point(self.at(), true);
        let r = self.0.compare_exchange(c, n, s, f);
        if r.is_ok() {
            sched::hb_rmw(self.at(), s);
        } else {
            sched::hb_load(self.at(), f);
        }
        r
    }
    #[inline]
    pub fn compare_exchange_weak(
        &self,
        c: *mut T,
        n: *mut T,
        s: Ordering,
        f: Ordering,
    ) -> Result<*mut T, *mut T> {
        self.compare_exchange(c, n, s, f)
    }
    #[inline]
    pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(
        &self,
        s: Ordering,
        f: Ordering,
        mut func: F,
    ) -> Result<*mut T, *mut T> {
        let mut prev = self.load(f);
        while let Some(next) = func(prev) {
            match self.compare_exchange(prev, next, s, f) {
                x @ Ok(_) => return x,
                Err(p) => prev = p,
            }
        }
        Err(prev)
    }
    #[inline]
    pub fn get_mut(&mut self) -> &mut *mut T {
        self.0.get_mut()
    }
    #[inline]
    pub fn into_inner(self) -> *mut T {
        self.0.into_inner()
    }
    #[inline]
    pub unsafe fn unsync_load(&self) -> *mut T {
        self.0.load(Ordering::Relaxed)
    }
    #[inline]
    pub fn with_mut<R>(&mut self, f: impl FnOnce(&mut *mut T) -> R) -> R {
        f(self.0.get_mut())
    }
}
impl<T> std::ops::Deref for AtomicPtr<T> {
    type Target = std::sync::atomic::AtomicPtr<T>;
    fn deref(&self) -> &Self::Target {
        sched::point(self.at(), true);
        sched::hb_rmw(self.at(), Ordering::AcqRel);
        &self.0
    }
}
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(std::ptr::null_mut())
    }
}
impl<T> fmt::Debug for AtomicPtr<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
