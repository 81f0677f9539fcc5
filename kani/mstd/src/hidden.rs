//! State that a `static` of the code under contract keeps between calls.
//!
//! A contract is about any call of a function, not the first one in a
//! process. The extraction therefore gives every atomic in a `static` one of
//! these types: what it holds when a harness first looks is any value.
use std::cell::UnsafeCell;
use std::sync::atomic::Ordering;

macro_rules! hidden {
    ($($n:ident $t:ty;)*) => {$(
        pub struct $n(UnsafeCell<Option<$t>>);
        unsafe impl Sync for $n {}
        impl $n {
            pub const fn new(_: $t) -> Self {
                Self(UnsafeCell::new(None))
            }
            fn at(&self) -> &mut $t {
                unsafe { (*self.0.get()).get_or_insert_with(kani::any) }
            }
            pub fn load(&self, _: Ordering) -> $t {
                *self.at()
            }
            pub fn store(&self, v: $t, _: Ordering) {
                *self.at() = v
            }
            pub fn swap(&self, v: $t, _: Ordering) -> $t {
                std::mem::replace(self.at(), v)
            }
            pub fn compare_exchange(&self, old: $t, new: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                let v = *self.at();
                if v == old {
                    *self.at() = new;
                    Ok(v)
                } else {
                    Err(v)
                }
            }
            pub fn compare_exchange_weak(&self, old: $t, new: $t, a: Ordering, b: Ordering) -> Result<$t, $t> {
                self.compare_exchange(old, new, a, b)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                let v = *self.at();
                match f(v) {
                    Some(n) => {
                        *self.at() = n;
                        Ok(v)
                    }
                    None => Err(v),
                }
            }
        }
    )*};
}
macro_rules! arith {
    ($($n:ident $t:ty;)*) => {$(
        impl $n {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                let old = self.load(o);
                *self.at() = old.wrapping_add(v);
                old
            }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                let old = self.load(o);
                *self.at() = old.wrapping_sub(v);
                old
            }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                let old = self.load(o);
                *self.at() = old.max(v);
                old
            }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                let old = self.load(o);
                *self.at() = old.min(v);
                old
            }
        }
    )*};
}
macro_rules! bits {
    ($($n:ident $t:ty;)*) => {$(
        impl $n {
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                let old = self.load(o);
                *self.at() = old | v;
                old
            }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                let old = self.load(o);
                *self.at() = old & v;
                old
            }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                let old = self.load(o);
                *self.at() = old ^ v;
                old
            }
        }
    )*};
}
macro_rules! all {
    ($m:ident) => {
        $m! { AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize; AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize; }
    };
}
all!(hidden);
all!(arith);
all!(bits);
hidden! { AtomicBool bool; }
bits! { AtomicBool bool; }

pub fn any<T: kani::Arbitrary>() -> T {
    kani::any()
}
