use crate::field::Fp;
use crate::bn254::Fr;
use crate::simd::Simd;

/// Flat memory image of a value (the absent `gkr_engine::MPISharedMemory`).
pub trait MPISharedMemory: Sized {
    fn bytes_size(&self) -> usize;
    fn to_memory(&self, ptr: &mut *mut u8);
    fn new_from_memory(ptr: &mut *mut u8) -> Self;
    fn discard_control_of_shared_mem(self);
}
macro_rules! pod {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> MPISharedMemory for $t {
            fn bytes_size(&self) -> usize { std::mem::size_of::<$t>() }
            fn to_memory(&self, ptr: &mut *mut u8) {
                unsafe {
                    (*ptr as *mut $t).write_unaligned(*self);
                    *ptr = ptr.add(std::mem::size_of::<$t>());
                }
            }
            fn new_from_memory(ptr: &mut *mut u8) -> Self {
                unsafe {
                    let r = (*ptr as *const $t).read_unaligned();
                    *ptr = ptr.add(std::mem::size_of::<$t>());
                    r
                }
            }
            fn discard_control_of_shared_mem(self) {}
        }
    };
}
pod!([] usize);
pod!([] u8);
pod!([] u32);
pod!([] u64);
pod!([] bool);
pod!([const P: u64] Fp<P>);
pod!([] Fr);
pod!([F: Copy, const N: usize] Simd<F, N>);

/// Element copy. Expander aliases the shared window instead; the observable content is the same.
impl<T: Copy> MPISharedMemory for Vec<T> {
    fn bytes_size(&self) -> usize {
        8 + self.len() * std::mem::size_of::<T>()
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.len().to_memory(ptr);
        for x in self {
            unsafe {
                (*ptr as *mut T).write_unaligned(*x);
                *ptr = ptr.add(std::mem::size_of::<T>());
            }
        }
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        let n = usize::new_from_memory(ptr);
        (0..n)
            .map(|_| unsafe {
                let r = (*ptr as *const T).read_unaligned();
                *ptr = ptr.add(std::mem::size_of::<T>());
                r
            })
            .collect()
    }
    fn discard_control_of_shared_mem(self) {}
}
impl<A: MPISharedMemory, B: MPISharedMemory> MPISharedMemory for (A, B) {
    fn bytes_size(&self) -> usize {
        self.0.bytes_size() + self.1.bytes_size()
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.0.to_memory(ptr);
        self.1.to_memory(ptr);
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        let a = A::new_from_memory(ptr);
        let b = B::new_from_memory(ptr);
        (a, b)
    }
    fn discard_control_of_shared_mem(self) {}
}
