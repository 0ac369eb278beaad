//! Element types of the live values in kernels.
/// An unsuspecting element type of a kernel's live state.
pub trait El: Copy + 'static {
    fn of(x: u64) -> Self;
    fn step(self, r: u64, i: u32, other: Self) -> Self;
    fn bits(self) -> u64;
}
macro_rules! ints {
    ($($t:ty),*) => { $(impl El for $t {
        #[inline(always)] fn of(x: u64) -> Self { x as $t ^ (x >> 32) as $t }
        #[inline(always)] fn step(self, r: u64, i: u32, o: Self) -> Self { self.rotate_left(i * 3 + 1).wrapping_add(r as $t) ^ o.wrapping_mul(i as $t * 2 + 3) }
        #[inline(always)] fn bits(self) -> u64 { self as u64 }
    })* };
}
ints!(u8, u32, u64, usize, u128);
macro_rules! floats {
    ($($t:ty),*) => { $(impl El for $t {
        #[inline(always)] fn of(x: u64) -> Self { (x % 1000) as $t * 0.5 + 1.0 }
        #[inline(always)] fn step(self, r: u64, i: u32, o: Self) -> Self { let v = self * 0.5 + (r % 256) as $t + o * 0.25 + i as $t; if v > 1e6 { v * 1e-3 } else { v } }
        #[inline(always)] fn bits(self) -> u64 { (self as f64).to_bits() }
    })* };
}
floats!(f32, f64);
#[derive(Clone, Copy)]
#[repr(align(16))]
pub struct V4(pub [f32; 4]);
impl El for V4 {
    #[inline(always)]
    fn of(x: u64) -> Self {
        V4([x as u8 as f32, 2.0, (x >> 8) as u8 as f32, 0.5])
    }
    #[inline(always)]
    fn step(self, r: u64, i: u32, o: Self) -> Self {
        let k = (r % 128) as f32 + i as f32;
        let mut a = [0.0; 4];
        for j in 0..4 {
            let v = self.0[j] * 0.5 + o.0[3 - j] * 0.25 + k;
            a[j] = v;
        }
        V4(a)
    }
    #[inline(always)]
    fn bits(self) -> u64 {
        self.0.iter().fold(0, |h, x| h.rotate_left(9) ^ x.to_bits() as u64)
    }
}

