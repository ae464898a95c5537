//! Field elements with their derivatives, for the constraints as they are written.
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::packed::PackedField;
use plonky2::field::types::Field;
use starky::constraint_consumer::ConstraintConsumer;
use std::cell::{Cell, RefCell};
use std::iter::{Product, Sum};
use std::ops::*;

/// A value, and its derivatives by N - 1 variables.
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(transparent)]
pub struct Dual<const N: usize>(pub [F; N]);

thread_local! {
    static PENDING: Cell<bool> = const { Cell::new(false) };
    static SEEN: RefCell<Vec<F>> = const { RefCell::new(vec![]) };
}
/// The only alpha: who is multiplied by it is about to take up a constraint.
const ALPHA: u64 = 0x5eed_0fa1_fa11_ab1e;

/// All constraints that `eval` gives to its consumer.
pub fn constraints<const N: usize>(first: bool, last: bool, eval: impl FnOnce(&mut ConstraintConsumer<Dual<N>>)) -> Vec<Dual<N>> {
    let b = |b: bool| Dual::from(F::from_bool(b));
    let mut c = ConstraintConsumer::new(vec![F::from_canonical_u64(ALPHA)], b(!last), b(first), b(last));
    SEEN.with(|s| s.borrow_mut().clear());
    eval(&mut c);
    SEEN.with(|s| s.borrow().chunks_exact(N).map(|c| Dual(c.try_into().unwrap())).collect())
}
impl<const N: usize> Default for Dual<N> {
    fn default() -> Self {
        Dual([F::ZERO; N])
    }
}
impl<const N: usize> From<F> for Dual<N> {
    fn from(x: F) -> Self {
        let mut v = [F::ZERO; N];
        v[0] = x;
        Dual(v)
    }
}
impl<const N: usize> Add for Dual<N> {
    type Output = Self;
    fn add(mut self, o: Self) -> Self {
        for i in 0..N {
            self.0[i] += o.0[i];
        }
        self
    }
}
impl<const N: usize> Sub for Dual<N> {
    type Output = Self;
    fn sub(mut self, o: Self) -> Self {
        for i in 0..N {
            self.0[i] -= o.0[i];
        }
        self
    }
}
impl<const N: usize> Mul for Dual<N> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let mut v = [self.0[0] * o.0[0]; N];
        for i in 1..N {
            v[i] = self.0[0] * o.0[i] + self.0[i] * o.0[0];
        }
        Dual(v)
    }
}
impl<const N: usize> Neg for Dual<N> {
    type Output = Self;
    fn neg(self) -> Self {
        Dual(self.0.map(|x| -x))
    }
}
impl<const N: usize> Add<F> for Dual<N> {
    type Output = Self;
    fn add(mut self, o: F) -> Self {
        self.0[0] += o;
        self
    }
}
impl<const N: usize> Sub<F> for Dual<N> {
    type Output = Self;
    fn sub(mut self, o: F) -> Self {
        self.0[0] -= o;
        self
    }
}
impl<const N: usize> Mul<F> for Dual<N> {
    type Output = Self;
    fn mul(self, o: F) -> Self {
        Dual(self.0.map(|x| x * o))
    }
}
impl<const N: usize> Div<F> for Dual<N> {
    type Output = Self;
    fn div(self, o: F) -> Self {
        self * o.inverse()
    }
}
impl<const N: usize> Add<Dual<N>> for F {
    type Output = Dual<N>;
    fn add(self, o: Dual<N>) -> Dual<N> {
        o + self
    }
}
impl<const N: usize> Sub<Dual<N>> for F {
    type Output = Dual<N>;
    fn sub(self, o: Dual<N>) -> Dual<N> {
        -o + self
    }
}
impl<const N: usize> Mul<Dual<N>> for F {
    type Output = Dual<N>;
    fn mul(self, o: Dual<N>) -> Dual<N> {
        o * self
    }
}
impl<const N: usize> AddAssign for Dual<N> {
    fn add_assign(&mut self, o: Self) {
        if PENDING.take() {
            SEEN.with(|s| s.borrow_mut().extend(o.0));
            return;
        }
        *self = *self + o;
    }
}
impl<const N: usize> SubAssign for Dual<N> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o;
    }
}
impl<const N: usize> MulAssign for Dual<N> {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o;
    }
}
impl<const N: usize> AddAssign<F> for Dual<N> {
    fn add_assign(&mut self, o: F) {
        self.0[0] += o;
    }
}
impl<const N: usize> SubAssign<F> for Dual<N> {
    fn sub_assign(&mut self, o: F) {
        self.0[0] -= o;
    }
}
impl<const N: usize> MulAssign<F> for Dual<N> {
    fn mul_assign(&mut self, o: F) {
        if o.0 == ALPHA {
            PENDING.set(true);
            return;
        }
        *self = *self * o;
    }
}
impl<const N: usize> Sum for Dual<N> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::ZEROS, |a, b| a + b)
    }
}
impl<const N: usize> Product for Dual<N> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::ONES, |a, b| a * b)
    }
}
// Safety: a Dual<N> is an array of N field elements, and N is used as a power of two.
unsafe impl<const N: usize> PackedField for Dual<N> {
    type Scalar = F;
    const WIDTH: usize = N;
    const ZEROS: Self = Dual([F::ZERO; N]);
    const ONES: Self = {
        let mut v = [F::ZERO; N];
        v[0] = F::ONE;
        Dual(v)
    };
    fn from_slice(s: &[F]) -> &Self {
        let a: &[F; N] = s.try_into().unwrap();
        unsafe { &*(a as *const [F; N]).cast() }
    }
    fn from_slice_mut(s: &mut [F]) -> &mut Self {
        let a: &mut [F; N] = s.try_into().unwrap();
        unsafe { &mut *(a as *mut [F; N]).cast() }
    }
    fn as_slice(&self) -> &[F] {
        &self.0
    }
    fn as_slice_mut(&mut self) -> &mut [F] {
        &mut self.0
    }
    fn interleave(&self, _: Self, _: usize) -> (Self, Self) {
        unreachable!()
    }
}
