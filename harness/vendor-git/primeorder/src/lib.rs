//! Offline stand-in for the `primeorder` fork the repository depends on:
//! generic short-Weierstrass arithmetic with the complete formulas of
//! Renes-Costello-Batina 2015 (Algorithm 1), over whatever field and curve
//! constants the repository supplies through `PrimeCurveParams`.
pub use elliptic_curve::{self, Field, FieldBytes, PrimeCurve, PrimeField};

use elliptic_curve::{
    bigint::{ArrayEncoding, Encoding},
    group,
    ops::LinearCombination,
    rand_core::RngCore,
    sec1::{
        self, EncodedPoint, FromEncodedPoint, ModulusSize, ToEncodedPoint,
        
    },
    subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption},
    zeroize::DefaultIsZeroes,
    AffineArithmetic, AffineXCoordinate, Curve, FieldSize, ProjectiveArithmetic, ScalarArithmetic,
};
use std::borrow::Borrow;
use std::iter::Sum;
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

pub type Scalar<C> = <C as ScalarArithmetic>::Scalar;

pub trait PrimeCurveParams:
    PrimeCurve
    + ProjectiveArithmetic<ProjectivePoint = ProjectivePoint<Self>>
    + AffineArithmetic<AffinePoint = AffinePoint<Self>>
    + ScalarArithmetic
{
    type FieldElement: PrimeField<Repr = FieldBytes<Self>>;
    const ZERO: Self::FieldElement;
    const ONE: Self::FieldElement;
    const EQUATION_A: Self::FieldElement;
    const EQUATION_B: Self::FieldElement;
    const GENERATOR: (Self::FieldElement, Self::FieldElement);
}

#[derive(Clone, Copy, Debug)]
pub struct AffinePoint<C: PrimeCurveParams> {
    x: C::FieldElement,
    y: C::FieldElement,
    infinity: u8,
}

impl<C: PrimeCurveParams> AffinePoint<C> {
    pub const IDENTITY: Self = Self { x: C::ZERO, y: C::ZERO, infinity: 1 };
    pub const GENERATOR: Self = Self { x: C::GENERATOR.0, y: C::GENERATOR.1, infinity: 0 };

    pub fn is_identity(&self) -> Choice {
        Choice::from(self.infinity)
    }

    fn decompress_xy(x_bytes: &FieldBytes<C>, y_is_odd: Choice) -> CtOption<Self> {
        C::FieldElement::from_repr(x_bytes.clone()).and_then(|x| {
            let alpha = x * x * x + (C::EQUATION_A * x) + C::EQUATION_B;
            let beta = alpha.sqrt();
            beta.map(|beta| {
                let y = C::FieldElement::conditional_select(
                    &-beta,
                    &beta,
                    beta.is_odd().ct_eq(&y_is_odd),
                );
                Self { x, y, infinity: 0 }
            })
        })
    }
}

impl<C: PrimeCurveParams> AffineXCoordinate<C> for AffinePoint<C> {
    fn x(&self) -> FieldBytes<C> {
        self.x.to_repr()
    }
}

impl<C: PrimeCurveParams> ConditionallySelectable for AffinePoint<C> {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        Self {
            x: C::FieldElement::conditional_select(&a.x, &b.x, choice),
            y: C::FieldElement::conditional_select(&a.y, &b.y, choice),
            infinity: u8::conditional_select(&a.infinity, &b.infinity, choice),
        }
    }
}

impl<C: PrimeCurveParams> ConstantTimeEq for AffinePoint<C> {
    fn ct_eq(&self, other: &Self) -> Choice {
        self.x.ct_eq(&other.x) & self.y.ct_eq(&other.y) & self.infinity.ct_eq(&other.infinity)
    }
}

impl<C: PrimeCurveParams> Default for AffinePoint<C> {
    fn default() -> Self {
        Self::IDENTITY
    }
}
impl<C: PrimeCurveParams> DefaultIsZeroes for AffinePoint<C> {}
impl<C: PrimeCurveParams> Eq for AffinePoint<C> {}
impl<C: PrimeCurveParams> PartialEq for AffinePoint<C> {
    fn eq(&self, other: &Self) -> bool {
        self.ct_eq(other).into()
    }
}

impl<C: PrimeCurveParams> FromEncodedPoint<C> for AffinePoint<C>
where
    FieldSize<C>: ModulusSize,
{
    fn from_encoded_point(p: &EncodedPoint<C>) -> CtOption<Self> {
        match p.coordinates() {
            sec1::Coordinates::Identity => CtOption::new(Self::IDENTITY, 1.into()),
            sec1::Coordinates::Compact { x } => Self::decompress_xy(x, Choice::from(0)),
            sec1::Coordinates::Compressed { x, y_is_odd } => {
                Self::decompress_xy(x, Choice::from(y_is_odd as u8))
            }
            sec1::Coordinates::Uncompressed { x, y } => {
                C::FieldElement::from_repr(y.clone()).and_then(|y| {
                    C::FieldElement::from_repr(x.clone()).and_then(|x| {
                        let lhs = y * y;
                        let rhs = x * x * x + (C::EQUATION_A * x) + C::EQUATION_B;
                        CtOption::new(Self { x, y, infinity: 0 }, lhs.ct_eq(&rhs))
                    })
                })
            }
        }
    }
}

impl<C: PrimeCurveParams> ToEncodedPoint<C> for AffinePoint<C>
where
    FieldSize<C>: ModulusSize,
{
    fn to_encoded_point(&self, compress: bool) -> EncodedPoint<C> {
        if bool::from(self.is_identity()) {
            return EncodedPoint::<C>::identity();
        }
        EncodedPoint::<C>::from_affine_coordinates(&self.x.to_repr(), &self.y.to_repr(), compress)
    }
}

impl<C: PrimeCurveParams> Neg for AffinePoint<C> {
    type Output = Self;
    fn neg(self) -> Self {
        Self { x: self.x, y: -self.y, infinity: self.infinity }
    }
}
impl<C: PrimeCurveParams, S: Borrow<Scalar<C>>> Mul<S> for AffinePoint<C> {
    type Output = ProjectivePoint<C>;
    fn mul(self, s: S) -> ProjectivePoint<C> {
        ProjectivePoint::<C>::from(self).mul_scalar(s.borrow())
    }
}

#[derive(Clone, Copy, Debug)]
pub struct ProjectivePoint<C: PrimeCurveParams> {
    x: C::FieldElement,
    y: C::FieldElement,
    z: C::FieldElement,
}

impl<C: PrimeCurveParams> ProjectivePoint<C> {
    pub const IDENTITY: Self = Self { x: C::ZERO, y: C::ONE, z: C::ZERO };
    pub const GENERATOR: Self = Self { x: C::GENERATOR.0, y: C::GENERATOR.1, z: C::ONE };

    pub fn to_affine(&self) -> AffinePoint<C> {
        self.z
            .invert()
            .map(|zi| AffinePoint { x: self.x * zi, y: self.y * zi, infinity: 0 })
            .unwrap_or(AffinePoint::IDENTITY)
    }

    fn add_pp(&self, rhs: &Self) -> Self {
        let a = C::EQUATION_A;
        let b3 = C::EQUATION_B + C::EQUATION_B + C::EQUATION_B;
        let (x1, y1, z1) = (self.x, self.y, self.z);
        let (x2, y2, z2) = (rhs.x, rhs.y, rhs.z);
        let t0 = x1 * x2;
        let t1 = y1 * y2;
        let t2 = z1 * z2;
        let t3 = (x1 + y1) * (x2 + y2) - (t0 + t1);
        let t4 = (x1 + z1) * (x2 + z2) - (t0 + t2);
        let t5 = (y1 + z1) * (y2 + z2) - (t1 + t2);
        let z3 = b3 * t2 + a * t4;
        let x3 = t1 - z3;
        let z3 = t1 + z3;
        let y3 = x3 * z3;
        let t1 = t0 + t0 + t0;
        let t2 = a * t2;
        let t4 = b3 * t4;
        let t1 = t1 + t2;
        let t2 = a * (t0 - t2);
        let t4 = t4 + t2;
        let y3 = y3 + t1 * t4;
        let x3 = t3 * x3 - t5 * t4;
        let z3 = t5 * z3 + t3 * t1;
        Self { x: x3, y: y3, z: z3 }
    }

    fn mul_scalar(&self, k: &Scalar<C>) -> Self {
        let bytes = Into::<C::UInt>::into(*k).to_le_byte_array();
        let mut pc = [Self::IDENTITY; 16];
        pc[1] = *self;
        for i in 2..16 {
            pc[i] = pc[i - 1].add_pp(self);
        }
        let mut q = Self::IDENTITY;
        let mut first = true;
        for b in bytes.iter().rev() {
            for nib in [b >> 4, b & 15] {
                if !first {
                    for _ in 0..4 {
                        q = q.add_pp(&q.clone());
                    }
                }
                first = false;
                if nib != 0 {
                    q = q.add_pp(&pc[nib as usize]);
                }
            }
        }
        q
    }
}

impl<C: PrimeCurveParams> From<AffinePoint<C>> for ProjectivePoint<C> {
    fn from(p: AffinePoint<C>) -> Self {
        if p.infinity == 1 {
            Self::IDENTITY
        } else {
            Self { x: p.x, y: p.y, z: C::ONE }
        }
    }
}
impl<C: PrimeCurveParams> From<&AffinePoint<C>> for ProjectivePoint<C> {
    fn from(p: &AffinePoint<C>) -> Self {
        Self::from(*p)
    }
}
impl<C: PrimeCurveParams> From<ProjectivePoint<C>> for AffinePoint<C> {
    fn from(p: ProjectivePoint<C>) -> Self {
        p.to_affine()
    }
}
impl<C: PrimeCurveParams> From<&ProjectivePoint<C>> for AffinePoint<C> {
    fn from(p: &ProjectivePoint<C>) -> Self {
        p.to_affine()
    }
}
impl<C: PrimeCurveParams> ConditionallySelectable for ProjectivePoint<C> {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        Self {
            x: C::FieldElement::conditional_select(&a.x, &b.x, choice),
            y: C::FieldElement::conditional_select(&a.y, &b.y, choice),
            z: C::FieldElement::conditional_select(&a.z, &b.z, choice),
        }
    }
}
impl<C: PrimeCurveParams> ConstantTimeEq for ProjectivePoint<C> {
    fn ct_eq(&self, other: &Self) -> Choice {
        self.to_affine().ct_eq(&other.to_affine())
    }
}
impl<C: PrimeCurveParams> Default for ProjectivePoint<C> {
    fn default() -> Self {
        Self::IDENTITY
    }
}
impl<C: PrimeCurveParams> DefaultIsZeroes for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> Eq for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> PartialEq for ProjectivePoint<C> {
    fn eq(&self, other: &Self) -> bool {
        self.ct_eq(other).into()
    }
}

impl<C: PrimeCurveParams> group::Group for ProjectivePoint<C> {
    type Scalar = Scalar<C>;
    fn random(mut rng: impl RngCore) -> Self {
        Self::GENERATOR * <Scalar<C> as Field>::random(&mut rng)
    }
    fn identity() -> Self {
        Self::IDENTITY
    }
    fn generator() -> Self {
        Self::GENERATOR
    }
    fn is_identity(&self) -> Choice {
        self.ct_eq(&Self::IDENTITY)
    }
    fn double(&self) -> Self {
        self.add_pp(self)
    }
}

impl<C: PrimeCurveParams> group::Curve for ProjectivePoint<C> {
    type AffineRepr = AffinePoint<C>;
    fn to_affine(&self) -> AffinePoint<C> {
        ProjectivePoint::to_affine(self)
    }
}
impl<C: PrimeCurveParams> LinearCombination for ProjectivePoint<C> {}

macro_rules! binops {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $rhs:ident, $e:expr) => {
        impl<C: PrimeCurveParams> $tr<$rhs<C>> for ProjectivePoint<C> {
            type Output = ProjectivePoint<C>;
            fn $f(self, o: $rhs<C>) -> ProjectivePoint<C> {
                $e(&self, &ProjectivePoint::<C>::from(o))
            }
        }
        impl<C: PrimeCurveParams> $tr<&$rhs<C>> for ProjectivePoint<C> {
            type Output = ProjectivePoint<C>;
            fn $f(self, o: &$rhs<C>) -> ProjectivePoint<C> {
                $e(&self, &ProjectivePoint::<C>::from(*o))
            }
        }
        impl<C: PrimeCurveParams> $tr<&$rhs<C>> for &ProjectivePoint<C> {
            type Output = ProjectivePoint<C>;
            fn $f(self, o: &$rhs<C>) -> ProjectivePoint<C> {
                $e(self, &ProjectivePoint::<C>::from(*o))
            }
        }
        impl<C: PrimeCurveParams> $tra<$rhs<C>> for ProjectivePoint<C> {
            fn $fa(&mut self, o: $rhs<C>) {
                *self = $e(self, &ProjectivePoint::<C>::from(o));
            }
        }
        impl<C: PrimeCurveParams> $tra<&$rhs<C>> for ProjectivePoint<C> {
            fn $fa(&mut self, o: &$rhs<C>) {
                *self = $e(self, &ProjectivePoint::<C>::from(*o));
            }
        }
    };
}
fn addp<C: PrimeCurveParams>(a: &ProjectivePoint<C>, b: &ProjectivePoint<C>) -> ProjectivePoint<C> {
    a.add_pp(b)
}
fn subp<C: PrimeCurveParams>(a: &ProjectivePoint<C>, b: &ProjectivePoint<C>) -> ProjectivePoint<C> {
    a.add_pp(&-*b)
}
binops!(Add, add, AddAssign, add_assign, ProjectivePoint, addp);
binops!(Add, add, AddAssign, add_assign, AffinePoint, addp);
binops!(Sub, sub, SubAssign, sub_assign, ProjectivePoint, subp);
binops!(Sub, sub, SubAssign, sub_assign, AffinePoint, subp);

impl<C: PrimeCurveParams, S: Borrow<Scalar<C>>> Mul<S> for ProjectivePoint<C> {
    type Output = Self;
    fn mul(self, s: S) -> Self {
        self.mul_scalar(s.borrow())
    }
}
impl<C: PrimeCurveParams, S: Borrow<Scalar<C>>> MulAssign<S> for ProjectivePoint<C> {
    fn mul_assign(&mut self, s: S) {
        *self = self.mul_scalar(s.borrow());
    }
}
impl<C: PrimeCurveParams> Neg for ProjectivePoint<C> {
    type Output = Self;
    fn neg(self) -> Self {
        Self { x: self.x, y: -self.y, z: self.z }
    }
}
impl<C: PrimeCurveParams> Sum for ProjectivePoint<C> {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::IDENTITY, |a, b| a + b)
    }
}
impl<'a, C: PrimeCurveParams> Sum<&'a ProjectivePoint<C>> for ProjectivePoint<C> {
    fn sum<I: Iterator<Item = &'a ProjectivePoint<C>>>(iter: I) -> Self {
        iter.fold(Self::IDENTITY, |a, b| a + b)
    }
}
