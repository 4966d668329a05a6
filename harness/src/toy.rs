//! A transparent bilinear group: every element IS its exponent modulo a prime,
//! so that the specification can look at what the scheme really computed.
use core::ops::{Add, Div, Mul, Neg, Sub};

use cosmian_abe_gpsw::{
    core::{bilinear_map::BilinearMap, gpsw::AsBytes},
    error::FormatErr,
};
use rand::{CryptoRng, RngCore};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct E<const P: u64>(pub u64);

fn addm(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 + b as u128) % p as u128) as u64
}
fn mulm(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % p as u128) as u64
}
fn powm(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1u64;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a, p);
        }
        a = mulm(a, a, p);
        e >>= 1;
    }
    r
}

impl<'a, const P: u64> Add<&'a Self> for E<P> {
    type Output = Self;
    fn add(self, r: &'a Self) -> Self {
        E(addm(self.0, r.0, P))
    }
}
impl<'a, const P: u64> Sub<&'a Self> for E<P> {
    type Output = Self;
    fn sub(self, r: &'a Self) -> Self {
        E(addm(self.0, P - r.0, P))
    }
}
impl<'a, const P: u64> Mul<&'a Self> for E<P> {
    type Output = Self;
    fn mul(self, r: &'a Self) -> Self {
        E(mulm(self.0, r.0, P))
    }
}
impl<'a, const P: u64> Div<&'a Self> for E<P> {
    type Output = Self;
    fn div(self, r: &'a Self) -> Self {
        assert!(r.0 != 0, "division by zero");
        E(mulm(self.0, powm(r.0, P - 2, P), P))
    }
}
impl<const P: u64> Neg for E<P> {
    type Output = Self;
    fn neg(self) -> Self {
        E((P - self.0) % P)
    }
}
impl<const P: u64> From<i32> for E<P> {
    fn from(i: i32) -> Self {
        E((i64::from(i)).rem_euclid(P as i64) as u64)
    }
}
impl<const P: u64> AsBytes for E<P> {
    fn try_into_bytes(&self) -> Result<Vec<u8>, FormatErr> {
        Ok(self.0.to_be_bytes().to_vec())
    }
    fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
        if bytes.len() < 8 {
            return Err(FormatErr::InvalidSize("toy element".to_string()));
        }
        let mut b = [0u8; 8];
        b.copy_from_slice(&bytes[..8]);
        let v = u64::from_be_bytes(b);
        if v >= P {
            return Err(FormatErr::Deserialization("toy element range".to_string()));
        }
        Ok(E(v))
    }
    fn len_bytes(&self) -> usize {
        8
    }
}

#[derive(Default, Debug, PartialEq, Eq, Clone)]
pub struct Toy<const P: u64>;

impl<const P: u64> BilinearMap for Toy<P> {
    type G1 = E<P>;
    type G2 = E<P>;
    type G3 = E<P>;
    type Gt = E<P>;
    type Scalar = E<P>;

    const ONE: E<P> = E(1);
    const ZERO: E<P> = E(0);

    fn description() -> String {
        format!("toy group of order {P}")
    }
    fn gen_rand_scalar_inner<R: CryptoRng + RngCore>(&self, rng: &mut R) -> Result<E<P>, FormatErr> {
        // never zero: the BLS12-381 order makes zero unobservable, a small prime would not
        Ok(E(1 + rng.next_u64() % (P - 1)))
    }
    fn gen_rand_gt_inner<R: CryptoRng + RngCore>(&self, rng: &mut R) -> Result<E<P>, FormatErr> {
        Ok(E(1 + rng.next_u64() % (P - 1)))
    }
    fn msg_to_scalar(&self, msg: &[u8]) -> Result<E<P>, FormatErr> {
        let mut v = 0u64;
        for b in msg {
            v = (v * 256 + u64::from(*b)) % P;
        }
        Ok(E(v))
    }
    fn g1_gen_exp(&self, x: &E<P>) -> (E<P>, E<P>) {
        (*x, *x)
    }
    fn g3_gen_exp(&self, x: &E<P>) -> E<P> {
        *x
    }
    fn g3_mul(&self, a: &E<P>, b: &E<P>) -> (E<P>, E<P>) {
        let r = *a + b;
        (r, r)
    }
    fn g3_exp(&self, a: &E<P>, x: &E<P>) -> E<P> {
        *a * x
    }
    fn g2_gen_exp(&self, x: &E<P>) -> E<P> {
        *x
    }
    fn g2_exp(&self, a: &E<P>, x: &E<P>) -> E<P> {
        *a * x
    }
    fn gt_gen_exp(&self, x: &E<P>) -> E<P> {
        *x
    }
    fn gt_exp(&self, a: &E<P>, x: &E<P>) -> E<P> {
        *a * x
    }
    fn gt_mul(&self, a: &E<P>, b: &E<P>) -> E<P> {
        *a + b
    }
    fn gt_div(&self, a: &E<P>, b: &E<P>) -> E<P> {
        *a - b
    }
    fn prod_gt_exp(&self, d_i: &[&E<P>], e_i: &[&E<P>], a_i: &[&E<P>]) -> E<P> {
        let mut r = E(0);
        for ((d, e), a) in d_i.iter().zip(e_i).zip(a_i) {
            r = r + &((**d * *e) * *a);
        }
        r
    }
    fn g3_to_g1(v: &E<P>) -> E<P> {
        *v
    }
}

/// small prime: products fit TLC's 32 bit integers
pub type ToyS = Toy<32749>;
/// large prime: equal random values never happen by chance
pub type ToyL = Toy<2_305_843_009_213_693_951>;
