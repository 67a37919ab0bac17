use crate::symgroup::{G, GA};
use ff::{Field, PrimeField};
use halo2_proofs::poly::Rotation;
use pasta_curves::Fp;
use rand_core::{CryptoRng, RngCore};

/// Runs `f` inside a rayon pool with `t` threads (thread count decides chunking in the library).
pub fn pool<R: Send>(t: usize, f: impl FnOnce() -> R + Send) -> R {
    rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap().install(f)
}
pub fn root(k: u32) -> Fp {
    let mut w = Fp::ROOT_OF_UNITY;
    for _ in k..Fp::S {
        w = w.square();
    }
    w
}
/// w^e for any integer e, w of order n = 2^k
pub fn wpow(k: u32, e: i64) -> Fp {
    let n = 1i64 << k;
    root(k).pow_vartime([e.rem_euclid(n) as u64])
}
pub fn pw(x: Fp, e: u64) -> Fp {
    let mut r = Fp::one();
    for _ in 0..e {
        r = r * x;
    }
    r
}
/// Σ c_i x^i
pub fn ev(c: &[Fp], x: Fp) -> Fp {
    let mut acc = Fp::zero();
    let mut p = Fp::one();
    for c in c {
        acc = acc + *c * p;
        p = p * x;
    }
    acc
}
pub fn pmul(a: &[Fp], b: &[Fp]) -> Vec<Fp> {
    let mut r = vec![Fp::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j] + *x * *y;
        }
    }
    r
}
pub fn inv(x: Fp) -> Fp {
    x.invert().unwrap()
}
/// Lagrange interpolation over the 2^k domain, straight from the definition of the inverse DFT.
pub fn idft(v: &[Fp], k: u32) -> Vec<Fp> {
    let n = 1usize << k;
    assert_eq!(v.len(), n);
    let ni = inv(Fp::from(n as u64));
    (0..n)
        .map(|i| (0..n).map(|j| v[j] * wpow(k, -((i * j) as i64))).fold(Fp::zero(), |a, b| a + b) * ni)
        .collect()
}
pub fn rot(r: i32) -> Rotation {
    Rotation(r)
}
pub fn sum(it: impl Iterator<Item = Fp>) -> Fp {
    it.fold(Fp::zero(), |a, b| a + b)
}
pub fn gsum(it: impl Iterator<Item = G>) -> G {
    use group::Group;
    it.fold(G::identity(), |a, b| a + b)
}
pub fn ga(g: G) -> GA {
    g.into()
}
/// deterministic generator
pub struct Rng(pub u64);
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Rng {}
