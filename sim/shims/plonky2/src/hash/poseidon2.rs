use core::fmt::Debug;

use super::hash_types::{HashOut, RichField};
use super::hashing::{hash_n_to_hash_no_pad, PlonkyPermutation};
use crate::field::goldilocks_field::GoldilocksField;
use crate::field::types::PrimeField64;
use crate::iop::target::Target;
use crate::plonk::circuit_builder::CircuitBuilder;
use crate::plonk::config::{AlgebraicHasher, Hasher};

pub const WIDTH: usize = 12;
pub const RATE: usize = 8;
pub const ROUND_F_BEGIN: usize = 4;
pub const ROUND_F_END: usize = 2 * ROUND_F_BEGIN;
pub const ROUND_P: usize = 22;

/// Shape of the real permutation; the constants are the simulator's own.
pub trait Poseidon2: PrimeField64 {
    const MAT_DIAG12_M_1: [u64; WIDTH];
    const RC12: [u64; WIDTH * ROUND_F_END];
    const RC12_MID: [u64; ROUND_P];

    fn matmul_m4(x: &mut [Self; WIDTH]) {
        for i in 0..WIDTH / 4 {
            let s = i * 4;
            let t0 = x[s] + x[s + 1];
            let t1 = x[s + 2] + x[s + 3];
            let t2 = x[s + 1] + x[s + 1] + t1;
            let t3 = x[s + 3] + x[s + 3] + t0;
            let four = |t: Self| { let d = t + t; d + d };
            let t4 = four(t1) + t3;
            let t5 = four(t0) + t2;
            let t6 = t3 + t5;
            let t7 = t2 + t4;
            x[s] = t6;
            x[s + 1] = t5;
            x[s + 2] = t7;
            x[s + 3] = t4;
        }
    }
    fn matmul_external(x: &mut [Self; WIDTH]) {
        Self::matmul_m4(x);
        let mut stored = [Self::ZERO; 4];
        for l in 0..4 {
            stored[l] = x[l];
            for j in 1..WIDTH / 4 { stored[l] += x[4 * j + l]; }
        }
        for i in 0..WIDTH { x[i] += stored[i % 4]; }
    }
    fn matmul_internal(x: &mut [Self; WIDTH], diag_m_1: &[u64; WIDTH]) {
        let sum: Self = x.iter().copied().sum();
        for i in 0..WIDTH {
            x[i] = x[i] * (Self::from_noncanonical_u64(diag_m_1[i]) - Self::ONE) + sum;
        }
    }
    /// The tables add `RC12[round + i]`, and the repository's tests say both agree.
    fn constant_layer(x: &mut [Self; WIDTH], round: usize) {
        for i in 0..WIDTH { x[i] += Self::from_noncanonical_u64(Self::RC12[round + i]); }
    }
    fn sbox_monomial(x: Self) -> Self { let x3 = x * x * x; x3 * x3 * x }
    fn sbox_layer(x: &mut [Self; WIDTH]) { for v in x.iter_mut() { *v = Self::sbox_monomial(*v); } }
    fn poseidon2(input: [Self; WIDTH]) -> [Self; WIDTH] {
        let mut s = input;
        Self::matmul_external(&mut s);
        for r in 0..ROUND_F_BEGIN {
            Self::constant_layer(&mut s, r);
            Self::sbox_layer(&mut s);
            Self::matmul_external(&mut s);
        }
        for r in 0..ROUND_P {
            s[0] += Self::from_noncanonical_u64(Self::RC12_MID[r]);
            s[0] = Self::sbox_monomial(s[0]);
            Self::matmul_internal(&mut s, &Self::MAT_DIAG12_M_1);
        }
        for r in ROUND_F_BEGIN..ROUND_F_END {
            Self::constant_layer(&mut s, r);
            Self::sbox_layer(&mut s);
            Self::matmul_external(&mut s);
        }
        s
    }
}

impl Poseidon2 for GoldilocksField {
    const MAT_DIAG12_M_1: [u64; WIDTH] = [0x61d7314da7e779b8, 0xfb6fd4098b0e0191, 0xf2def8b1e2b828ef, 0x4dcbf4e22cb1afd8, 0xe399393e80ed6fee, 0x335490cc374733f2, 0x45f1e41d45d10c11, 0x2b6598f41eeeb3d4, 0x2c716e2138b9a7ec, 0x30d16e9c7d72e0b9, 0x923d92782eab4b96, 0xea777449b4546b5d];
    const RC12: [u64; WIDTH * ROUND_F_END] = [0x244e8794daa58129, 0xdaa2b99ccba03b97, 0x306c3b1148ad7a22, 0xbfb280ff1c852b40, 0x8f19b938f7700094, 0xeb0a73f7d4b5f5c3, 0x2b3c8dbfb6a5a8d9, 0x967cd71e186f15a1, 0x9a217757c08d27a7, 0xb0fa8d868a7a0b72, 0x9f73f2c424343b0d, 0x014c8a79f1cb06ea, 0xa931555c9f97bdf7, 0x9861febafb084e5a, 0x780591dd363488e1, 0x6ad3a1e175c53539, 0x745dcc57d6d60dd3, 0x244eb0ca69318b8b, 0xeb8be811fa76a9cc, 0x44bb227e93897876, 0x50d97744c4c88e37, 0xa5d4e8c9b7f757ee, 0x0f58d6f1c764bb76, 0xebd2ad8735446121, 0xcc0292b59fe2365b, 0x8d928092eea94ae6, 0x223015b72096d7f6, 0x893c205310a4a314, 0xb53d47c02a82fec5, 0x6fc02b0a2c56d082, 0x7e88475ec31543d2, 0xe3d28cf9d7ca922b, 0xfd3dafc563d06b92, 0x6a3447a1ea7a099b, 0x8a213b709747f277, 0x606083b6501ac2d7, 0xb357331e6aa7f71c, 0xc9e343a50ac6c1d4, 0xc42b4118e5ee4243, 0x3c2dd449116c45e2, 0x13193fc708395f13, 0xd435956b02489b5b, 0x4c5c67af9d2ea27c, 0xc4747da6685bce6e, 0x325d62be688c271b, 0x97c006940d37877f, 0x45d4d018707e6b9f, 0xcb04ddc5320b3b94, 0x243f27efb153e072, 0xc0bf0a288ff3782b, 0x3355cbf32b5f185c, 0x7d2248e50e8f8817, 0xb0648e2040093863, 0x384674772378b702, 0x98fbe7dfbeaada8b, 0x97c0c60a41d74226, 0x98ad0ad83638eb29, 0x675a9a5f770208ab, 0x49f1e7afd506091d, 0xd1026fc2d8985156, 0x8395f9a575d41851, 0x43eb7fade24da9ee, 0x716b9d1bf0447f2f, 0x35437b6c7ca776de, 0x180293d0013cfe37, 0xc75e05353a824ca2, 0x4da4fbbcd9eaba0b, 0xd1ec8a943728f717, 0x9b8d77bb694f42e5, 0xc52a26228d28394c, 0x4779578fdf1a8981, 0xfeb31a65a2c32632, 0x47dd0d4a8913c426, 0x815cab0622144396, 0xcf75fc4ff0b46a87, 0x66faf5d28d2ffcae, 0x2f875e5ebb9132eb, 0x1d325088ce0960e8, 0x68a5fce8b310a04e, 0x6bc89f9064b6d02d, 0x4df548c01e007695, 0x3a93f12cc2d47311, 0xecd1b9ded581c9c4, 0x7b354b75e90ae108, 0xca4d4d4eeb1df584, 0xa3fd8fdbbfbb10b3, 0x83177d4629f962b0, 0x10ce46db7f5fda9c, 0x4fe931b88328912a, 0xc144a094709e0b9d, 0x1487bf85a046627c, 0xce3bbfcee2105389, 0x9399420118727706, 0x4cd0da8250627c81, 0x46ee108cd5a70058, 0xbf3d9b3959882d17];
    const RC12_MID: [u64; ROUND_P] = [0xf9d8e197a203aaa5, 0x78f78476f0ba841b, 0x0c1aefe5c97e113e, 0xa3433de3dd6be0f1, 0x96619b96d1968d24, 0x7c048cb887b721fd, 0xc1ce3624fdfa204e, 0xfa17e5a06d94961c, 0x29f2ec69ce06e495, 0x7e1c012e57e209e6, 0x7d55b3493d237ddf, 0x1d87ae1a392497a8, 0x96351c3651c825fa, 0xe4ad32cf6282e0b2, 0x47abf212d37f1a44, 0x3f6703e1db52b4b3, 0x79351df200e8e22d, 0x03c1af0a305dc69f, 0x3d10ba37442557f2, 0x4a2b328d225bb2ea, 0x7105dcabbbe78a43, 0xe09cebf8194f4bbf];
}

#[derive(Copy, Clone, Default, Debug, PartialEq, Eq)]
pub struct Poseidon2Permutation<T> {
    state: [T; WIDTH],
}
impl<T> AsRef<[T]> for Poseidon2Permutation<T> {
    fn as_ref(&self) -> &[T] { &self.state }
}

pub trait Permuter: Sized {
    fn permute(input: [Self; WIDTH]) -> [Self; WIDTH];
}
impl<F: Poseidon2> Permuter for F {
    fn permute(input: [Self; WIDTH]) -> [Self; WIDTH] { <F as Poseidon2>::poseidon2(input) }
}
impl Permuter for Target {
    fn permute(_: [Self; WIDTH]) -> [Self; WIDTH] { panic!("call permute_circuit instead") }
}

impl<T: Copy + Debug + Default + Eq + Permuter + Send + Sync> PlonkyPermutation<T> for Poseidon2Permutation<T> {
    const RATE: usize = RATE;
    const WIDTH: usize = WIDTH;

    fn new<I: IntoIterator<Item = T>>(elts: I) -> Self {
        let mut perm = Self { state: [T::default(); WIDTH] };
        perm.set_from_iter(elts, 0);
        perm
    }
    fn set_elt(&mut self, elt: T, idx: usize) { self.state[idx] = elt; }
    fn set_from_slice(&mut self, elts: &[T], start: usize) {
        self.state[start..start + elts.len()].copy_from_slice(elts);
    }
    fn set_from_iter<I: IntoIterator<Item = T>>(&mut self, elts: I, start: usize) {
        for (s, e) in self.state[start..].iter_mut().zip(elts) { *s = e; }
    }
    fn permute(&mut self) { self.state = T::permute(self.state); }
    fn squeeze(&self) -> &[T] { &self.state[..RATE] }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Default)]
pub struct Poseidon2Hash;
impl<F: RichField> Hasher<F> for Poseidon2Hash {
    type Hash = HashOut<F>;
    type Permutation = Poseidon2Permutation<F>;
    const HASH_SIZE: usize = 32;

    fn hash_no_pad(input: &[F]) -> HashOut<F> { hash_n_to_hash_no_pad::<F, Self::Permutation>(input) }
    fn two_to_one(l: HashOut<F>, r: HashOut<F>) -> HashOut<F> {
        let mut perm = Poseidon2Permutation::<F>::new(core::iter::repeat(F::ZERO));
        perm.set_from_slice(&l.elements, 0);
        perm.set_from_slice(&r.elements, 4);
        perm.permute();
        HashOut { elements: perm.squeeze()[..4].try_into().unwrap() }
    }
}
impl<F: RichField> AlgebraicHasher<F> for Poseidon2Hash {
    type AlgebraicPermutation = Poseidon2Permutation<Target>;
}
