#[cfg(kani)]
mod proofs {
    use halo2_proofs::arithmetic::verif_window;
    use pasta_curves::vesta::Affine;

    /// For every scalar encoding: the windows of segments 0..=256/c are exactly its base-2^c digits.
    fn digits(c: usize) {
        let bytes: [u8; 32] = kani::any();
        let seg: usize = kani::any();
        kani::assume(seg <= 256 / c);
        let w = verif_window::<Affine>(c, seg, &bytes);
        assert!(w < 1 << c);
        // any bit of any digit
        let j: usize = kani::any();
        kani::assume(j < c);
        let at = seg * c + j;
        let want = if at < 256 { bytes[at / 8] >> (at % 8) & 1 } else { 0 };
        assert!((w >> j & 1) as u8 == want);
    }
    macro_rules! per {
        ($($n:ident $c:expr),*) => {$(
            #[kani::proof]
            #[kani::unwind(34)]
            fn $n() { digits($c) }
        )*};
    }
    per!(window_01 1, window_02 2, window_03 3, window_04 4, window_05 5, window_06 6, window_07 7, window_08 8,
         window_09 9, window_10 10, window_11 11, window_12 12, window_13 13, window_14 14, window_15 15, window_16 16,
         window_17 17, window_18 18, window_19 19, window_20 20, window_21 21, window_22 22, window_23 23, window_24 24);
}
