//! P02: multi-scalar multiplication.
use super::util::*;
use crate::core::*;
use crate::symgroup::{G, GA};
use ff::{Field, PrimeField};
use group::Group;
use halo2_proofs::arithmetic::{best_multiexp, small_multiexp};
use pasta_curves::Fp;
use std::process::Command;

/// scalars hitting every digit value, carries, the extremes of the field and repetitions
fn scalar(r: &mut Rng, kind: u64) -> Fp {
    use rand_core::RngCore;
    match kind {
        0 => Fp::zero(),
        1 => Fp::one(),
        2 => -Fp::one(),
        3 => Fp::from(r.next_u64() % 32),
        4 => pw(Fp::from(2), r.next_u64() % 255),
        5 => pw(Fp::from(2), 1 + r.next_u64() % 254) - Fp::one(),
        6 => -Fp::from(r.next_u64() % 32),
        _ => Fp::random(r),
    }
}
fn naive(s: &[Fp], b: &[GA]) -> G {
    gsum(s.iter().zip(b).map(|(s, b)| *b * *s))
}
fn bases(h: &mut H, n: usize) -> Vec<GA> {
    let gens: Vec<G> = (0..n.min(3)).map(|i| h.gen(&format!("G{}", i))).collect();
    (0..n)
        .map(|i| match i % 11 {
            7 => G::identity().into(),
            8 => (-G::from(gens[0])).into(),
            _ => {
                let a = h.fp(&format!("a{}", i));
                (gens[i % gens.len()] * a).into()
            }
        })
        .collect()
}
/// the base-2^c digits that matter: run the library with a single interesting scalar
fn width(c: usize) -> usize {
    match c {
        1 => 3,
        3 => 4,
        _ => ((c as f64 - 0.5).exp()) as usize,
    }
}
pub fn p02(cx: &mut Cx) {
    let deep = tier_thorough();
    cx.functions(&["arithmetic::best_multiexp", "arithmetic::small_multiexp", "Buckets::{sum,get_at}", "Bucket::{add_assign,add}", "multicore::TheBestReduce::the_best_reduce"]);
    cx.bound(&format!(
        "digit extraction: every 32-byte scalar encoding and segment, digit widths 1..{} (Kani/CBMC); bucket sums: every base point, lengths 0..{}, every pair of digits for widths 1 and 3, structured scalars otherwise, pools of 1..8 threads",
        if deep { 24 } else { 12 },
        if deep { 160 } else { 72 }
    ));
    // every digit pattern of two scalars (width 1) and four scalars (width 3)
    for t in [1usize, 4] {
        cx.run(&format!("digits/threads{}", t), |h| {
            halo2_proofs::verif::set_naive_multiexp(false);
            let b = bases(h, 4);
            pool_t(t, h, |h| {
                for x in 0..4u64 {
                    for y in 0..4u64 {
                        let s = [Fp::from(x), Fp::from(y)];
                        h.geq("width 1", best_multiexp(&s, &b[..2]), naive(&s, &b[..2]));
                    }
                }
                for x in 0..16u64 {
                    for y in 0..16u64 {
                        // the two further scalars share a bucket with the first ones or not
                        let s = [Fp::from(x), Fp::from(y), Fp::from(x * 8 + y), Fp::from(y % 3)];
                        h.geq("width 3", best_multiexp(&s, &b), naive(&s, &b));
                    }
                }
            });
        });
    }
    let lens: Vec<usize> = if deep { (0..=160).collect() } else { (0..=9).chain([15, 16, 17, 30, 31, 32, 33, 54, 55, 56, 63, 64, 65, 72]).collect() };
    for t in if deep { vec![1usize, 2, 3, 4, 5, 6, 7, 8] } else { vec![1, 2, 4, 8] } {
        cx.run(&format!("lengths/threads{}", t), |h| {
            halo2_proofs::verif::set_naive_multiexp(false);
            let all = bases(h, 160);
            let mut r = Rng(h.rand_u64("s"));
            pool_t(t, h, |h| {
                for n in lens.iter().copied() {
                    for kind in [0u64, 2, 4, 5, 8, 9] {
                        let s: Vec<Fp> = (0..n)
                            .map(|i| {
                                let k = if kind == 9 { i as u64 % 8 } else { kind };
                                scalar(&mut r, k)
                            })
                            .collect();
                        h.geq(&format!("{} terms", n), best_multiexp(&s, &all[..n]), naive(&s, &all[..n]));
                        if n <= 9 {
                            h.geq(&format!("{} terms, small", n), small_multiexp(&s, &all[..n]), naive(&s, &all[..n]));
                        }
                    }
                }
            });
        });
    }
    // every single bit reaches its place, for each width
    for c in [1usize, 3, 4, 5].iter().chain(if deep { [6usize, 7].iter() } else { [].iter() }) {
        let n = width(*c);
        cx.run(&format!("bits/width{}", c), |h| {
            halo2_proofs::verif::set_naive_multiexp(false);
            let b = bases(h, n);
            pool_t(4, h, |h| {
                for bit in 0..255u64 {
                    let mut s = vec![Fp::zero(); n];
                    s[bit as usize % n] = pw(Fp::from(2), bit);
                    h.geq(&format!("bit {}", bit), best_multiexp(&s, &b), naive(&s, &b));
                    if n <= 4 {
                        h.geq(&format!("bit {}, small", bit), small_multiexp(&s, &b), naive(&s, &b));
                    }
                }
            });
        });
    }
    cx.witness("swapped scalars", |h| {
        halo2_proofs::verif::set_naive_multiexp(false);
        let b = bases(h, 4);
        let s = [Fp::from(5), Fp::from(6), Fp::from(7), Fp::from(8)];
        let t = [Fp::from(6), Fp::from(5), Fp::from(7), Fp::from(8)];
        h.geq("swapped", best_multiexp(&s, &b), naive(&t, &b));
    });
    windows(cx, if deep { 24 } else { 12 });
}
fn pool_t(t: usize, h: &mut H, f: impl FnOnce(&mut H) + Send) {
    super::arith::pool_h(t, h, f)
}

fn kani(args: &[&str]) -> String {
    let d = format!("{}/kproofs", verif_dir());
    let o = Command::new("cargo")
        .current_dir(&d)
        .env_remove("RUSTUP_TOOLCHAIN")
        .env_remove("CARGO_TARGET_DIR")
        .env("RUSTFLAGS", "-Awarnings")
        .env("CARGO_NET_OFFLINE", "true")
        .args(["kani", "--target-dir", &format!("{}/kani", target_dir())])
        .args(args)
        .output();
    match o {
        Ok(o) => format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)),
        Err(e) => e.to_string(),
    }
}
fn target_dir() -> String {
    std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/target", verif_dir()))
}
/// drops what cargo remembers of the crates under check, so that they are rebuilt from the current sources
fn forget() {
    for arch in std::fs::read_dir(format!("{}/kani", target_dir())).into_iter().flatten().flatten() {
        for l in ["debug", "release"] {
            for e in std::fs::read_dir(arch.path().join(l).join(".fingerprint")).into_iter().flatten().flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                if n.starts_with("halo2_proofs-") || n.starts_with("hvk-") {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
}
/// The digits of a scalar, for every encoding: decided by CBMC on the compiled function.
fn windows(cx: &mut Cx, max: usize) {
    // replay: the digits of the reported scalar through the public function
    let replay = |h: &mut H, c: usize| {
        halo2_proofs::verif::set_naive_multiexp(false);
        let n = width(c).max(1);
        let s = h.fp("scalar");
        let g = h.gen("G");
        for b in [s, -s, s.shadow()] {
            // scalars are observed by the code: plain values only
            let mut sc = vec![Fp::zero(); n];
            sc[n / 2] = Fp::from_repr(b.to_repr()).unwrap();
            let bs = vec![GA::from(g); n];
            h.geq(&format!("one scalar among {}", n), best_multiexp(&sc, &bs), g * sc[n / 2]);
        }
    };
    if cx.only.is_some() {
        for c in 1..=max {
            cx.run(&format!("window/{}", c), |h| replay(h, c));
        }
        return;
    }
    if !cx.violations.is_empty() {
        return;
    }
    forget();
    let names: Vec<String> = (1..=max).map(|c| format!("window_{:02}", c)).collect();
    let mut args = vec!["-j", "7", "--output-format", "terse"];
    for n in &names {
        args.push("--harness");
        args.push(n);
    }
    let t = std::time::Instant::now();
    let out = kani(&args);
    let dt = t.elapsed().as_secs_f64();
    cx.st.solver_s += dt;
    cx.st.queries += max as u64;
    cx.st.obligations += max as u64;
    cx.st.cases += max as u64;
    if out.contains(&format!("Complete - {} successfully verified harnesses, 0 failures", max)) {
        cx.st.discharged += max as u64;
        cx.samples.push(format!("Kani: verif_window (Buckets::get_at) equals the base-2^c digit for every encoding, c = 1..{}: verified in {:.0}s", max, dt));
        return;
    }
    let mut tried = false;
    for (c, n) in (1..=max).zip(&names) {
        if !out.lines().any(|l| l.contains("failed for") && l.contains(n.as_str())) {
            continue;
        }
        let o = kani(&["--harness", n, "-Z", "concrete-playback", "--concrete-playback", "print"]);
        if o.contains("VERIFICATION:- SUCCESSFUL") {
            continue;
        }
        tried = true;
        // the scalar bytes come first in the printed counterexample
        let mut bytes = [0u8; 32];
        let mut at = 0;
        for l in o.lines().map(|l| l.trim()).skip_while(|l| !l.starts_with("let concrete_vals")) {
            if let Some(v) = l.strip_prefix("vec![").and_then(|l| l.strip_suffix("],").or(l.strip_suffix("]"))) {
                for b in v.split(',') {
                    if at < 32 {
                        bytes[at] = b.trim().parse().unwrap_or(0);
                        at += 1;
                    }
                }
            }
        }
        bytes[31] &= 0x3f;
        let mut a = std::collections::HashMap::new();
        a.insert("scalar".to_string(), bytes);
        cx.confirm(&format!("window/{}", c), a, &format!("digit of width {} differs from the scalar's", c), &|h: &mut H| replay(h, c));
        if !cx.violations.is_empty() {
            cx.inconclusive.clear();
            return;
        }
    }
    if !tried {
        cx.inconclusive.push(format!("Kani gave no verdict: {}", out.lines().rev().take(6).collect::<Vec<_>>().join(" | ")));
    }
}
