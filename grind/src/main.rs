//! C12: proof-of-work.  Compiles /repo/src/starks/grinding.rs in place: this
//! module needs no dependency that is replaced by a stand-in.
#![allow(dead_code)]
use engine::{ensure, Check};
use sha3::{Digest, Keccak256};

pub mod cairo {
    #[path = "/repo/src/cairo/cairo_layout.rs"]
    pub mod cairo_layout;
    #[path = "/repo/src/cairo/errors.rs"]
    pub mod errors;
}
pub mod starks {
    #[path = "/repo/src/starks/grinding.rs"]
    pub mod grinding;
    pub mod proof {
        #[path = "/repo/src/starks/proof/errors.rs"]
        pub mod errors;
    }
}
use starks::grinding::{generate_nonce_with_grinding, hash_transcript_with_int_and_get_leading_zeros as measure};

/// Reference measure: number of zero bits at the low end of the first eight
/// digest bytes read as a big-endian integer, computed bit by bit.
fn reference(challenge: &[u8; 32], nonce: u64) -> u8 {
    let mut h = Keccak256::new();
    h.update(challenge);
    for k in 0..8 {
        h.update([(nonce >> (8 * k)) as u8]);
    }
    let d = h.finalize();
    let mut n = 0;
    for i in (0..8).rev() {
        for b in 0..8 {
            if (d[i] >> b) & 1 == 1 {
                return n;
            }
            n += 1;
        }
    }
    n
}

fn challenge(src: &mut engine::Src) -> [u8; 32] {
    match src.upto(4) {
        0 => [src.upto(255) as u8; 32],
        1 => {
            let mut c = [0u8; 32];
            c[src.usize(0, 31)] = src.upto(255) as u8;
            c
        }
        _ => src.arr32(),
    }
}

fn main() {
    let mut c = Check::new(
        "C12",
        "random/structured challenges, boundary-biased 64-bit nonces, difficulties; a search case is non-trivial \
         when the difficulty is above 0 and nonce 0 does not meet it; a measure case when the nonce is above 255 \
         or the measured difficulty is positive",
    );
    let n = c.n(400_000, 4_000_000);
    c.run("measure", n, |src, ctx| {
        let ch = challenge(src);
        let nonce = src.edgy_u64();
        let got = measure(&ch, nonce);
        let want = reference(&ch, nonce);
        if nonce > 255 || want > 0 {
            ctx.nontrivial(&[&ch[..], &nonce.to_be_bytes()].concat());
        }
        ctx.label(format!("nonce bytes {}", (64 - nonce.leading_zeros() + 7) / 8));
        ctx.label(format!("difficulty {}", want.min(12)));
        ctx.sample(format!("challenge {ch:02x?} nonce {nonce} -> {got}"));
        ensure!(got == want, "measure", "challenge {ch:02x?} nonce {nonce}: measured {got}, hash has {want}");
        Ok(())
    });
    // pairs rich in zeros: search a hard pair with the reference, then measure it
    let n = c.n(300, 6000);
    let hard_bits = if c.thorough { 17 } else { 13 };
    c.run("hard pairs", n, |src, ctx| {
        let ch = challenge(src);
        let start = src.edgy_u64();
        let want = src.range(8, hard_bits) as u8;
        let mut nonce = start;
        while reference(&ch, nonce) < want {
            nonce = nonce.wrapping_add(1);
        }
        let w = reference(&ch, nonce);
        ctx.nontrivial(&[&ch[..], &nonce.to_be_bytes()].concat());
        ctx.label(format!("difficulty {w}"));
        ctx.sample(format!("challenge {ch:02x?} nonce {nonce} has difficulty {w}"));
        ensure!(measure(&ch, nonce) == w, "measure", "challenge {ch:02x?} nonce {nonce}: measured {}, hash has {w}", measure(&ch, nonce));
        // neighbours differing in one bit of challenge or nonce
        for k in 0..40 {
            let bit = src.upto(319) as usize;
            let (mut c2, mut n2) = (ch, nonce);
            if bit < 256 {
                c2[bit / 8] ^= 1 << (bit % 8);
            } else {
                n2 ^= 1 << (bit - 256);
            }
            let (g, r) = (measure(&c2, n2), reference(&c2, n2));
            ensure!(g == r, "measure", "neighbour {k}: challenge {c2:02x?} nonce {n2}: measured {g}, hash has {r}");
        }
        ctx.evals(42);
        Ok(())
    });
    let n = c.n(4000, 20_000);
    let max_d = if c.thorough { 16 } else { 13 };
    c.run("search", n, |src, ctx| {
        let ch = challenge(src);
        let d = src.upto(max_d) as u8;
        let got = generate_nonce_with_grinding(&ch, d);
        let want = (0u64..).find(|m| reference(&ch, *m) >= d).unwrap();
        if d > 0 && want > 0 {
            ctx.nontrivial(&[&ch[..], &[d]].concat());
        }
        ctx.label(format!("nonce bits {}", 64 - want.leading_zeros()));
        ctx.sample(format!("challenge {ch:02x?} difficulty {d} -> nonce {got:?}"));
        ctx.evals(want + 1);
        match got {
            None => ensure!(false, "no-nonce", "challenge {ch:02x?} difficulty {d}: no nonce found, {want} meets it"),
            Some(g) => {
                ensure!(reference(&ch, g) >= d, "weak-nonce", "challenge {ch:02x?} difficulty {d}: nonce {g} only has difficulty {}", reference(&ch, g));
                ensure!(measure(&ch, g) >= d, "verifier-disagrees", "challenge {ch:02x?} difficulty {d}: nonce {g} is measured as {}", measure(&ch, g));
                ensure!(g == want, "not-smallest", "challenge {ch:02x?} difficulty {d}: nonce {g}, smallest is {want}");
            }
        }
        Ok(())
    });
    // The difficulties the presets use: nonces well above 2^16.
    let n = c.n(96, 400);
    let top = if c.thorough { 22 } else { 20 };
    c.run("deep search", n, |src, ctx| {
        let ch = challenge(src);
        let d = src.range(15, top) as u8;
        let got = generate_nonce_with_grinding(&ch, d);
        let want = (0u64..).find(|m| reference(&ch, *m) >= d).unwrap();
        ctx.nontrivial(&[&ch[..], &[d]].concat());
        ctx.label(format!("nonce bits {}", 64 - want.leading_zeros()));
        ctx.sample(format!("challenge {ch:02x?} difficulty {d} -> nonce {got:?}"));
        ctx.evals(want + 1);
        ensure!(got == Some(want), "not-smallest", "challenge {ch:02x?} difficulty {d}: nonce {got:?}, smallest that meets it is {want}");
        ensure!(measure(&ch, want) >= d, "verifier-disagrees", "challenge {ch:02x?} difficulty {d}: nonce {want} is measured as {}", measure(&ch, want));
        Ok(())
    });
    // Cost: over consecutive nonces of one challenge, about 2^-d of them meet difficulty d.
    let n = c.n(16, 200);
    c.run("density", n, |src, ctx| {
        let ch = challenge(src);
        let base = src.edgy_u64();
        let total = 1u64 << 14;
        let mut hist = [0u64; 65];
        for k in 0..total {
            hist[measure(&ch, base.wrapping_add(k)).min(64) as usize] += 1;
        }
        let mut cum = 0;
        for d in (0..=6usize).rev() {
            cum = hist[d..].iter().sum::<u64>();
            let expect = total >> d;
            // at least 12 standard deviations of slack
            let slack = 12.0 * (expect as f64).sqrt() + 12.0;
            ensure!((cum as f64 - expect as f64).abs() <= slack, "density", "difficulty {d}: {cum} of {total} nonces, expected about {expect}");
        }
        let _ = cum;
        ctx.evals(total);
        ctx.nontrivial(&ch);
        ctx.sample(format!("challenge {ch:02x?} from nonce {base}: histogram {:?}", &hist[..8]));
        Ok(())
    });
    c.finish()
}
