//! C09: decoding untrusted bytes is total.
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::PublicInputs;
use lambdaworks_stark::starks::{frame::Frame, fri::fri_decommit::FriDecommitment, proof::stark::{DeepPolynomialOpenings, StarkProof}};
use vh::genair::Cfg;
use vh::{cairo, mutate, sys, *};

#[global_allocator]
static ALLOC: engine::alloc::Counting = engine::alloc::Counting;

const TYPES: [&str; 5] = ["proof", "frame", "FRI decommitment", "openings", "public inputs"];

/// Decode: Ok(decoded or refused), Err(panic message); and the peak of memory it held.
fn decode(kind: usize, b: &[u8]) -> (Result<bool, String>, u64) {
    engine::alloc::measure(|| {
        guard(|| match kind {
            0 => StarkProof::<F>::deserialize(b).is_ok(),
            1 => Frame::<F>::deserialize(b).is_ok(),
            2 => FriDecommitment::<F>::deserialize(b).is_ok(),
            3 => DeepPolynomialOpenings::<F>::deserialize(b).is_ok(),
            _ => PublicInputs::deserialize(b).is_ok(),
        })
    })
}

fn total(kind: usize, b: &[u8], how: &str) -> Result<bool, Fail> {
    let (r, peak) = decode(kind, b);
    match r {
        Err(m) => fail("panic", format!("decoding a {} panicked: {m}; {how}; {} bytes: {}", TYPES[kind], b.len(), hex(&b[..b.len().min(200)]))),
        Ok(v) => {
            let bound = (256 << 10) + 64 * b.len() as u64;
            ensure!(peak <= bound, "memory", "decoding {} bytes as a {} held {peak} bytes; {how}", b.len(), TYPES[kind]);
            Ok(v)
        }
    }
}

/// A valid encoding.
fn valid(src: &mut Src, kind: usize) -> Vec<u8> {
    let real = src.chance(1, 3);
    if real && kind != 4 {
        let s = sys::random(src, &Cfg { min_log: 1, max_log: 3, ..Cfg::default() });
        let mut o = sys::options_for(src, &*s, 0);
        o.fri_number_of_queries = o.fri_number_of_queries.min(4);
        if let Ok(Some(p)) = s.prove(&o) {
            return match kind {
                0 => p.serialize(),
                1 => p.trace_ood_frame_evaluations.serialize(),
                2 => p.query_list[0].serialize(),
                _ => p.deep_poly_openings[0].serialize(),
            };
        }
    }
    match kind {
        0 => mutate::arb_proof(src).serialize(),
        1 => mutate::arb_frame(src).serialize(),
        2 => mutate::arb_query(src).serialize(),
        3 => mutate::arb_opening(src).serialize(),
        _ if real => cairo::generate(src, &cairo::Cfg { max_steps: 8, max_program: 10, ..Default::default() }).public().serialize(),
        _ => mutate::arb_public(src).serialize(),
    }
}

fn main() {
    let mut c = Check::new(
        "C09",
        "a case counts when the bytes come from a valid encoding (cut or damaged), or are random bytes that get past the first length; distinct by bytes",
    );
    let n = c.n(6000, 60_000);
    c.run("every cut of a valid encoding", n, |src, ctx| {
        let kind = src.weighted(&[3, 1, 2, 2, 2]);
        let b = valid(src, kind);
        if b.len() > 6000 {
            return Ok(());
        }
        let whole = total(kind, &b, "whole")?;
        ctx.label(format!("{}: {}", TYPES[kind], if whole { "decodes" } else { "refused" }));
        if !whole {
            // that valid encodings decode is C10
            return Ok(());
        }
        for k in 0..b.len() {
            let r = total(kind, &b[..k], "cut")?;
            ensure!(!r, "truncated", "the first {k} of {} bytes of a valid {} decode: {}", b.len(), TYPES[kind], hex(&b[..k.min(200)]));
        }
        ctx.evals(b.len() as u64 + 1);
        ctx.sample(format!("{} of {} bytes", TYPES[kind], b.len()));
        ctx.nontrivial(&b);
        Ok(())
    });
    let n = c.n(150_000, 3_000_000);
    c.run("damaged encodings", n, |src, ctx| {
        let kind = src.weighted(&[3, 1, 2, 2, 2]);
        let mut b = valid(src, kind);
        let other = if src.chance(1, 4) { valid(src, kind) } else { vec![] };
        let mut how = String::new();
        for _ in 0..src.range(1, 3) {
            how += &mutate::damage(src, &mut b, &other);
            how += "; ";
        }
        let r = total(kind, &b, &how)?;
        ctx.label(format!("{}: {}", TYPES[kind], if r { "decodes" } else { "refused" }));
        ctx.sample(format!("{}: {how}", TYPES[kind]));
        ctx.nontrivial(&b);
        // read as something else
        let k = src.usize(0, 4);
        total(k, &b, "other type")?;
        ctx.evals(2);
        Ok(())
    });
    let n = c.n(200_000, 4_000_000);
    c.run("random bytes", n, |src, ctx| {
        let kind = src.usize(0, 4);
        let len = match src.upto(3) {
            0 => src.usize(0, 24),
            1 => src.usize(0, 400),
            _ => src.usize(0, 2000),
        };
        // mostly zero bytes so that lengths are plausible
        let density = *src.pick(&[0u64, 2, 20, 255]);
        let mut b: Vec<u8> = Vec::with_capacity(len);
        let mut r = src.u64() | 1;
        for _ in 0..len {
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            let v = (r >> 24) as u8;
            b.push(if (r >> 40) % 256 < density { v } else { 0 });
        }
        for _ in 0..src.upto(4) {
            if len >= 8 {
                // plausible lengths where they are likely to be read
                let at = src.usize(0, (len - 8) / 8) * 8;
                let v = match src.upto(2) {
                    0 => 32,
                    1 => src.upto(9),
                    _ => src.edgy_u64(),
                };
                b[at..at + 8].copy_from_slice(&v.to_be_bytes());
            }
        }
        let ok = total(kind, &b, "random")?;
        ctx.label(format!("{}: {}", TYPES[kind], if ok { "decodes" } else { "refused" }));
        if b.len() >= 8 && u64::from_be_bytes(b[..8].try_into().unwrap()) <= b.len() as u64 {
            ctx.nontrivial(&b);
        }
        Ok(())
    });
    c.assume("memory bound: 256 KiB plus 64 bytes for each input byte");
    c.finish()
}
