//! C13: accepted proof options provide at least the requested security.
use lambdaworks_math::field::fields::u64_prime_field::{U64PrimeField, F17};
use lambdaworks_math::field::traits::IsPrimeField;
use lambdaworks_stark::starks::proof::errors::InsecureOptionError;
use lambdaworks_stark::starks::proof::options::{ProofOptions, SecurityLevel};
use vh::*;

type M61 = U64PrimeField<{ (1 << 61) - 1 }>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Model {
    Conjectured,
    Proven,
}

#[derive(Clone, Copy, Debug)]
struct In {
    model: Model,
    blowup: u8,
    queries: usize,
    offset: u64,
    grinding: u8,
    target: u8,
}

fn build<Fi: IsPrimeField>(i: &In) -> Result<ProofOptions, InsecureOptionError> {
    match i.model {
        Model::Conjectured => ProofOptions::new_with_checked_security::<Fi>(i.blowup, i.queries, i.offset, i.grinding, i.target),
        Model::Proven => ProofOptions::new_with_checked_provable_security::<Fi>(i.blowup, i.queries, i.offset, i.grinding, i.target),
    }
}

/// Twice the security bits the parameters provide, with `log` bits per query.
fn twice_bits(i: &In, log: u32) -> i128 {
    let q = i.queries as i128 * log as i128;
    let g = i.grinding as i128;
    match i.model {
        Model::Conjectured => 2 * (q + g - 1),
        Model::Proven => q + 2 * g,
    }
}

/// Enough bits for the target: strictly above it in the conjectured model.
fn enough(i: &In, log: u32) -> bool {
    let t = 2 * i.target as i128;
    match i.model {
        Model::Conjectured => twice_bits(i, log) > t,
        Model::Proven => twice_bits(i, log) >= t,
    }
}

fn log2_floor(b: u8) -> u32 {
    if b == 0 {
        0
    } else {
        7 - b.leading_zeros()
    }
}

fn decide<Fi: IsPrimeField>(i: &In, field_bits: usize) -> Res {
    let got = match guard(|| build::<Fi>(i)) {
        Ok(g) => g,
        Err(m) => return fail("crash", format!("{m}: {i:?} over a field of {field_bits} bits")),
    };
    let field_ok = field_bits > i.target as usize + 40;
    let bits_ok = enough(i, log2_floor(i.blowup));
    match got {
        Ok(o) => {
            ensure!(field_ok, "small-field", "accepted over a field of {field_bits} bits: {i:?}");
            ensure!(bits_ok, "insecure", "accepted: {i:?}");
            ensure!(
                o.blowup_factor == i.blowup && o.fri_number_of_queries == i.queries && o.coset_offset == i.offset && o.grinding_factor == i.grinding,
                "parameters", "{i:?} returned {o:?}"
            );
        }
        Err(e) => {
            // a factor which is not a power of two may be credited with fewer bits
            let exact = i.blowup.is_power_of_two() || i.blowup == 0;
            ensure!(!(exact && field_ok && bits_ok), "refused", "{e:?}: {i:?} over a field of {field_bits} bits");
            match e {
                InsecureOptionError::FieldSize => ensure!(!field_ok, "error-kind", "field of {field_bits} bits called too small: {i:?}"),
                InsecureOptionError::SecurityBits => ensure!(!(exact && bits_ok), "error-kind", "bits called too few: {i:?}"),
            }
        }
    }
    Ok(())
}

fn all_fields(i: &In) -> Res {
    decide::<F>(i, 252)?;
    if i.target < 32 || i.queries == 0 {
        decide::<M61>(i, 61)?;
        decide::<F17>(i, 5)?;
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C13", "a case counts when it decides both sides of the threshold");
    let models = [Model::Conjectured, Model::Proven];

    // every blowup factor, grinding factor and target; query counts around each threshold
    let blowups: Vec<u8> = if c.thorough {
        (0..=255).collect()
    } else {
        vec![0, 1, 2, 4, 8, 16, 32, 64, 128, 3, 5, 6, 7, 9, 12, 24, 48, 96, 192, 160, 254, 255]
    };
    c.run_indexed("thresholds", blowups.len() as u64 * 256, |k, ctx| {
        let (blowup, grinding) = (blowups[(k / 256) as usize], (k % 256) as u8);
        let offset = engine::hash64(&k.to_le_bytes());
        let mut n = 0;
        let (mut yes, mut no) = (false, false);
        for target in 0..=255u8 {
            for model in models {
                let base = In { model, blowup, queries: 0, offset, grinding, target };
                let log = log2_floor(blowup);
                let low = if blowup == 0 { 0 } else { blowup.trailing_zeros() };
                let mut qs = vec![0, 1, 2, usize::MAX, usize::MAX / 2, 1 << 32, 255, 256];
                for l in [log, low] {
                    if l > 0 {
                        // smallest number of queries with `l` bits each that is enough
                        let need = match model {
                            Model::Conjectured => (target as i64 + 2 - grinding as i64).max(0) as usize,
                            Model::Proven => 2 * (target as i64 - grinding as i64).max(0) as usize,
                        };
                        let q = need.div_ceil(l as usize);
                        qs.extend([q, q + 1, q.saturating_sub(1), 2 * q, q / 2]);
                    }
                }
                qs.sort();
                qs.dedup();
                for q in qs {
                    let i = In { queries: q, ..base };
                    all_fields(&i)?;
                    if enough(&i, log) {
                        yes = true
                    } else {
                        no = true
                    }
                    n += 1;
                }
            }
        }
        ctx.evals(n);
        if k % 9973 == 5 {
            ctx.sample(format!("blowup {blowup} grinding {grinding}, every target, {n} constructions"));
        }
        if yes && no {
            ctx.nontrivial(&k.to_le_bytes());
        }
        Ok(())
    });

    // every small number of queries
    let thorough = c.thorough;
    let logs: Vec<u8> = (0..8).map(|l| 1 << l).collect();
    c.run_indexed("small counts", 8 * 256, |k, ctx| {
        let (blowup, grinding) = (logs[(k / 256) as usize], (k % 256) as u8);
        let mut n = 0;
        let (mut yes, mut no) = (false, false);
        for target in (0..=255u8).filter(|t| thorough || (*t as u64 + k) % 8 == 0) {
            for queries in 0..=300usize {
                for model in models {
                    let i = In { model, blowup, queries, offset: k, grinding, target };
                    decide::<F>(&i, 252)?;
                    if enough(&i, log2_floor(blowup)) {
                        yes = true
                    } else {
                        no = true
                    }
                    n += 1;
                }
            }
        }
        ctx.evals(n);
        if yes && no {
            ctx.nontrivial(&k.to_le_bytes());
        }
        Ok(())
    });

    c.run("anything", c.n(200_000, 5_000_000), |src, ctx| {
        let queries = match src.upto(2) {
            0 => src.upto(600) as usize,
            1 => src.edgy_u64() as usize,
            _ => usize::MAX - src.upto(300) as usize,
        };
        let i = In {
            model: *src.pick(&models),
            blowup: if src.bool() { 1 << src.upto(7) } else { src.upto(255) as u8 },
            queries,
            offset: src.edgy_u64(),
            grinding: src.upto(255) as u8,
            target: src.upto(255) as u8,
        };
        ctx.sample(format!("{i:?}"));
        ctx.evals(3);
        if enough(&i, log2_floor(i.blowup)) != enough(&In { queries: i.queries / 2, ..i }, log2_floor(i.blowup)) {
            ctx.nontrivial(format!("{i:?}").as_bytes());
        }
        all_fields(&i)
    });

    // every preset meets the level of its name
    c.run("presets", c.n(2000, 20_000), |src, ctx| {
        let offset = src.edgy_u64();
        ctx.sample(format!("coset offset {offset}"));
        ctx.nontrivial(&offset.to_le_bytes());
        let list = [
            (SecurityLevel::Conjecturable80Bits, Model::Conjectured, 80u8),
            (SecurityLevel::Conjecturable100Bits, Model::Conjectured, 100),
            (SecurityLevel::Conjecturable128Bits, Model::Conjectured, 128),
            (SecurityLevel::Provable80Bits, Model::Proven, 80),
            (SecurityLevel::Provable100Bits, Model::Proven, 100),
            (SecurityLevel::Provable128Bits, Model::Proven, 128),
        ];
        ctx.evals(6);
        for (level, model, target) in list {
            let o = match guard(|| ProofOptions::new_secure(level, offset)) {
                Ok(o) => o,
                Err(m) => return fail("preset-crash", format!("{m}: {model:?} {target}")),
            };
            ensure!(o.coset_offset == offset, "preset-offset", "{model:?} {target}: offset {} for {offset}", o.coset_offset);
            let i = In { model, blowup: o.blowup_factor, queries: o.fri_number_of_queries, offset, grinding: o.grinding_factor, target };
            ensure!(i.blowup.is_power_of_two() && i.blowup > 1, "preset-blowup", "{model:?} {target}: {o:?}");
            ensure!(enough(&i, log2_floor(i.blowup)), "preset-insecure", "{model:?} {target}: {o:?}");
            ensure!(build::<F>(&i).is_ok(), "preset-refused", "{model:?} {target}: {o:?}");
        }
        Ok(())
    });
    c.finish()
}
