//! C06: every verifier challenge depends on every earlier prover message.
use lambdaworks_crypto::fiat_shamir::{
    recorder::{self, Event},
    transcript::Transcript,
};
use lambdaworks_math::{
    field::{
        element::FieldElement,
        fields::montgomery_backed_prime_fields::{IsModulus, U256PrimeField},
        traits::IsFFTField,
    },
    traits::ByteConversion,
    unsigned_integer::element::U256,
};
use lambdaworks_stark::starks::{
    proof::options::ProofOptions,
    transcript::{batch_sample_challenges, sample_z_ood, transcript_to_field, transcript_to_usize},
};
use vh::genair::Cfg;
use vh::mutate::{self, Proof, Site};
use vh::sys::{self, System};
use vh::*;

/// What is absorbed between two challenges, and the challenge.
fn segments(ev: &[Event]) -> Vec<(Vec<u8>, [u8; 32])> {
    let mut out = Vec::new();
    let mut cur = Vec::new();
    for e in ev {
        match e {
            Event::Append(b) => cur.extend_from_slice(b),
            Event::Challenge(c) => out.push((std::mem::take(&mut cur), *c)),
        }
    }
    out
}

fn challenges(ev: &[Event]) -> Vec<[u8; 32]> {
    segments(ev).into_iter().map(|x| x.1).collect()
}

fn record<T>(f: impl FnOnce() -> T) -> (T, Vec<Event>) {
    recorder::start();
    let r = f();
    (r, recorder::take())
}

/// Number of challenges drawn before each prover message, from the protocol description.
struct Order {
    aux: usize,
    composition: usize,
    ood: usize,
    fri: usize,
    last: usize,
    nonce: usize,
    total: usize,
}

fn order(s: &dyn System, opts: &ProofOptions) -> Order {
    let c = s.context(opts);
    let rap = match s.kind() {
        // two for the memory permutation, one for the range check
        "cairo" => 3,
        _ if s.aux_width(opts) > 0 => 1,
        _ => 0,
    };
    let composition = rap + 2 * s.number_of_boundary_constraints(opts) + 2 * c.num_transition_constraints;
    let ood = composition + 1;
    let fri = ood + 2 + c.trace_columns * c.transition_offsets.len();
    let layers = (s.n().trailing_zeros() as usize).max(1);
    let last = fri + layers;
    let nonce = last + 1;
    Order { aux: rap, composition, ood, fri, last, nonce, total: nonce + opts.fri_number_of_queries }
}

fn before(o: &Order, s: &Site) -> usize {
    match s {
        Site::TraceRoot(0) => 0,
        Site::TraceRoot(_) => o.aux,
        Site::CompositionRoot => o.composition,
        Site::OodCell(..) | Site::OodEven | Site::OodOdd => o.ood,
        Site::FriRoot(k) => o.fri + k,
        Site::LastValue => o.last,
        Site::Nonce => o.nonce,
        _ => unreachable!(),
    }
}

fn messages(p: &Proof) -> Vec<Site> {
    mutate::sites(p)
        .into_iter()
        .filter(|s| {
            matches!(
                s,
                Site::TraceRoot(_)
                    | Site::CompositionRoot
                    | Site::OodCell(..)
                    | Site::OodEven
                    | Site::OodOdd
                    | Site::FriRoot(_)
                    | Site::LastValue
                    | Site::Nonce
            )
        })
        .collect()
}

struct Script {
    items: Vec<[u8; 32]>,
    at: usize,
}
impl Transcript for Script {
    fn append(&mut self, _: &[u8]) {}
    fn challenge(&mut self) -> [u8; 32] {
        self.at += 1;
        self.items[self.at - 1]
    }
}

fn script(items: Vec<[u8; 32]>) -> Script {
    Script { items, at: 0 }
}

macro_rules! modulus {
    ($name:ident, $hex:expr) => {
        #[derive(Clone, Debug)]
        struct $name;
        impl IsModulus<U256> for $name {
            const MODULUS: U256 = U256::from_hex_unchecked($hex);
        }
    };
}
// odd moduli of several sizes: the conversion only depends on the number of bits
modulus!(M233, "0000010000000000000000000000000000000000000000000000000000000011");
modulus!(M240, "0000800000000011000000000000000000000000000000000000000000000001");
modulus!(M241, "0001000000000011000000000000000000000000000000000000000000000001");
modulus!(M245, "0010000000000011000000000000000000000000000000000000000000000001");
modulus!(M248, "0080000000000011000000000000000000000000000000000000000000000001");
modulus!(M249, "0100000000000011000000000000000000000000000000000000000000000001");
modulus!(M255, "4000000000000011000000000000000000000000000000000000000000000001");

fn masked(c: &[u8; 32], bits: usize) -> [u8; 32] {
    let mut b = *c;
    for i in 0..256 {
        // bit i counted from the most significant one
        if 256 - i > bits {
            b[i / 8] &= !(0x80 >> (i % 8));
        }
    }
    b
}

fn conversion<M: IsModulus<U256>>(c: [u8; 32], bits: usize) -> Res {
    let v: FieldElement<U256PrimeField<M>> = transcript_to_field(&mut script(vec![c]));
    let w = FieldElement::<U256PrimeField<M>>::from_bytes_be(&masked(&c, bits - 1)).unwrap();
    ensure!(v == w, "field-conversion", "{bits}-bit field: challenge {} does not give its low {} bits", hex(&c), bits - 1);
    Ok(())
}

fn edgy32(src: &mut Src) -> [u8; 32] {
    match src.upto(4) {
        0 => [0xff; 32],
        1 => {
            let mut b = [0; 32];
            b[src.usize(0, 31)] = 1 << src.upto(7);
            b
        }
        2 => {
            let mut b = [0xff; 32];
            b[src.usize(0, 31)] ^= 1 << src.upto(7);
            b
        }
        _ => src.arr32(),
    }
}

fn main() {
    let mut c = Check::new(
        "C06",
        "a case counts for each prover message altered in an accepted proof, each prover/verifier pair of transcripts compared, and each challenge value converted; distinct by content",
    );
    let cfg = Cfg { min_log: 0, max_log: 5, ..Cfg::default() };

    let n = c.n(3000, 40_000);
    c.run("prover and verifier agree", n, |src, ctx| {
        let s = match src.upto(31) {
            0 | 1 => sys::large(src, 9),
            2 => sys::cairo_or(src, &cfg),
            _ => sys::random(src, &cfg),
        };
        let mut opts = sys::options_for(src, &*s, 0);
        if src.chance(1, 16) && s.n() <= 64 {
            opts.fri_number_of_queries = src.usize(200, 600);
        }
        let (p, pe) = record(|| s.prove(&opts));
        let Ok(Some(p)) = p else {
            ctx.label("no proof");
            return Ok(());
        };
        let (v, ve) = record(|| s.verify(&p, &opts));
        let d = format!("{} under {:?}", s.describe(), opts);
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        let (a, b) = (segments(&pe), segments(&ve));
        for (i, (x, y)) in a.iter().zip(&b).enumerate() {
            ensure!(x == y, "transcripts-differ", "challenge {i} of prover and verifier: absorbed {} bytes / {} bytes, values {} / {}; {d}", x.0.len(), y.0.len(), hex(&x.1[..4]), hex(&y.1[..4]));
        }
        let o = order(&*s, &opts);
        ensure!(a.len() == b.len(), "transcripts-differ", "{} challenges drawn by the prover, {} by the verifier: {d}", a.len(), b.len());
        ensure!(a.len() == o.total, "challenge-count", "{} challenges drawn, the protocol has {}: {d}", a.len(), o.total);
        let distinct: std::collections::HashSet<_> = a.iter().map(|x| x.1).collect();
        ensure!(distinct.len() == a.len(), "challenge-repeated", "a challenge is drawn twice: {d}");
        // and each one is used where the protocol uses it: with other values in their places the
        // relations which the accepted proof has to satisfy do not hold
        if v == Ok(true) {
            let r = s.reference(&p, &opts);
            ensure!(r == Ok(Ok(())), "challenge-misused", "prover and verifier agree on a proof which does not satisfy the protocol under the challenges of the transcript ({r:?}): {d}");
            ctx.label("relations hold under the challenges of the protocol");
        }
        Ok(())
    });

    let n = c.n(1200, 15_000);
    c.run("every message", n, |src, ctx| {
        let big = src.chance(1, 16);
        let s = match big {
            true if src.chance(1, 4) => sys::cairo_or(src, &cfg),
            true => sys::large(src, 8),
            false => sys::random(src, &cfg),
        };
        let mut opts = sys::options_for(src, &*s, 0);
        opts.grinding_factor = 0;
        if big {
            opts.fri_number_of_queries = opts.fri_number_of_queries.min(6);
        }
        let Ok(Some(p)) = s.prove(&opts) else {
            ctx.label("no proof");
            return Ok(());
        };
        let (v, ev) = record(|| s.verify(&p, &opts));
        if v != Ok(true) {
            ctx.label("honest proof not accepted");
            return Ok(());
        }
        let base = challenges(&ev);
        let o = order(&*s, &opts);
        let d = format!("{} under {:?}", s.describe(), opts);
        let sites = messages(&p);
        // of the many cells of a wide frame, some
        let keep = sites.len().div_ceil(if big { 40 } else { 400 });
        for site in sites {
            if keep > 1 && matches!(site, Site::OodCell(..)) && !src.chance(1, keep as u64) {
                continue;
            }
            let mut q = mutate::clone_proof(&p);
            mutate::alter(src, &mut q, &site);
            let (_, ev) = record(|| s.verify(&q, &opts));
            let got = challenges(&ev);
            let at = before(&o, &site);
            ctx.evals(1);
            ctx.nontrivial(format!("{site:?} {d}").as_bytes());
            ctx.label(site.class());
            for (i, (x, y)) in base.iter().zip(&got).enumerate() {
                if i < at {
                    ensure!(x == y, "earlier-challenge", "{site:?} changes challenge {i}, drawn before it is received (position {at}): {d}");
                } else {
                    ensure!(x != y, "unaffected-challenge", "challenge {i} does not depend on {site:?} (received at {at}): {d}");
                }
            }
            ensure!(got.len() > at, "unaffected-challenge", "no challenge after {site:?}: {d}");
        }
        Ok(())
    });

    // the out-of-domain point must avoid both domains, in prover and verifier alike
    let n = c.n(600, 8000);
    c.run("out-of-domain point in a domain", n, |src, ctx| {
        let s = sys::random(src, &cfg);
        let opts = sys::options_for(src, &*s, 0);
        let size = s.n() * opts.blowup_factor as usize;
        let w = F::get_primitive_root_of_unity(size.trailing_zeros() as u64).unwrap();
        let offset = FE::from(opts.coset_offset);
        let lde = src.bool();
        let point = if lde { &offset * w.pow(src.usize(0, size - 1)) } else { w.pow(src.usize(0, s.n() - 1) * opts.blowup_factor as usize) };
        let bytes: [u8; 32] = point.to_bytes_be().try_into().unwrap();
        // reachable only below 2^251
        if bytes[0] >= 8 {
            ctx.label("not a challenge value");
            return Ok(());
        }
        let z = order(&*s, &opts).ood - 1;
        let d = format!("z drawn as {} of {} under {:?}", if lde { "an element of the extension domain" } else { "an element of the trace domain" }, s.describe(), opts);
        recorder::force(vec![(z, bytes)]);
        let (p, pe) = record(|| s.prove(&opts));
        let r = match p {
            Ok(Some(p)) => {
                let (v, ve) = record(|| s.verify(&p, &opts));
                recorder::force(vec![]);
                ctx.nontrivial(d.as_bytes());
                ctx.label(if lde { "extension domain" } else { "trace domain" });
                let (a, b) = (challenges(&pe), challenges(&ve));
                ensure!(a.get(z).copied() == Some(bytes), "harness", "the forced challenge is not z");
                ensure!(a == b && v == Ok(true), "z-in-domain", "prover and verifier part ways or reject ({v:?}): {d}");
                ensure!(a.len() == order(&*s, &opts).total + 1, "z-in-domain", "not redrawn: {d}");
                Ok(())
            }
            Ok(None) => fail("z-in-domain", format!("prover refuses: {d}")),
            Err(m) => fail("z-in-domain", format!("prover crashes ({m}): {d}")),
        };
        recorder::force(vec![]);
        r
    });

    let n = c.n(20_000, 400_000);
    c.run("field conversion", n, |src, ctx| {
        let ch = edgy32(src);
        ctx.nontrivial(&ch);
        let v: FE = transcript_to_field(&mut script(vec![ch]));
        let w = FE::from_bytes_be(&masked(&ch, 251)).unwrap();
        ensure!(v == w, "field-conversion", "challenge {} does not give its low 251 bits", hex(&ch));
        conversion::<M233>(ch, 233)?;
        conversion::<M240>(ch, 240)?;
        conversion::<M241>(ch, 241)?;
        conversion::<M245>(ch, 245)?;
        conversion::<M248>(ch, 248)?;
        conversion::<M249>(ch, 249)?;
        conversion::<M255>(ch, 255)?;
        let u = transcript_to_usize(&mut script(vec![ch]));
        // the position must use the challenge's low-order entropy for every domain size
        let mut other = ch;
        let bit = src.usize(0, 63);
        other[7 - bit / 8] ^= 1 << (bit % 8);
        let u2 = transcript_to_usize(&mut script(vec![other]));
        ensure!(u ^ u2 != 0, "position-entropy", "bit {bit} of a challenge does not reach the position");
        Ok(())
    });

    let n = c.n(1500, 20_000);
    c.run("batches", n, |src, ctx| {
        let k = if src.chance(1, 8) { src.usize(21, 700) } else { src.usize(0, 20) };
        let items: Vec<[u8; 32]> = (0..k + 3).map(|_| src.arr32()).collect();
        let mut t = script(items.clone());
        let v = batch_sample_challenges::<F, _>(k, &mut t);
        ctx.nontrivial(&items.concat());
        let w: Vec<FE> = items[..k].iter().map(|c| FE::from_bytes_be(&masked(c, 251)).unwrap()).collect();
        ensure!(v == w && t.at == k, "batch", "{k} challenges: {} drawn, values {}", t.at, if v == w { "right" } else { "wrong" });
        // the sampler of the out-of-domain point skips exactly the forbidden values
        let n = 1usize << if src.chance(1, 8) { src.usize(5, 9) } else { src.usize(0, 4) };
        let b = 1usize << src.usize(1, 3);
        let g = F::get_primitive_root_of_unity(n.trailing_zeros() as u64).unwrap();
        let h = F::get_primitive_root_of_unity((n * b).trailing_zeros() as u64).unwrap();
        let trace: Vec<FE> = (0..n).map(|i| g.pow(i)).collect();
        let coset: Vec<FE> = (0..n * b).map(|i| h.pow(i) * FE::from(3)).collect();
        let mut items: Vec<[u8; 32]> = Vec::new();
        for _ in 0..src.usize(0, 5) {
            let v = if src.bool() { src.pick(&trace).clone() } else { src.pick(&coset).clone() };
            let b: [u8; 32] = v.to_bytes_be().try_into().unwrap();
            if b[0] < 8 {
                items.push(b);
            }
        }
        let skipped = items.len();
        items.push(src.arr32());
        items.push(src.arr32());
        let mut t = script(items.clone());
        let z: FE = sample_z_ood(&coset, &trace, &mut t);
        ctx.label(format!("{skipped} values skipped"));
        ensure!(t.at == skipped + 1 && z == FE::from_bytes_be(&masked(&items[skipped], 251)).unwrap(), "z-sampler", "{} draws, {} forbidden values first", t.at, skipped);
        Ok(())
    });

    // spread of what real transcripts give
    let n = c.n(40, 200);
    c.run("spread", n, |src, ctx| {
        let log = src.usize(2, 5);
        let s = sys::generated(src, &Cfg { min_log: log, max_log: log, ..Cfg::default() });
        let mut opts = sys::options_for(src, &s, 0);
        opts.fri_number_of_queries = 40;
        let size = s.n() * opts.blowup_factor as usize;
        let mut hits = vec![0u64; size];
        let rounds = (size * 40).div_ceil(40);
        let (mut top, mut low) = ([0u64; 8], [0u64; 8]);
        let Ok(Some(p)) = s.prove(&opts) else { return Ok(()) };
        let o = order(&s, &opts);
        for _ in 0..rounds {
            // fresh transcripts: the last value is altered, everything after it is redrawn
            let mut q = mutate::clone_proof(&p);
            q.fri_last_value = fe_uniform(src);
            let (_, ev) = record(|| s.verify(&q, &ProofOptions { grinding_factor: 0, ..opts.clone() }));
            let ch = challenges(&ev);
            for c in &ch[o.nonce.min(ch.len())..] {
                hits[transcript_to_usize(&mut script(vec![*c])) % size] += 1;
                let v: FE = transcript_to_field(&mut script(vec![*c]));
                let b = v.to_bytes_be();
                top[(b[0] & 7) as usize] += 1;
                low[(b[31] & 7) as usize] += 1;
            }
        }
        let total: u64 = hits.iter().sum();
        if total == 0 {
            ctx.label("no positions drawn");
            return Ok(());
        }
        ctx.nontrivial(format!("{} {:?}", s.desc, opts).as_bytes());
        // mean 40 per position: more than 20 standard deviations away is no accident
        let unused = hits.iter().filter(|h| **h == 0).count();
        let most = *hits.iter().max().unwrap();
        ensure!(unused == 0 && most < 40 + 130, "position-spread", "{unused} of {size} positions never drawn in {total} draws, one drawn {most} times");
        let mean = total as f64 / 8.0;
        let bad = top.iter().chain(&low).any(|x| (*x as f64 - mean).abs() > 12.0 * mean.sqrt());
        ensure!(!bad, "field-spread", "top bits {top:?}, low bits {low:?} of {total} challenges");
        Ok(())
    });
    c.assume("the hash behind the transcript is the shim's Keccak256 sponge (lambdaworks-crypto is not available offline); the log of what is absorbed and drawn comes from that shim");
    c.finish()
}
