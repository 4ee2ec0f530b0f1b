//! C22: the command line tool proves and verifies what it is told.
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::{verify_cairo_proof, PublicInputs};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::proof::stark::StarkProof;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use vh::programs::{self, Prog};
use vh::*;

#[global_allocator]
static ALLOC: engine::alloc::Counting = engine::alloc::Counting;

static NEXT: AtomicUsize = AtomicUsize::new(0);

/// A scratch directory removed when the case ends.
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
impl Dir {
    fn new(root: &Path) -> Self {
        let d = root.join(format!("case{}", NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Dir(d)
    }
    /// name -> contents of the files
    fn snapshot(&self) -> BTreeMap<String, Option<Vec<u8>>> {
        std::fs::read_dir(&self.0)
            .unwrap()
            .map(|e| {
                let e = e.unwrap();
                (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).ok())
            })
            .collect()
    }
}

struct Said {
    success: bool,
    text: String,
}

extern "C" {
    fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
}

/// Run the tool in the directory; a crash is a failure of the property, and so is a run that uses
/// more processor time or memory than any run here comes near to.
fn tool(cli: &str, dir: &Dir, args: &[&str]) -> Result<Said, Fail> {
    let mut command = Command::new(cli);
    unsafe {
        command.pre_exec(|| {
            const CPU: i32 = 0;
            const ADDRESS_SPACE: i32 = 9;
            setrlimit(CPU, &[150, 150]);
            setrlimit(ADDRESS_SPACE, &[8 << 30, 8 << 30]);
            Ok(())
        });
    }
    let out = command
        .args(args)
        .current_dir(&dir.0)
        .stdin(Stdio::null())
        .env("RUST_BACKTRACE", "0")
        .output()
        .expect("the tool starts");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let crashed = out.status.code().is_none() || out.status.code() == Some(101) || err.contains("panicked at");
    if crashed {
        let last: String = err.chars().take(400).collect();
        return fail("crash", format!("{args:?}: {:?} {last}", out.status));
    }
    let success = text.to_lowercase().contains("verification succ");
    Ok(Said { success, text })
}

type Parts = (StarkProof<F>, PublicInputs);

/// Own reading of the proof file.
fn read(bytes: &[u8]) -> Option<Parts> {
    let n = usize::try_from(u64::from_be_bytes(bytes.get(..8)?.try_into().ok()?)).ok()?;
    let rest = &bytes[8..];
    let proof = rest.get(..n)?;
    let proof = guard(|| StarkProof::<F>::deserialize(proof).ok()).ok()??;
    let pubs = guard(|| PublicInputs::deserialize(&rest[n..]).ok()).ok()??;
    Some((proof, pubs))
}

/// The same proof of the same bound statement (what is not bound is a listed finding of C16).
fn same(a: &Parts, b: &Parts) -> bool {
    let mut x = a.0.serialize();
    let mut y = b.0.serialize();
    // another nonce can lead to the same queries
    x.truncate(x.len() - 8);
    y.truncate(y.len() - 8);
    let p = |p: &PublicInputs| (p.pc_init.clone(), p.ap_init.clone(), p.pc_final.clone(), p.ap_final.clone(), p.range_check_min, p.range_check_max, p.public_memory.clone());
    x == y && p(&a.1) == p(&b.1)
}

fn program(src: &mut Src) -> Prog {
    let v1 = src.chance(1, 3);
    let ops = *src.pick(&[0, 4, 12, 30]);
    programs::generate(src, v1, ops)
}

fn check_file(p: &Prog, bytes: &[u8]) -> Result<Parts, Fail> {
    let d = p.describe();
    let Some(parts) = read(bytes) else { return fail("proof-file", format!("cannot be read: {d}")) };
    let (proof, pubs) = &parts;
    ensure!(pubs.num_steps == p.steps, "proof-file", "{} steps instead of {}: {d}", pubs.num_steps, p.steps);
    for (k, w) in p.words.iter().enumerate() {
        ensure!(pubs.public_memory.get(&FE::from(k as u64 + 1)) == Some(w), "proof-file", "program cell {}: {d}", k + 1);
    }
    ensure!(pubs.public_memory.len() == p.words.len(), "proof-file", "{} public cells: {d}", pubs.public_memory.len());
    let r = guard(|| verify_cairo_proof(proof, pubs, &ProofOptions::default_test_options()));
    ensure!(r == Ok(true), "proof-file", "does not verify ({r:?}): {d}");
    let again = [(proof.serialize().len() as u64).to_be_bytes().to_vec(), proof.serialize()].concat();
    let expected = again.len() + pubs.serialize().len();
    ensure!(bytes.starts_with(&again) && bytes.len() == expected, "proof-file", "not the length, the proof and the statement, {} bytes instead of {expected}: {d}", bytes.len());
    Ok(parts)
}

/// Damage a proof file.
fn damage(src: &mut Src, a: &[u8], other: &[u8]) -> (Vec<u8>, String) {
    let mut b = a.to_vec();
    let n = b.len();
    // the places where the structure is: header, start, the border between proof and statement
    let border = 8 + u64::from_be_bytes(a[..8].try_into().unwrap()) as usize;
    let spot = |src: &mut Src| match src.upto(5) {
        0 => src.usize(0, 7),
        1 => (border + src.usize(0, 250)).min(n - 1),
        2 => border.saturating_sub(src.usize(1, 60)).min(n - 1),
        3 => 8 + src.usize(0, 120.min(n - 9)),
        _ => src.usize(0, n - 1),
    };
    match src.upto(8) {
        0 | 1 => {
            let mut at = vec![];
            for _ in 0..src.usize(1, 3) {
                let k = spot(src);
                b[k] ^= 1 << src.upto(7);
                at.push(k);
            }
            (b, format!("bits flipped at {at:?} of {n}"))
        }
        2 => {
            let k = spot(src);
            b.truncate(k);
            (b, format!("first {k} of {n} bytes"))
        }
        3 => {
            let k = spot(src);
            let l = src.usize(1, 64).min(n - k);
            b.drain(k..k + l);
            (b, format!("{l} bytes removed at {k} of {n}"))
        }
        4 => {
            let k = spot(src);
            let extra = src.bytes(40);
            let l = extra.len();
            b.splice(k..k, extra);
            (b, format!("{l} bytes inserted at {k} of {n}"))
        }
        5 => {
            let k = spot(src).min(other.len());
            b.truncate(k);
            b.extend(&other[k..]);
            (b, format!("first {k} bytes, then another proof"))
        }
        6 => {
            // another program's statement, or its proof
            let ob = 8 + u64::from_be_bytes(other[..8].try_into().unwrap()) as usize;
            if src.bool() {
                b.truncate(border);
                b.extend(&other[ob..]);
                (b, "another program's statement".into())
            } else {
                let mut o = other[..ob].to_vec();
                o.extend(&a[border..]);
                (o, "another program's proof".into())
            }
        }
        7 => {
            let v = match src.upto(3) {
                0 => 0,
                1 => u64::MAX,
                2 => (border as u64 - 8).wrapping_add_signed(*src.pick(&[-32, -8, -1, 1, 8, 32])),
                _ => src.edgy_u64(),
            };
            b[..8].copy_from_slice(&v.to_be_bytes());
            (b, format!("proof length {v} instead of {}", border - 8))
        }
        _ => {
            let k = spot(src);
            let l = src.usize(1, 200).min(n - k);
            for x in &mut b[k..k + l] {
                *x = 0;
            }
            (b, format!("{l} bytes zeroed at {k} of {n}"))
        }
    }
}

fn main() {
    let cli = std::env::var("C22_CLI").expect("path of the command line tool");
    let mut c = Check::new("C22", "a case counts when the tool proves or refuses something at least twice");
    c.assume("the virtual machine is a stand-in (DESIGN.md, Shims)");
    let root = PathBuf::from(std::env::var("TMPDIR").unwrap_or("/tmp".into())).join(format!("c22-{}", std::process::id()));
    std::fs::create_dir_all(&root).expect("scratch directory");
    let root = root.canonicalize().unwrap();
    let scratch = Dir(root.clone());

    c.run("histories", c.n(4000, 40_000), |src, ctx| {
        let dir = Dir::new(&root);
        // the model: programs and proof files in the directory
        let mut good: Vec<(String, Prog)> = vec![];
        let mut bad: Vec<(String, String)> = vec![];
        let mut proofs: Vec<(String, Vec<u8>)> = vec![];
        let mut history: Vec<String> = vec![];
        let mut done = 0;
        let put = |name: &str, b: &[u8]| std::fs::write(dir.0.join(name), b).expect("scratch file");
        let p = program(src);
        let name = if p.v1 { "first.casm" } else { "first.json" };
        put(name, &p.bytes());
        good.push((name.to_string(), p));
        for step in 0..src.usize(3, 9) {
            if src.chance(1, 8) {
                // something else is there already
                put(&format!("proof{step}"), &vec![src.upto(255) as u8; *src.pick(&[0, 8, 3000, 600_000])]);
            }
            let before = dir.snapshot();
            let unchanged = |what: &str, history: &[String]| -> Res {
                ensure!(dir.snapshot() == before, "files-changed", "{what} changed the files: {history:?}");
                Ok(())
            };
            match src.weighted(&[2, 3, 6, 4, 3, 5, 6, 3]) {
                // another program
                0 => {
                    let p = program(src);
                    let name = format!("p{step}{}", if p.v1 { ".casm" } else { ".json" });
                    put(&name, &p.bytes());
                    good.push((name, p));
                }
                // something that cannot be run
                1 => {
                    let (b, v1, what) = if src.chance(1, 4) {
                        // the name decides about the kind
                        let p = program(src);
                        (p.bytes(), !p.v1, "program of the other kind".to_string())
                    } else {
                        programs::broken(src)
                    };
                    let name = format!("b{step}{}", if v1 { ".casm" } else { ".json" });
                    put(&name, &b);
                    bad.push((name, what));
                }
                2 => {
                    let (name, p) = src.pick(&good);
                    let out = match src.upto(3) {
                        0 if !proofs.is_empty() => proofs[0].0.clone(),
                        _ => format!("proof{step}"),
                    };
                    history.push(format!("prove {name} {out}"));
                    let s = tool(&cli, &dir, &["prove", name, &out])?;
                    let after = dir.snapshot();
                    let Some(Some(bytes)) = after.get(&out) else {
                        return fail("no-proof", format!("{history:?}: {}: {}", s.text, p.describe()));
                    };
                    check_file(p, bytes).map_err(|f| Fail { msg: format!("{history:?}: {}", f.msg), ..f })?;
                    let mut rest = after.clone();
                    rest.remove(&out);
                    let mut was = before.clone();
                    was.remove(&out);
                    ensure!(rest == was, "files-changed", "{history:?}");
                    proofs.retain(|x| x.0 != out);
                    proofs.push((out, bytes.clone()));
                    done += 1;
                    ctx.label("prove");
                }
                3 => {
                    let Some((name, _)) = proofs.last().or(proofs.first()) else { continue };
                    history.push(format!("verify {name}"));
                    let s = tool(&cli, &dir, &["verify", name])?;
                    ensure!(s.success, "rejected", "{history:?}: {}", s.text);
                    unchanged("verify", &history)?;
                    done += 1;
                    ctx.label("verify");
                }
                4 => {
                    let (name, p) = src.pick(&good);
                    history.push(format!("prove_and_verify {name}"));
                    let s = tool(&cli, &dir, &["prove_and_verify", name])?;
                    ensure!(s.success, "combined-run", "{history:?}: {}: {}", s.text, p.describe());
                    unchanged("prove_and_verify", &history)?;
                    done += 1;
                    ctx.label("prove_and_verify");
                }
                // programs that fail
                5 => {
                    if bad.is_empty() {
                        continue;
                    }
                    let (name, what) = src.pick(&bad).clone();
                    let s = if src.bool() {
                        // an existing proof must survive too
                        let out = proofs.first().map(|p| p.0.clone()).filter(|_| src.bool()).unwrap_or("never".into());
                        history.push(format!("prove {name} {out}"));
                        tool(&cli, &dir, &["prove", &name, &out])?
                    } else {
                        history.push(format!("prove_and_verify {name}"));
                        tool(&cli, &dir, &["prove_and_verify", &name])?
                    };
                    ensure!(!s.success, "bad-program", "{history:?} ({what}): {}", s.text);
                    unchanged(&what, &history)?;
                    done += 1;
                    ctx.label("program that fails");
                }
                // damaged proof files
                6 => {
                    if proofs.is_empty() {
                        continue;
                    }
                    let (_, a) = src.pick(&proofs).clone();
                    let (_, o) = src.pick(&proofs).clone();
                    let (b, what) = damage(src, &a, &o);
                    let originals: Vec<Parts> = proofs.iter().filter_map(|p| read(&p.1)).collect();
                    if read(&b).is_some_and(|d| originals.iter().any(|o| same(o, &d))) {
                        ctx.label("damage that changes nothing");
                        continue;
                    }
                    let only_padding = read(&b).is_some_and(|d| originals.iter().any(|o| o.0.serialize() == d.0.serialize() && o.1.num_steps != d.1.num_steps));
                    if only_padding {
                        continue;
                    }
                    put("damaged", &b);
                    history.push(format!("verify damaged ({what})"));
                    let s = tool(&cli, &dir, &["verify", "damaged"])?;
                    ensure!(!s.success, "damaged-accepted", "{history:?}: {}", s.text);
                    done += 1;
                    ctx.label("damaged proof");
                }
                // bad usage
                _ => {
                    let program = good[0].0.clone();
                    let proof = proofs.first().map(|p| p.0.clone()).unwrap_or("nothing".into());
                    let args: Vec<&str> = match src.upto(13) {
                        0 => vec![],
                        1 => vec!["prove"],
                        2 => vec!["prove", &program],
                        3 => vec!["verify"],
                        4 => vec!["prove_and_verify"],
                        5 => vec!["Verify", &proof],
                        6 => vec!["", &proof],
                        7 => vec!["verify", "missing"],
                        8 => vec!["prove", "missing", "never"],
                        9 => vec!["prove_and_verify", "missing"],
                        10 => vec!["verify", "."],
                        11 => vec!["prove", &program, "no/such/place"],
                        12 => vec!["prove", &program, "."],
                        _ => vec!["verify", &program],
                    };
                    history.push(format!("{args:?}"));
                    let s = tool(&cli, &dir, &args)?;
                    ensure!(!s.success, "bad-usage", "{history:?}: {}", s.text);
                    ensure!(!s.text.trim().is_empty(), "silent", "nothing is reported: {history:?}");
                    unchanged("bad usage", &history)?;
                    done += 1;
                    ctx.label("bad usage");
                }
            }
        }
        ctx.sample(history.join("; "));
        ctx.evals(history.len() as u64);
        if done >= 2 {
            ctx.nontrivial(format!("{history:?}").as_bytes());
        }
        Ok(())
    });

    // every kind of damage, at many places of a few proofs
    c.run("damaged proofs", c.n(500, 6000), |src, ctx| {
        let dir = Dir::new(&root);
        let mut made = vec![];
        for k in 0..2 {
            let p = program(src);
            let name = format!("p{k}{}", if p.v1 { ".casm" } else { ".json" });
            std::fs::write(dir.0.join(&name), p.bytes()).expect("scratch file");
            let out = format!("proof{k}");
            tool(&cli, &dir, &["prove", &name, &out])?;
            let Ok(b) = std::fs::read(dir.0.join(&out)) else { return fail("no-proof", p.describe()) };
            made.push(b);
        }
        let originals: Vec<Parts> = made.iter().filter_map(|p| read(p)).collect();
        for _ in 0..30 {
            let (b, what) = damage(src, &made[0], &made[1]);
            if let Some(d) = read(&b) {
                if originals.iter().any(|o| same(o, &d) || o.0.serialize() == d.0.serialize() && o.1.num_steps != d.1.num_steps) {
                    ctx.label("damage that changes nothing");
                    continue;
                }
                ctx.label("damage that still decodes");
            } else {
                ctx.label("damage that does not decode");
            }
            std::fs::write(dir.0.join("damaged"), &b).expect("scratch file");
            let s = tool(&cli, &dir, &["verify", "damaged"]).map_err(|f| Fail { msg: format!("{what}: {}", f.msg), ..f })?;
            ensure!(!s.success, "damaged-accepted", "{what}: {}", s.text);
            ctx.evals(1);
        }
        ctx.nontrivial(&made[0]);
        Ok(())
    });

    // the proofs in the repository were made by the original tool
    let made: Vec<PathBuf> = std::fs::read_dir("/repo/benches/proofs").map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    c.each("proofs of the repository", &made, |path, ctx| {
        let dir = Dir::new(&root);
        let name = path.to_string_lossy().into_owned();
        ctx.sample(name.clone());
        let Ok(b) = std::fs::read(path) else { return Ok(()) };
        // some of the files are in an older format
        let Some(parts) = read(&b) else {
            ctx.label("older format");
            return Ok(());
        };
        if !parts.1.public_memory.is_empty() && name.contains("70000") {
            let s = tool(&cli, &dir, &["verify", &name])?;
            ensure!(s.success, "old-proof", "{name}: {}", s.text);
            ctx.nontrivial(name.as_bytes());
        }
        Ok(())
    });
    drop(scratch);
    c.finish()
}
