//! C11: proving is deterministic and independent of parallelism.
//!
//! The same program plays two roles: the check (sequential prover) and, built with the crate's
//! `parallel` feature, a worker which proves described cases in thread pools of a given size.
use lambdaworks_math::traits::Serializable;
use lambdaworks_stark::cairo::air::generate_cairo_proof;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use sha3::{Digest, Keccak256};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
use vh::genair::Cfg;
use vh::sys::{self, System};
use vh::*;

#[derive(Clone, Copy, Debug)]
struct Case {
    kind: u64,
    seed: u64,
    max_log: u64,
    max_main: u64,
}

/// The proof of a described case, from scratch: trace, memory and tables are rebuilt.
fn prove(c: &Case) -> Result<Vec<u8>, String> {
    let mut src = Src::random(c.seed);
    if c.kind == 1 {
        let cfg = cairo::Cfg { max_steps: 1 << c.max_log, max_program: 10 + 4 * c.max_main as usize, ..Default::default() };
        let run = cairo::generate(&mut src, &cfg);
        let mut pubs = run.public();
        let t = guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs))?;
        let opts = sys::options(&mut src, t.n_rows(), 2, 0);
        return guard(|| generate_cairo_proof(&t, &pubs, &opts))?.map(|p| p.serialize()).map_err(|e| format!("refused: {e:?}"));
    }
    let cfg = Cfg { min_log: 0, max_log: c.max_log as usize, max_main: c.max_main as usize, ..Default::default() };
    let s: Box<dyn System> = if c.kind == 2 { sys::example(&mut src, (c.max_log as usize).max(2)) } else { Box::new(sys::generated(&mut src, &cfg)) };
    let opts = sys::options_for(&mut src, &*s, 0);
    match s.prove(&opts)? {
        Some(p) => Ok(p.serialize()),
        None => Err("refused".into()),
    }
}

fn answer(r: &Result<Vec<u8>, String>) -> String {
    match r {
        Ok(b) => format!("proof of {} bytes {}", b.len(), hex(&Keccak256::digest(b))),
        Err(e) => format!("error {}", e.replace('\n', " ")),
    }
}

#[cfg(feature = "parallel")]
fn in_pool<T: Send>(threads: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(threads).stack_size(16 << 20).build().expect("pool").install(f)
}
#[cfg(not(feature = "parallel"))]
fn in_pool<T: Send>(_: usize, f: impl FnOnce() -> T + Send) -> T {
    f()
}

fn work() {
    engine::install_panic_hook();
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let v: Vec<u64> = line.unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
        let c = Case { kind: v[0], seed: v[1], max_log: v[2], max_main: v[3] };
        let r = in_pool(v[4] as usize, || prove(&c));
        writeln!(out, "{}", answer(&r)).unwrap();
        out.flush().unwrap();
    }
}

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Worker {
    fn start() -> Worker {
        let path = std::env::var("C11_WORKER").expect("C11_WORKER");
        let mut child = Command::new(path).env("C11_ROLE", "worker").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("worker");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Worker { child, to, from }
    }
    fn ask(&mut self, c: &Case, threads: u64) -> String {
        let mut line = String::new();
        let ok = writeln!(self.to, "{} {} {} {} {threads}", c.kind, c.seed, c.max_log, c.max_main).is_ok()
            && self.to.flush().is_ok()
            && self.from.read_line(&mut line).is_ok_and(|n| n > 0);
        if !ok {
            let _ = self.child.kill();
            let _ = self.child.wait();
            *self = Worker::start();
            return "error the worker ended".into();
        }
        line.trim_end().to_string()
    }
}

fn case(src: &mut Src, max_log: u64) -> Case {
    Case { kind: src.weighted(&[4, 3, 2]) as u64, seed: src.u64(), max_log: src.range(1, max_log), max_main: src.range(1, 8) }
}

fn main() {
    if std::env::var("C11_ROLE").is_ok() {
        return work();
    }
    let mut c = Check::new("C11", "a case counts when a proof was produced at least twice and had more than one row");
    let long = c.n(9, 12);

    // again, with other proofs before and between
    c.run("repeated", c.n(2500, 40_000), |src, ctx| {
        let a = case(src, 6);
        let b = case(src, 5);
        ctx.sample(format!("{a:?} around {b:?}"));
        let first = prove(&a);
        let other = prove(&b);
        ctx.evals(5);
        for k in 0..2 {
            let again = prove(&a);
            ensure!(again == first, "differs", "{a:?} gives {} and then {} (repetition {k}, after {b:?})", answer(&first), answer(&again));
        }
        let again = prove(&b);
        ensure!(again == other, "differs", "{b:?} gives {} and then {} (after {a:?})", answer(&other), answer(&again));
        if first.is_ok() {
            ctx.label(format!("kind {}", a.kind));
            ctx.nontrivial(format!("{a:?}").as_bytes());
        }
        Ok(())
    });

    c.run("concurrent", c.n(600, 8000), |src, ctx| {
        let cases: Vec<Case> = (0..src.usize(1, 3)).map(|_| case(src, 6)).collect();
        let copies = src.usize(2, 4);
        ctx.sample(format!("{copies} times {cases:?}"));
        let alone: Vec<_> = cases.iter().map(prove).collect();
        let all: Vec<(usize, Result<Vec<u8>, String>)> = std::thread::scope(|sc| {
            let handles: Vec<_> = (0..copies * cases.len())
                .map(|k| {
                    let c = cases[k % cases.len()];
                    let n = cases.len();
                    std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || (k % n, prove(&c))).unwrap()
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap()).collect()
        });
        ctx.evals((copies * cases.len() + cases.len()) as u64);
        for (k, r) in all {
            ensure!(r == alone[k], "concurrent-differs", "{:?} gives {} alone and {} among {copies} x {} others", cases[k], answer(&alone[k]), answer(&r), cases.len());
            if r.is_ok() {
                ctx.nontrivial(format!("{:?}", cases[k]).as_bytes());
            }
        }
        Ok(())
    });

    let workers: Vec<Mutex<Worker>> = (0..8).map(|_| Mutex::new(Worker::start())).collect();
    let ask = |c: &Case, threads: u64| -> String {
        // any idle worker, or wait for one
        for w in &workers {
            if let Ok(mut w) = w.try_lock() {
                return w.ask(c, threads);
            }
        }
        workers[(c.seed % 8) as usize].lock().unwrap().ask(c, threads)
    };
    let versus = |src: &mut Src, ctx: &mut Ctx, a: Case| -> Res {
        let want = answer(&prove(&a));
        let pools = [1, 2, 3, 4, 5, 8, 16];
        let some: Vec<u64> = (0..3).map(|_| *src.pick(&pools)).collect();
        ctx.sample(format!("{a:?} on pools {some:?}"));
        ctx.evals(1 + some.len() as u64);
        for t in some {
            let got = ask(&a, t);
            ensure!(got == want, "parallel-differs", "{a:?}: {want} sequentially, {got} on {t} threads");
            ctx.label(format!("{t} threads"));
        }
        if want.starts_with("proof") {
            ctx.nontrivial(format!("{a:?}").as_bytes());
        }
        Ok(())
    };
    c.run("parallel build", c.n(1500, 20_000), |src, ctx| {
        let a = case(src, 6);
        versus(src, ctx, a)
    });
    c.run("parallel build, long traces", c.n(40, 400), |src, ctx| {
        let a = Case { max_log: long, ..case(src, 6) };
        versus(src, ctx, a)
    });
    for w in workers {
        let w = w.into_inner().unwrap();
        drop(w.to);
        let mut child = w.child;
        let _ = child.wait();
    }
    c.finish()
}
