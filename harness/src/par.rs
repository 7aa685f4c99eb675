//! C06 (on real thread pools), C07: parallel and sequential execution agree.
use crate::core::*;
use crate::explore::*;
use crate::parcfg::*;
use crate::report::Ctx;
use std::collections::HashMap;
use std::fmt::Write;
use std::sync::Mutex;

/// The searches of C06 on real rayon pools; their digests go to `GSMC_REAL` for the comparison with
/// the controlled scheduler.
pub fn c06(ctx: &Ctx) {
    ctx.rule("every search gives bitwise the same solutions, observer counts and checkpoints on real rayon pools of 1 to 8 threads, repeatedly");
    ctx.assume("orders and preemptions are those real pools happen to produce (the controlled scheduler enumerates them)");
    let ls = loads(ctx.thorough);
    let digests = Mutex::new(String::new());
    ctx.phase("real rayon pools", || {
        for_all(ctx.st, &ls, ctx.deadline, |l| {
            let mut base: Option<Seen> = None;
            for threads in [1, 2, 3, 4, 8] {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
                for rep in 0..if ctx.thorough { 12 } else { 4 } {
                    // vary the relative speed of the pieces of work
                    let n = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(rep * 7));
                    let hook: Option<Hook> = (rep > 0).then(|| {
                        let f: Hook = std::sync::Arc::new(move || {
                            let k = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            if (k * 5 + rep) % 4 == 0 {
                                std::thread::sleep(std::time::Duration::from_micros(30 * (k % 5)));
                            }
                        });
                        f
                    });
                    let s = pool.install(|| execute(l, hook));
                    ctx.st.step(1);
                    ctx.st.state(hash(&(l.name(), threads, rep)));
                    match &base {
                        None => base = Some(s),
                        Some(b) => s
                            .agrees(b)
                            .map_err(|m| format!("{threads} threads, run {rep}: differs from the first run: {m}"))?,
                    }
                }
            }
            let b = base.unwrap();
            ctx.st.sample(|| format!("{l:?}: {}", b.brief()));
            let _ = writeln!(digests.lock().unwrap(), "{}\t{}", l.name(), b.digest());
            Ok(())
        });
    });
    if let Ok(p) = std::env::var("GSMC_REAL") {
        let _ = std::fs::write(p, &*digests.lock().unwrap());
    }
}

fn child(bin: &str, thorough: bool) -> Option<HashMap<String, (String, String)>> {
    let o = std::process::Command::new(bin).arg(if thorough { "thorough" } else { "quick" }).stderr(std::process::Stdio::null()).output().ok()?;
    if !o.status.success() {
        return None;
    }
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    Some(
        t.lines()
            .filter_map(|l| {
                let mut p = l.split('\t');
                Some((p.next()?.to_string(), (p.next()?.to_string(), p.next()?.to_string())))
            })
            .collect(),
    )
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("for every search of the lattice: parallel execution off, on with a batch size of one, and crates built without the parallel feature (also with the progress bar) give bitwise the same Stage 1 result, solutions and observer reports");
    ctx.assume("builds compared: default features of the harness, without rayon, without rayon but with progress_bar");
    let ls = loads07(ctx.thorough);
    ctx.bound("searches", ls.len());
    let mine: Mutex<HashMap<String, (String, String)>> = Mutex::new(HashMap::new());
    let pools: Vec<rayon::ThreadPool> =
        (0..16).map(|i| rayon::ThreadPoolBuilder::new().num_threads([1, 2, 4, 8][i % 4]).build().unwrap()).collect();
    let turn = std::sync::atomic::AtomicUsize::new(0);
    ctx.phase("parallel off, batch of one", || {
        for_all(ctx.st, &ls, ctx.deadline, |l| {
            let pool = &pools[turn.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % pools.len()];
            let off = execute(&Load { spec: Spec { batch: Batch::Off, ..l.spec.clone() }, ..l.clone() }, None);
            let s_off = stage1_digest(l, false);
            let (on, s_on) = pool.install(|| {
                (execute(&Load { spec: Spec { batch: Batch::N(1), ..l.spec.clone() }, ..l.clone() }, None), stage1_digest(l, true))
            });
            ctx.st.step(4);
            ctx.st.state(hash(&off.digest()));
            ctx.st.sample(|| format!("{l:?}: {}", off.brief()));
            mine.lock().unwrap().insert(l.name(), (s_off.clone(), off.digest()));
            if s_on != s_off {
                return Err(format!("Stage 1 gives with parallel execution {s_on}\nand without {s_off}"));
            }
            on.agrees(&off).map_err(|m| format!("with parallel execution and a batch size of one, compared to parallel execution off: {m}"))
        });
    });
    crate::stage2::c07_scripts(ctx);
    for (var, what) in [("GSMC_NOPAR", "without the parallel feature"), ("GSMC_PB", "without the parallel feature, with the progress bar")] {
        let Ok(bin) = std::env::var(var) else { continue };
        ctx.phase(what, || {
            let Some(other) = child(&bin, ctx.thorough) else {
                ctx.st.violation(what.into(), String::new(), format!("the searches of a crate built {what} crash"));
                return;
            };
            let mine = mine.lock().unwrap();
            for l in &ls {
                ctx.st.exec();
                ctx.st.step(2);
                let (Some(a), Some(b)) = (mine.get(&l.name()), other.get(&l.name())) else {
                    continue;
                };
                ctx.st.count("searches compared across builds", 1);
                if a.0 != b.0 {
                    ctx.st.violation(l.name(), String::new(), format!("Stage 1 of a crate built {what} gives {}\ninstead of {}", b.0, a.0));
                }
                if a.1 != b.1 {
                    ctx.st.violation(l.name(), String::new(), format!("a crate built {what} gives {}\ninstead of {}", b.1, a.1));
                }
            }
        });
    }
}
