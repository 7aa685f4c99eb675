//! One check's run: output redirection, watchdog, evidence and verdict.
use crate::explore::*;
use std::io::Write;
use std::os::fd::FromRawFd;
use std::sync::Mutex;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub st: &'static Stats,
    pub start: Instant,
    pub deadline: Instant,
    pub level: Mutex<&'static str>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    pub bounds: Mutex<Vec<(String, String)>>,
    known: Vec<(String, String)>,
    out: Mutex<std::fs::File>,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else { format!("{}...", s.chars().take(n).collect::<String>()) }
}

impl Ctx {
    pub fn new(id: &str, thorough: bool) -> Ctx {
        // the library prints; keep our own handle on the real stdout
        let out = unsafe {
            let keep = libc::dup(1);
            if std::env::var("GSMC_VERBOSE").is_err() {
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 1);
                libc::dup2(null, 2);
                libc::close(null);
            }
            std::fs::File::from_raw_fd(keep)
        };
        if std::env::var("GSMC_VERBOSE").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        let secs = if thorough { 780 } else { 420 };
        let secs = std::env::var("GSMC_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(secs);
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in t.lines() {
                if let Some(r) = l.strip_prefix(&format!("known: property={id} key=")) {
                    let (k, what) = r.split_once(' ').unwrap_or((r, ""));
                    known.push((k.to_string(), what.to_string()));
                }
            }
        }
        let st: &'static Stats = Box::leak(Box::new(Stats {
            known: known.iter().map(|k| k.0.clone()).collect(),
            ..Stats::new()
        }));
        let start = Instant::now();
        let ctx = Ctx {
            id: id.into(),
            thorough,
            st,
            start,
            deadline: start + Duration::from_secs(secs),
            level: Mutex::new("model_checking"),
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
            bounds: Mutex::new(vec![]),
            known,
            out: Mutex::new(out),
        };
        let dup = ctx.out.lock().unwrap().try_clone().unwrap();
        let (idc, vd) = (id.to_string(), verif_dir());
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_secs(2));
                if let Some(w) = hung() {
                    let p = write_replay(&vd, &idc, &format!("a run did not end within {HANG:?}: {w}\n"));
                    let _ = writeln!(&dup, "{}", clip(&format!("{idc}: a run did not end within {HANG:?}: {w}"), 2000));
                    let _ = writeln!(&dup, "VIOLATION property={idc} replay={p}");
                    write_evidence_min(&vd, &idc, st);
                    std::process::exit(1);
                }
            }
        });
        ctx
    }
    pub fn say(&self, s: &str) {
        let _ = writeln!(self.out.lock().unwrap(), "{s}");
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn level(&self, s: &'static str) {
        *self.level.lock().unwrap() = s;
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn bound(&self, k: &str, v: impl std::fmt::Display) {
        self.bounds.lock().unwrap().push((k.into(), v.to_string()));
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// Run one phase of a check with its own share of the time; skipped once something failed.
    pub fn phase(&self, name: &str, f: impl FnOnce()) {
        if self.st.broken() {
            return;
        }
        let (t, e) = (Instant::now(), self.st.executions.load(Ordering::Relaxed));
        f();
        let n = self.st.executions.load(Ordering::Relaxed) - e;
        self.bound(&format!("phase {name}"), format!("{n} executions"));
        self.say(&format!("{} {name}: {n} executions in {:.1} s", self.id, t.elapsed().as_secs_f64()));
    }
    pub fn finish(self) -> ! {
        let st = self.st;
        let all = st.violations.lock().unwrap().clone();
        let new = all;
        for (k, n) in st.seen.lock().unwrap().iter() {
            let what = self.known.iter().find(|x| x.0 == *k).map_or("", |x| &x.1);
            self.say(&format!("KNOWN-FINDING: property={} {k}: {what} ({n} executions)", self.id));
        }
        let level = *self.level.lock().unwrap();
        let ex = st.executions.load(Ordering::Relaxed);
        let mut cov = vec![];
        let samples: Vec<String> =
            st.samples.lock().unwrap().iter().map(|s| js(&clip(s, 1500))).collect();
        if level == "model_checking" {
            cov.push(format!("\"states\": {}", st.states()));
            cov.push(format!("\"transitions\": {}", st.transitions.load(Ordering::Relaxed)));
            cov.push(format!("\"traces_validated_against_impl\": {ex}"));
        } else {
            cov.push(format!("\"evaluations\": {ex}"));
            cov.push(format!("\"distinct_nontrivial\": {}", st.states()));
        }
        cov.push(format!("\"rule\": {}", js(&self.rule.lock().unwrap())));
        cov.push(format!("\"samples\": [{}]", samples.join(", ")));
        cov.push(format!("\"exhaustive\": {}", !st.incomplete.load(Ordering::Relaxed)));
        for (k, v) in st.extra.lock().unwrap().iter() {
            cov.push(format!("{}: {v}", js(k)));
        }
        let b: Vec<String> = self
            .bounds
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| format!("{}: {}", js(k), js(v)))
            .collect();
        cov.push(format!("\"bounds\": {{{}}}", b.join(", ")));
        let ass: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect();
        let wall = self.elapsed();
        write_evidence(
            &self.id,
            &format!(
                "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
                js(&self.id),
                js(if self.thorough { "thorough" } else { "quick" }),
                seed(),
                js(level),
                cov.join(", "),
                ass.join(", "),
                wall,
                new.len()
            ),
        );
        self.say(&format!(
            "{}: {ex} executions, {} transitions, {} states, {} violations, {:.1} s{}",
            self.id,
            st.transitions.load(Ordering::Relaxed),
            st.states(),
            new.len(),
            wall,
            if st.incomplete.load(Ordering::Relaxed) { " (time bound reached)" } else { "" }
        ));
        if let Some(v) = new.first() {
            let text = new
                .iter()
                .map(|v| format!("configuration: {}\nchoices: {}\n{}\n\n", v.config, v.path, v.message))
                .collect::<String>();
            let p = write_replay(&verif_dir(), &self.id, &text);
            self.say(&clip(&format!("configuration: {}", v.config), 3000));
            self.say(&clip(&format!("choices: {}", v.path), 2000));
            self.say(&clip(&v.message, 4000));
            self.say(&format!("VIOLATION property={} replay={p}", self.id));
            std::process::exit(1);
        }
        std::process::exit(0);
    }
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn write_replay(vd: &std::path::Path, id: &str, text: &str) -> String {
    let d = vd.join("out/replay");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{id}.txt"));
    let _ = std::fs::write(&p, text);
    p.display().to_string()
}

fn write_evidence(id: &str, json: &str) {
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let name = std::env::var("GSMC_PART").map(|p| format!("{id}.{p}.part")).unwrap_or(format!("{id}.json"));
    let _ = std::fs::write(d.join(name), json);
}

fn write_evidence_min(_vd: &std::path::Path, id: &str, st: &Stats) {
    let ex = st.executions.load(Ordering::Relaxed);
    write_evidence(
        id,
        &format!(
            "{{\"property\": {}, \"tier\": \"quick\", \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {ex}, \"distinct_nontrivial\": {}, \"rule\": \"ended by the watchdog\", \"samples\": [\"a run that did not end\"]}}, \"wall_s\": 0, \"violations\": 1}}\n",
            js(id),
            seed(),
            st.states()
        ),
    );
}
