//! Runtime monitors for succinct_neo.
//!
//! Usage: mon --prop C02 [--tier quick|thorough] [--seed N] [--shard I/N] [--scale F] [--mini]
//!            [--out FILE] [--journal FILE] [--consts FILE] [--digests FILE] [--soft-s SECS]
//!            [--case FAMILY:IDX] [--trace] [--skip-heavy] [--only FAMILY]
//!
//! Exit codes: 0 held, 1 violation (described in the output file), 3 a case did not come back
//! within its CPU limit, anything else: the process was killed by what it observed.

mod alloc;
#[macro_use]
mod core;
mod p_bits;
mod p_conc;
mod p_cost;
mod p_int;
mod p_lin;
mod p_rank;
mod p_safe;
mod p_space;
mod p_view;

use crate::core::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

pub struct Family {
    pub prop: &'static str,
    pub name: &'static str,
    /// number of cases in the quick and the thorough tier, and for interpreters
    pub quick: usize,
    pub thorough: usize,
    pub mini: usize,
    /// CPU seconds after which a single case counts as not coming back
    pub limit: u64,
    /// huge inputs, only for optimised builds without sanitizers
    pub heavy: bool,
    /// the cases enumerate a finite set: never scaled down
    pub fixed: bool,
    /// the same cases with long inputs
    pub wide: bool,
    pub run: fn(&mut Ctx) -> R,
}

impl Family {
    pub const fn new(prop: &'static str, name: &'static str, quick: usize, thorough: usize, mini: usize, run: fn(&mut Ctx) -> R) -> Self {
        Family { prop, name, quick, thorough, mini, limit: 60, heavy: false, fixed: false, wide: false, run }
    }
    pub const fn heavy(mut self) -> Self {
        self.heavy = true;
        self.limit = 200;
        self
    }
    pub const fn fixed(mut self) -> Self {
        self.fixed = true;
        self
    }
    pub const fn wide(mut self) -> Self {
        self.wide = true;
        self.fixed = true;
        self
    }
    pub const fn limit(mut self, s: u64) -> Self {
        self.limit = s;
        self
    }
}

static CASE_START_CPU: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_LIMIT_MS: AtomicU64 = AtomicU64::new(u64::MAX);

#[cfg(not(miri))]
fn cpu_ms() -> u64 {
    extern "C" {
        fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
    }
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, &mut ts) };
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

#[cfg(miri)]
fn cpu_ms() -> u64 {
    0
}

#[derive(Default)]
struct Args {
    prop: String,
    thorough: bool,
    seed: u64,
    shard: usize,
    shards: usize,
    scale: f64,
    mini: bool,
    out: String,
    journal: String,
    consts: String,
    digests: String,
    soft_s: u64,
    case: Option<(String, usize)>,
    trace: bool,
    skip_heavy: bool,
    only: String,
}

fn parse() -> Args {
    let mut a = Args { seed: 1, shards: 1, scale: 1.0, soft_s: 100_000, ..Default::default() };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("missing value");
        match k.as_str() {
            "--prop" => a.prop = v(),
            "--tier" => a.thorough = v() == "thorough",
            "--seed" => a.seed = v().parse().expect("seed"),
            "--shard" => {
                let s = v();
                let (i, n) = s.split_once('/').expect("shard");
                a.shard = i.parse().expect("shard");
                a.shards = n.parse().expect("shards");
            }
            "--scale" => a.scale = v().parse().expect("scale"),
            "--mini" => a.mini = true,
            "--out" => a.out = v(),
            "--journal" => a.journal = v(),
            "--consts" => a.consts = v(),
            "--digests" => a.digests = v(),
            "--soft-s" => a.soft_s = v().parse().expect("soft"),
            "--case" => {
                let s = v();
                let (f, i) = s.rsplit_once(':').expect("case");
                a.case = Some((f.to_string(), i.parse().expect("idx")));
            }
            "--trace" => a.trace = true,
            "--skip-heavy" => a.skip_heavy = true,
            "--only" => a.only = v(),
            _ => panic!("unknown argument {k}"),
        }
    }
    a
}

fn families() -> Vec<Family> {
    let mut f = Vec::new();
    f.extend(p_bits::families());
    f.extend(p_int::families());
    f.extend(p_rank::families());
    f.extend(p_space::families());
    f.extend(p_cost::families());
    f.extend(p_lin::families());
    f.extend(p_view::families());
    f.extend(p_conc::families());
    f.extend(p_safe::families());
    f
}

fn main() {
    install_panic_hook();
    let a = parse();
    let started = Instant::now();

    let consts: Vec<usize> = std::fs::read_to_string(&a.consts)
        .map(|s| s.split_whitespace().filter_map(|x| x.parse().ok()).collect())
        .unwrap_or_default();

    let mut ctx = Ctx {
        rng: Rng::new(0),
        family: "",
        idx: 0,
        thorough: a.thorough,
        small: a.mini,
        wide: false,
        consts,
        stats: Stats::default(),
        digest: 0,
        trace: a.trace,
        scratch_desc: String::new(),
    };

    if !cfg!(miri) {
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let (s, l) = (CASE_START_CPU.load(SeqCst), CASE_LIMIT_MS.load(SeqCst));
            if s != u64::MAX && cpu_ms().saturating_sub(s) > l {
                eprintln!("case did not come back within {l} ms of CPU time");
                std::process::exit(3);
            }
        });
    }

    let mut journal = (!a.journal.is_empty()).then(|| std::fs::File::create(&a.journal).expect("journal"));
    let mut digests = (!a.digests.is_empty()).then(|| std::io::BufWriter::new(std::fs::File::create(&a.digests).expect("digests")));

    let mut violation: Option<String> = None;
    let mut vcase = String::new();
    let mut cut = false;
    let mut ran: Vec<(&'static str, u64, u64)> = Vec::new();

    let chosen: Vec<Family> = families()
        .into_iter()
        .filter(|f| f.prop == a.prop)
        .filter(|f| a.case.as_ref().is_none_or(|(n, _)| n == f.name))
        .filter(|f| a.only.is_empty() || a.only == f.name)
        .filter(|f| !(f.heavy && a.skip_heavy && a.case.is_none()))
        .collect();
    'outer: for (pos, fam) in chosen.iter().enumerate() {
        // families share the time that is left, and each runs at least one case
        let spent = started.elapsed().as_secs_f64();
        let until = spent + (a.soft_s as f64 - spent).max(0.0) / (chosen.len() - pos) as f64;
        let mut count = if a.mini {
            fam.mini
        } else if a.thorough {
            fam.thorough
        } else {
            fam.quick
        };
        if !fam.fixed && !fam.heavy && count > 0 {
            count = ((count as f64 * a.scale).ceil() as usize).max(1);
        }
        ctx.family = fam.name;
        ctx.wide = fam.wide;
        let mut n_run = 0;
        let t0 = Instant::now();
        // spread the cases of small families over the shards as well
        let off = hash_str(fam.name) as usize % a.shards;
        let range: Box<dyn Iterator<Item = usize>> = match &a.case {
            Some((_, i)) => Box::new(std::iter::once(*i)),
            None => {
                let (sh, n) = (a.shard, a.shards);
                Box::new((0..count).filter(move |i| (i + off) % n == sh))
            }
        };
        for idx in range {
            if n_run > 0 && started.elapsed().as_secs_f64() > until {
                cut = true;
                break;
            }
            ctx.idx = idx;
            ctx.rng = Rng::new(mix(mix(a.seed, hash_str(fam.name)), mix(hash_str(fam.prop), idx as u64)));
            ctx.digest = 0;
            if let Some(j) = journal.as_mut() {
                use std::io::Seek;
                let _ = j.seek(std::io::SeekFrom::Start(0));
                let _ = j.write_all(format!("{:<60}\n", format!("{}:{}", fam.name, idx)).as_bytes());
            }
            CASE_LIMIT_MS.store(fam.limit * 1000, SeqCst);
            CASE_START_CPU.store(cpu_ms(), SeqCst);
            let corrupt0 = alloc::corrupt();
            let inputs0 = ctx.stats.inputs;
            let run = fam.run;
            let res = match no_panic(|| run(&mut ctx)) {
                Ok(r) => r,
                Err(p) => Err(format!("unexpected panic: {p}")),
            };
            let res = res.and_then(|_| {
                if alloc::corrupt() != corrupt0 {
                    Err("heap canary overwritten: a write left its allocation".into())
                } else {
                    Ok(())
                }
            });
            CASE_START_CPU.store(u64::MAX, SeqCst);
            ctx.stats.cases += 1;
            if ctx.stats.inputs == inputs0 {
                ctx.stats.inputs += 1;
            }
            n_run += 1;
            if let Some(d) = digests.as_mut() {
                let _ = writeln!(d, "{}:{} {:016x}", fam.name, idx, ctx.digest);
            }
            if let Err(e) = res {
                violation = Some(e);
                vcase = format!("{}:{}", fam.name, idx);
                break 'outer;
            }
        }
        ran.push((fam.name, n_run, t0.elapsed().as_millis() as u64));
    }
    if let Some(mut d) = digests {
        let _ = d.flush();
    }

    if !a.out.is_empty() {
        let s = &ctx.stats;
        let mut o = String::from("{");
        o += &format!("\"cases\":{},\"inputs\":{},\"events\":{},\"rejections\":{},\"audits\":{},", s.cases, s.inputs, s.events, s.rejections, s.audits);
        o += &format!("\"by_op\":{{{}}},", s.by_op.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
        o += &format!("\"notes\":{{{}}},", s.notes.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
        o += &format!("\"families\":{{{}}},", ran.iter().map(|(k, v, ms)| format!("{}:[{},{}]", json_str(k), v, ms)).collect::<Vec<_>>().join(","));
        o += &format!("\"samples\":[{}],", s.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","));
        o += &format!("\"cut\":{},\"wall_s\":{:.3}", cut, started.elapsed().as_secs_f64());
        if let Some(v) = &violation {
            o += &format!(",\"violation\":{},\"case\":{}", json_str(v), json_str(&vcase));
        }
        o += "}";
        std::fs::write(&a.out, o).expect("out");
        let mut h = Vec::with_capacity(s.distinct.len() * 8);
        for x in &s.distinct {
            h.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(format!("{}.hashes", a.out), h).expect("hashes");
    }
    if let Some(v) = violation {
        eprintln!("VIOLATED {vcase}: {v}");
        std::process::exit(1);
    }
}
