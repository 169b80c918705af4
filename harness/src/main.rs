//! hx run <prop> <seed> <secs> <workers> <outdir> | hx work <prop> <seed> <secs> <i> <n> <outdir> | hx case <prop> <case> [kept op numbers]
mod comps;
mod engine;
mod special;
mod lots;
mod w1;
mod wide;
use engine::*;
use std::io::Write;
use std::time::{Duration, Instant};
use w1::NA;

pub fn has(props: &str, p: &str) -> bool { p == "ALL" || props.split(' ').any(|x| x == p) }

fn mix(a: u64, b: u64) -> u64 { let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15); x ^= x >> 30; x = x.wrapping_mul(0xBF58476D1CE4E5B9); x ^= x >> 27; x = x.wrapping_mul(0x94D049BB133111EB); x ^ (x >> 31) }

pub struct History { pub caps: [usize; NA], pub pre: [Option<(u32, u32)>; NA], pub ops: Vec<Op>, pub every: usize, pub deep: usize }

/// weights: create, destroy, write, direct, query directs, iter destroy, multi destroy, clear, clone, switch, drop other, panic, clone bomb, drop bomb, forge
fn weights(prop: &str) -> [u32; 15] {
    match prop {
        "C01" => [30, 28, 2, 2, 1, 5, 3, 1, 2, 2, 1, 0, 0, 0, 2],
        "C02" => [24, 16, 24, 2, 1, 4, 2, 0, 3, 3, 1, 0, 0, 0, 0],
        "C03" => [24, 20, 2, 4, 2, 4, 1, 0, 1, 1, 0, 0, 0, 0, 16],
        "C04" => [26, 24, 5, 0, 0, 6, 3, 0, 6, 4, 5, 0, 0, 0, 0],
        "C05" => [24, 14, 6, 0, 0, 4, 14, 0, 1, 1, 0, 0, 0, 0, 0],
        "C06" => [28, 20, 4, 0, 1, 3, 2, 0, 1, 1, 0, 2, 0, 0, 0],
        "C07" => [28, 8, 4, 4, 2, 18, 12, 0, 1, 1, 0, 0, 0, 0, 0],
        "C08" => [34, 32, 0, 0, 0, 8, 4, 0, 0, 0, 0, 0, 0, 0, 0],
        "C09" => [22, 16, 2, 18, 8, 8, 3, 0, 3, 3, 0, 0, 0, 0, 2],
        "C10" => [24, 14, 4, 2, 1, 8, 4, 0, 1, 1, 2, 10, 6, 8, 0],
        "C11" => [24, 14, 4, 1, 1, 2, 1, 0, 2, 1, 0, 8, 0, 0, 0],
        "C12" => [36, 24, 0, 0, 0, 5, 2, 0, 3, 2, 0, 0, 0, 0, 0],
        "C13" => [22, 16, 8, 5, 1, 4, 1, 3, 10, 12, 3, 0, 0, 0, 0],
        "C14" => [24, 16, 2, 6, 3, 2, 1, 0, 1, 1, 0, 0, 0, 0, 6],
        "C17" => [28, 20, 0, 1, 0, 8, 5, 8, 3, 3, 0, 0, 0, 3, 0],
        _ => [26, 18, 6, 5, 2, 7, 4, 3, 3, 3, 1, 3, 1, 2, 2],
    }
}
fn gen(prop: &str, seed: u64) -> History {
    let mut g = Rng(mix(seed, 77) | 1);
    for _ in 0..4 { g.next(); }
    let wt = weights(prop);
    let tot: u32 = wt.iter().sum();
    let narch = 1 + g.below(if prop == "C05" { 5 } else { 3 });
    let off = g.below(NA);
    let (len, every) = match g.below(8) { 0 => (150 + g.below(250), 40), 1 | 2 => (60, 6), 3 => (40, 1), _ => (8 + g.below(22), 1) };
    let mut caps = [0; NA];
    for c in caps.iter_mut() { *c = [0, 0, 1, 2, 3, 5, 9][g.below(7)]; }
    let mut pre = [None; NA];
    let near = matches!(prop, "C08" | "C10" | "C19" | "ALL") && g.below(3) == 0;
    if near { for p in pre.iter_mut() { let h = [u32::MAX, u32::MAX - 1, u32::MAX - 2, u32::MAX - 5, 2, 0x7fff_ffff]; if g.below(2) == 0 { *p = Some((h[g.below(6)], h[g.below(6)])); } } }
    // phases: destroying towards the end of long histories is more likely
    let bias = g.below(3) as u32;
    let mut ops = vec![];
    for i in 0..len {
        let a = ((off + g.below(narch)) % NA) as u8;
        let mut r = (g.next() % tot as u64) as u32;
        let mut k = 0; while r >= wt[k] { r -= wt[k]; k += 1; }
        if bias == 1 && i < len / 2 && k == 1 && g.below(2) == 0 { k = 0; }
        if bias == 1 && i >= len / 2 && k == 0 && g.below(2) == 0 { k = 1; }
        let pick = g.next() as u16;
        ops.push(match k {
            0 => Op::Create { a, via: [0, 0, 1, 2, 3, 1][g.below(6)] },
            1 => Op::Destroy { a, pick, kind: g.below(4) as u8, via: g.below(2) as u8, dead: g.below(9) == 0 },
            2 => Op::Write { a, pick, via: g.below(11) as u8 },
            3 => Op::Direct { a, pick },
            4 => Op::QueryDirects { a },
            5 | 6 => { let mask = match g.below(4) { 0 => 0, 1 => u64::MAX, _ => g.next() ^ (g.next() << 30) }; let stop = if g.below(3) == 0 { 200 } else { g.below(7) } as u8;
                let how = if prop == "C10" { g.below(4) } else { g.below(2) } as u8;
                if k == 5 { Op::IterDestroy { a, mask, stop, how } } else { Op::MultiDestroy { q: g.below(8) as u8, mask, stop, how } } }
            7 => Op::Clear { a: if g.below(3) == 0 { 9 } else { a } },
            8 => Op::Clone, 9 => Op::Switch, 10 => Op::DropOther,
            11 => Op::Panic { a, via: g.below(5) as u8, n: g.below(4) as u8, pick },
            12 => Op::CloneBomb { n: g.below(5) as u8 },
            13 => if g.below(3) == 0 { Op::DropBombIter { a, n: g.below(4) as u8 } } else { Op::DropBombDestroy { a, pick } },
            _ => Op::Forge { a, seed: g.next() },
        });
    }
    History { caps, pre, ops, every, deep: 1 + g.below(4) }
}
const ALPHA: usize = 9;
/// bounded exhaustive histories on one archetype: every sequence of EXLEN operations over a 9-letter alphabet, for capacities 0..=2
pub const EXLEN: u32 = 5;
fn exh_total() -> u64 { 3 * 3 * (ALPHA as u64).pow(EXLEN) }
fn exh(prop: &str, i: u64) -> History {
    let a = [1u8, 3, 4][(i % 3) as usize]; let mut i = i / 3;
    let cap = (i % 3) as usize; i /= 3;
    let mut ops = vec![];
    for _ in 0..EXLEN {
        let k = (i % ALPHA as u64) as usize; i /= ALPHA as u64;
        ops.push(match k {
            0 => Op::Create { a, via: 0 },
            1 => Op::Create { a, via: 2 },
            2 => Op::Destroy { a, pick: 0, kind: 0, via: 0, dead: false },
            3 => Op::Destroy { a, pick: 1, kind: 1, via: 1, dead: false },
            4 => Op::Direct { a, pick: 0 },
            5 => Op::IterDestroy { a, mask: 0b101, stop: 200, how: 0 },
            6 => Op::IterDestroy { a, mask: 0b10, stop: 1, how: 1 },
            7 => if matches!(prop, "C13" | "C04" | "C02") { Op::Clone } else { Op::Write { a, pick: 1, via: 2 } },
            _ => if matches!(prop, "C13" | "C04") { Op::Switch } else if prop == "C17" { Op::Clear { a } } else { Op::Destroy { a, pick: 2, kind: 2, via: 0, dead: false } },
        });
    }
    let mut caps = [0; NA]; caps[a as usize] = cap;
    History { caps, pre: [None; NA], ops, every: EXLEN as usize, deep: 1 }
}

pub struct Outcome { pub fails: Vec<Fail>, pub at: usize, pub obs: u64 }
fn run_history(h: &History, keep: Option<&[usize]>) -> Outcome {
    let mut s = Sim::new(h.caps);
    for a in 0..NA { if let Some((v, av)) = h.pre[a] { s.preset(a, v, av); } }
    let mut at = 0;
    for (i, op) in h.ops.iter().enumerate() {
        if let Some(k) = keep { if !k.contains(&i) { continue; } }
        at = i;
        s.apply(op);
        if s.fails.is_empty() && (i + 1) % h.every == 0 { s.observe(s.obs % h.deep as u64 == 0); }
        if !s.fails.is_empty() { break; }
    }
    if s.fails.is_empty() { s.observe(true); }
    if s.fails.is_empty() { s.finish(); }
    let obs = s.obs;
    let fails = std::mem::take(&mut s.fails);
    for x in s.w.iter_mut() { let w = x.0.take(); let _ = quiet(|| drop(w)); }
    comps::reg_reset();
    Outcome { fails, at, obs }
}
fn history(prop: &str, case: &str) -> History {
    let (k, n) = case.split_once(':').unwrap();
    let n: u64 = n.parse().unwrap();
    if k == "exh" { exh(prop, n) } else { gen(prop, n) }
}
fn run_case(prop: &str, case: &str, keep: Option<&[usize]>) -> Outcome {
    if let Some(n) = case.strip_prefix("spec:") {
        let f = special::LIST.iter().find(|s| s.0 == n).unwrap().2;
        let mut fails = vec![];
        if let Err(e) = quiet(|| f(&mut fails)) { fails.push(Fail { props: "ALL", msg: format!("driver {n} panicked: {e}") }); }
        comps::reg_reset();
        return Outcome { fails, at: 0, obs: 1 };
    }
    run_history(&history(prop, case), keep)
}
fn mine(o: &Outcome, prop: &str) -> Vec<String> { o.fails.iter().filter(|f| has(f.props, prop)).map(|f| f.msg.clone()).collect() }

fn shrink(prop: &str, case: &str) -> (Vec<usize>, Vec<String>) {
    let h = history(prop, case);
    let o = run_history(&h, None);
    let mut keep: Vec<usize> = (0..h.ops.len().min(o.at + 1)).collect();
    let mut msgs = mine(&o, prop);
    let t0 = Instant::now();
    if keep.len() < h.ops.len() { let o2 = run_history(&h, Some(&keep)); let m = mine(&o2, prop); if m.is_empty() { keep = (0..h.ops.len()).collect(); } else { msgs = m; } }
    let mut chunk = keep.len() / 2;
    while chunk > 0 && t0.elapsed() < Duration::from_secs(10) {
        let mut i = 0;
        while i < keep.len() && t0.elapsed() < Duration::from_secs(10) {
            let mut k = keep.clone(); k.drain(i..(i + chunk).min(k.len()));
            let m = mine(&run_history(&h, Some(&k)), prop);
            if !m.is_empty() { keep = k; msgs = m; } else { i += chunk; }
        }
        chunk /= 2;
    }
    (keep, msgs)
}
fn describe(prop: &str, case: &str, keep: Option<&[usize]>) -> String {
    if case.starts_with("spec:") { return format!("driver {case}\n"); }
    let h = history(prop, case);
    let mut s = format!("W1::with_capacity {:?}, version presets {:?}\n", h.caps, h.pre);
    for (i, op) in h.ops.iter().enumerate() { if keep.map(|k| k.contains(&i)).unwrap_or(true) { s += &format!("  {i}: {op:?}\n"); } }
    s
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let av: Vec<String> = std::env::args().collect();
    match av[1].as_str() {
        "work" => {
            let (prop, seed, secs, i, n, dir) = (av[2].as_str(), av[3].parse::<u64>().unwrap(), av[4].parse::<f64>().unwrap(), av[5].parse::<u64>().unwrap(), av[6].parse::<u64>().unwrap(), av[7].as_str());
            let cur = std::fs::File::create(format!("{dir}/w{i}.cur")).unwrap();
            use std::os::unix::fs::FileExt;
            let mark = |c: &str| { let _ = cur.write_all_at(format!("{c:<48}").as_bytes(), 0); };
            let t0 = Instant::now();
            let (mut hist, mut obs, mut other, mut nsp, mut nex) = (0u64, 0u64, 0u64, 0u64, 0u64);
            let mut other_msg = String::new();
            let fail = |case: &str, o: &Outcome| -> ! {
                let m = mine(o, prop);
                let (keep, m) = if case.starts_with("spec:") { (vec![], m) } else { let (k, s) = shrink(prop, case); (k, if s.is_empty() { m } else { s }) };
                let mut f = std::fs::File::create(format!("{dir}/w{i}.fail")).unwrap();
                let k: Vec<String> = keep.iter().map(|x| x.to_string()).collect();
                let _ = write!(f, "case {case}\nkeep {}\n", k.join(","));
                for x in m.iter().take(5) { let _ = writeln!(f, "FAILURE {x}"); }
                let _ = write!(f, "{}", describe(prop, case, if keep.is_empty() { None } else { Some(&keep) }));
                std::process::exit(1)
            };
            let mut go = |case: &str| { mark(case); let o = run_case(prop, case, None); obs += o.obs; if !mine(&o, prop).is_empty() { fail(case, &o); } if let Some(f) = o.fails.first() { other += 1; if other_msg.is_empty() { other_msg = format!("[{}] {case}: {}", f.props, f.msg); } } };
            for (j, s) in special::LIST.iter().filter(|s| has(s.1, prop) || prop == "ALL").enumerate() { if j as u64 % n == i { go(&format!("spec:{}", s.0)); nsp += 1; } }
            // half of the time for the exhaustive histories (in a seeded order), the rest for random ones
            let tot = exh_total();
            let mut j = i;
            let mult = 2_654_435_761u64; // coprime with tot (odd, not a multiple of 3)
            while j < tot && (t0.elapsed().as_secs_f64() < secs * 0.5) { go(&format!("exh:{}", (j.wrapping_mul(mult)) % tot)); nex += 1; j += n; }
            let ex_done = j >= tot;
            let mut c = 0u64;
            while c == 0 || t0.elapsed().as_secs_f64() < secs { go(&format!("rand:{}", mix(seed, c * n + i) >> 1)); hist += 1; c += 1; }
            drop(go);
            let _ = std::fs::write(format!("{dir}/w{i}.res"), format!("{hist} {nex} {nsp} {obs} {other} {}\n{other_msg}\n", ex_done as u8));
        }
        "run" => {
            let (prop, seed, secs, n, dir) = (&av[2], &av[3], &av[4], av[5].parse::<u64>().unwrap(), &av[6]);
            let limit: f64 = secs.parse::<f64>().unwrap() + 240.0;
            let _ = std::fs::create_dir_all(dir); for e in std::fs::read_dir(dir).unwrap() { let p = e.unwrap().path(); if p.file_name().unwrap().to_string_lossy().starts_with("w") { let _ = std::fs::remove_file(p); } }
            let me = std::env::current_exe().unwrap();
            let mut kids: Vec<_> = (0..n).map(|i| std::process::Command::new(&me).args(["work", prop, seed, secs, &i.to_string(), &n.to_string(), dir]).stderr(std::fs::File::create(format!("{dir}/w{i}.err")).unwrap()).spawn().unwrap()).collect();
            let t0 = Instant::now();
            let mut tot = [0u64; 5]; let mut done = true; let mut other = String::new();
            let mut failed = false;
            let mut status: Vec<Option<std::process::ExitStatus>> = vec![None; n as usize];
            while status.iter().any(|s| s.is_none()) {
                for i in 0..n as usize { if status[i].is_none() { if let Some(s) = kids[i].try_wait().unwrap() { status[i] = Some(s); if !s.success() { failed = true; } } else if failed && t0.elapsed().as_secs_f64() > 20.0 || t0.elapsed().as_secs_f64() > limit { let _ = kids[i].kill(); } } }
                std::thread::sleep(Duration::from_millis(20));
            }
            for i in 0..n as usize {
                let st = status[i].unwrap();
                if st.success() { let r = std::fs::read_to_string(format!("{dir}/w{i}.res")).unwrap(); let v: Vec<&str> = r.lines().next().unwrap().split(' ').collect(); for k in 0..5 { tot[k] += v[k].parse::<u64>().unwrap(); } done &= v[5] == "1"; if let Some(l) = r.lines().nth(1) { if !l.is_empty() && other.is_empty() { other = l.into(); } } }
            }
            println!("RESULT histories {} exhaustive {} drivers {} observations {} otherprop {} exhaustive_done {}", tot[0], tot[1], tot[2], tot[3], tot[4], done as u8);
            if !other.is_empty() { println!("OTHER {other}"); }
            for i in 0..n as usize {
                let st = status[i].unwrap();
                if st.success() { continue; }
                let f = format!("{dir}/w{i}.fail");
                if let Ok(t) = std::fs::read_to_string(&f) { print!("{t}"); std::process::exit(1); }
            }
            for i in 0..n as usize {
                let st = status[i].unwrap();
                if st.success() { continue; }
                use std::os::unix::process::ExitStatusExt;
                let case = std::fs::read_to_string(format!("{dir}/w{i}.cur")).unwrap_or_default().trim().to_string();
                let err: String = std::fs::read_to_string(format!("{dir}/w{i}.err")).unwrap_or_default().chars().take(3000).collect();
                if t0.elapsed().as_secs_f64() > limit { println!("case {case}\nkeep \nHANG worker {i} did not finish"); std::process::exit(3); }
                if failed && st.signal() == Some(9) { continue; }
                println!("case {case}\nkeep \nFAILURE the process was killed ({st}) while running this case\n{err}"); 
                if !case.is_empty() { print!("{}", describe(prop, &case, None)); }
                std::process::exit(1);
            }
        }
        "case" => {
            let keep: Vec<usize> = av.get(4).map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
            let k = if keep.is_empty() { None } else { Some(&keep[..]) };
            print!("{}", describe(&av[2], &av[3], k));
            let o = run_case(&av[2], &av[3], k);
            for f in &o.fails { println!("FAILURE [{}] {}", f.props, f.msg); }
            std::process::exit(if mine(&o, &av[2]).is_empty() { 0 } else { 1 });
        }
        _ => panic!("usage"),
    }
}
