#![allow(dead_code)]
mod check;
mod crypto;
mod exec;
mod gen;
mod min;
mod model;
mod plan;
mod prim;
mod wire;
mod world;

use plan::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn build_name() -> String {
    format!("{}+{}", if cfg!(feature = "hashed") { "hashed" } else { "plain" }, if cfg!(feature = "mutauth") { "mutauth" } else { "nomut" })
}

/// The whole history, condensed: equal for equal executions.
pub fn trace(w: &world::World) -> u64 {
    let mut m = prim::Mix::new(0x7ace);
    for e in &w.ev {
        m.part(format!("{:?}", e).as_bytes());
    }
    m.u64()
}

#[derive(Default)]
struct Tally {
    runs: u64,
    dry: u64,
    ops: u64,
    packets: u64,
    sim_us: u128,
    replayed: u64,
    diverged: u64,
    fired: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    covered: BTreeMap<&'static str, u64>,
    profiles: BTreeMap<String, u64>,
    configs: HashSet<u64>,
    states: HashSet<u64>,
    growth: Vec<(u64, usize)>,
    faulted: u64,
    evals: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<String>,
}
struct Found {
    prop: &'static str,
    what: String,
    detail: String,
    seed: u64,
    plan: Plan,
    count: u64,
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn big<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap()
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<String> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1).cloned())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}

fn main() {
    crypto::register();
    exec::hook();
    let a = Args(std::env::args().skip(1).collect());
    let code = match a.0.first().map(|s| s.as_str()) {
        Some("replay") => big(move || replay(&a)).join().unwrap(),
        Some("search") => search(a),
        Some("show") => big(move || {
            let s = a.num("--run", 0);
            let p = gen::plan(s, &a.get("--prop").unwrap_or_else(|| "all".into()), &None);
            println!("{}", p.to_text());
            history(&p);
            0
        })
        .join()
        .unwrap(),
        _ => {
            eprintln!("usage: spdmsim search --prop P --seed N --seconds S --out FILE --replays DIR [--known FILE] | replay FILE [--verbose]");
            2
        }
    };
    std::process::exit(code);
}

fn history(p: &Plan) {
    use world::Ev;
    let o = exec::run(p);
    for e in &o.world.ev {
        match e {
            Ev::OpStart { i, .. } => println!("OP {} {:?} {:?}", i, p.ops[*i].k, p.ops[*i].p),
            Ev::OpEnd { ok, err, val, out, .. } => println!("   => ok={} {} {:x} {}", ok, err, val, prim::hex(&out[..out.len().min(40)])),
            Ev::Tx { node, sid, app, bytes, pkt } => println!("   tx #{} from {} {:x?} app={} {} {}", pkt, node, sid, app, bytes.len(), wire::show(bytes)),
            Ev::Rx { node, sid, app, bytes, .. } => println!("   rx by {} {:x?} app={} {} {}", node, sid, app, bytes.len(), wire::show(bytes)),
            Ev::StepEnd { ret } => println!("   responder step {}", ret),
            Ev::FaultFired { k, node } => println!("   FAULT {:?} at {}", k, node),
            Ev::SendFail { node } => println!("   send reported failed at {}", node),
            Ev::Crash { node } => println!("   crash {}", node),
            Ev::Sign { node, data, .. } => println!("   sign by {} {}", node, prim::hex(data)),
            Ev::Verify { node, data, ok, .. } => println!("   verify by {} {} {}", node, ok, prim::hex(data)),
            Ev::Hash { node, out, data } => println!("   hash by {} {} of {} {}", node, prim::hex(&out[..8]), data.len(), prim::hex(&data[..data.len().min(4000)])),
            Ev::Note { s } => println!("   note {}", s),
            Ev::Snap { node, s } => println!("   snap {} conn {} {:x?}", node, s.conn, s.sess.iter().filter(|x| x.sid != 0).map(|x| (x.sid, x.state, x.req.2, x.rsp.2)).collect::<Vec<_>>()),
            _ => {}
        }
    }
    for v in check::judge(p, &o.world).viol {
        println!("{} | {} | {}", v.prop, v.what, v.detail);
    }
}

fn replay(a: &Args) -> i32 {
    let f = match a.0.get(1) {
        Some(f) => f.clone(),
        None => return 2,
    };
    let text = match std::fs::read_to_string(&f) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", f, e);
            return 2;
        }
    };
    let p = match Plan::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}: {}", f, e);
            return 2;
        }
    };
    let head = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string()).unwrap_or_default();
    if a.0.iter().any(|x| x == "--verbose") {
        history(&p);
    }
    let o = exec::run(&p);
    let j = check::judge(&p, &o.world);
    println!("trace {:016x}", trace(&o.world));
    let (prop, what, tr) = (head("property "), head("what "), head("trace "));
    if !tr.is_empty() {
        println!("recorded {}: {}", tr, if tr == format!("{:016x}", trace(&o.world)) { "identical execution" } else { "the execution differs (other code)" });
    }
    let mut hit = false;
    for v in &j.viol {
        println!("{} | {} | {}", v.prop, v.what, v.detail);
        hit |= prop.is_empty() || (v.prop == prop && v.what == what);
    }
    if hit {
        println!("VIOLATION property={} replay={}", if prop.is_empty() { "?" } else { &prop }, f);
        1
    } else {
        println!("not reproduced");
        0
    }
}

fn known(path: Option<String>) -> Vec<(String, String)> {
    // lines "known: property=<id> <what fails>"; what fails is the violation's description,
    // exactly
    let mut v = vec![];
    if let Some(t) = path.and_then(|p| std::fs::read_to_string(p).ok()) {
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("known: property=") {
                if let Some((id, w)) = x.split_once(' ') {
                    v.push((id.to_string(), w.trim().to_string()));
                }
            }
        }
    }
    v
}

fn search(a: Args) -> i32 {
    let prop = a.get("--prop").unwrap_or_else(|| "all".into());
    let seed = a.num("--seed", 1);
    let secs = a.num("--seconds", 20);
    let threads = a.num("--threads", 8);
    let max = a.num("--runs", u64::MAX);
    let known = Arc::new(known(a.get("--known")));
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Vec<Found>>> = Arc::new(Mutex::new(vec![]));
    let tally = Arc::new(Mutex::new(Tally::default()));
    let t0 = Instant::now();
    let end = t0 + Duration::from_secs(secs);
    let mut hs = vec![];
    for _ in 0..threads {
        let (next, stop, found, tally, prop) = (next.clone(), stop.clone(), found.clone(), tally.clone(), prop.clone());
        let all = a.0.iter().any(|x| x == "--all");
        let only = a.get("--profile");
        let profs: Option<Vec<String>> = a.get("--profiles").map(|x| x.split(',').map(|y| y.to_string()).collect());
        hs.push(big(move || {
            let mut t = Tally::default();
            while !stop.load(Ordering::Relaxed) && Instant::now() < end {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= max {
                    break;
                }
                let s = prim::mix64(0x5eed, &[&seed.to_le_bytes(), &i.to_le_bytes()]);
                let p = match &only {
                    None => gen::plan(s, &prop, &profs),
                    Some(o) => {
                        let mut r = prim::Rng::new(s);
                        let prof = gen::PROFILES.iter().find(|x| *x == o).copied().unwrap_or("honest");
                        gen::plan_for(&mut r, prof, &prop)
                    }
                };
                let o = exec::run(&p);
                let j = check::judge(&p, &o.world);
                one(&mut t, &prop, &p, &o, &j);
                if i % 97 == 0 {
                    t.replayed += 1;
                    let q = Plan::parse(&p.to_text()).unwrap();
                    if trace(&exec::run(&q).world) != trace(&o.world) {
                        t.diverged += 1;
                        eprintln!("run {:x} does not repeat itself", s);
                    }
                }
                if !j.viol.is_empty() {
                    let mut f = found.lock().unwrap();
                    for v in j.viol {
                        if !all && v.prop != prop {
                            continue;
                        }
                        match f.iter_mut().find(|x| x.prop == v.prop && x.what == v.what) {
                            Some(x) => {
                                x.count += 1;
                                // the simplest example is kept
                                if (p.faults.len() + p.ops.len()) < (x.plan.faults.len() + x.plan.ops.len()) {
                                    x.plan = p.clone();
                                    x.seed = s;
                                    x.detail = v.detail;
                                }
                            }
                            None => f.push(Found { prop: v.prop, what: v.what, detail: v.detail, seed: s, plan: p.clone(), count: 1 }),
                        }
                    }
                }
                if i % 512 == 0 {
                    let n = t.states.len();
                    t.growth.push((i, n));
                }
            }
            merge(&mut tally.lock().unwrap(), t);
        }));
    }
    let mut broken = false;
    for h in hs {
        broken |= h.join().is_err();
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut f = std::mem::take(&mut *found.lock().unwrap());
    f.sort_by(|x, y| (x.prop, &x.what).cmp(&(y.prop, &y.what)));
    let dir = a.get("--replays").unwrap_or_else(|| "/tmp".into());
    let _ = std::fs::create_dir_all(&dir);
    let mut rows = vec![];
    let mut bad = 0;
    for (n, x) in f.iter().enumerate() {
        let is_known = known.iter().any(|(p, w)| p == x.prop && *w == x.what);
        let mut path = String::new();
        if !is_known {
            bad += 1;
            let (p, pr, wh) = (x.plan.clone(), x.prop, x.what.clone());
            let budget = if n < 12 { 600 } else { 0 };
            let (m, tr, det) = big(move || {
                let m = min::minimise(&p, pr, &wh, budget);
                let o = exec::run(&m);
                let t = trace(&o.world);
                let d = check::judge(&m, &o.world).viol.iter().find(|v| v.prop == pr && v.what == wh).map(|v| v.detail.clone()).unwrap_or_default();
                (m, t, d)
            })
            .join()
            .unwrap();
            path = format!("{}/{}-{}-{:08x}.plan", dir, x.prop, build_name(), prim::mix64(1, &[x.what.as_bytes()]) as u32);
            let text = format!(
                "# replay: spdmsim built with {}\nbuild {}\nproperty {}\nwhat {}\n# {}\n# first seen with seed {:x} (search seed {}), {} runs in this search\nrunseed {}\ntrace {:016x}\n{}",
                build_name(), build_name(), x.prop, x.what, det, x.seed, seed, x.count, x.seed, tr, m.to_text()
            );
            let _ = std::fs::write(&path, text);
            println!("{} | {} | {} | {} runs | {}", x.prop, x.what, det, x.count, path);
        } else {
            println!("known {} | {} | {} runs", x.prop, x.what, x.count);
        }
        rows.push(format!(
            "{{\"property\":{},\"what\":{},\"detail\":{},\"seed\":{},\"runs\":{},\"known\":{},\"replay\":{}}}",
            json(x.prop), json(&x.what), json(&x.detail), x.seed, x.count, is_known, json(&path)
        ));
    }
    let t = tally.lock().unwrap();
    let map = |m: &BTreeMap<&'static str, u64>| m.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect::<Vec<_>>().join(",");
    let out = format!(
        "{{\"build\":{},\"property\":{},\"seed\":{},\"wall_s\":{:.3},\"runs\":{},\"operations\":{},\"packets\":{},\"simulated_s\":{:.3},\"runs_with_faults\":{},\"replayed_for_determinism\":{},\"diverged\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"states\":{},\"configurations\":{},\"fired\":{{{}}},\"probes\":{{{}}},\"judged\":{{{}}},\"profiles\":{{{}}},\"crashed\":{},\"samples\":[{}],\"found\":[{}]}}",
        json(&build_name()), json(&prop), seed, wall, t.runs, t.ops, t.packets, t.sim_us as f64 / 1e6, t.faulted, t.replayed, t.diverged, t.evals, t.nontrivial.len(), t.states.len(), t.configs.len(),
        map(&t.fired), map(&t.probes), map(&t.covered),
        t.profiles.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect::<Vec<_>>().join(","),
        broken, t.samples.iter().take(4).map(|x| json(x)).collect::<Vec<_>>().join(","), rows.join(",")
    );
    if let Some(o) = a.get("--out") {
        let _ = std::fs::write(o, &out);
    }
    println!("{} {} runs {} ({:.0}/s) operations {} states {} judged {} violations {} known {} diverged {}", build_name(), prop, t.runs, t.runs as f64 / wall, t.ops, t.states.len(), t.evals, bad, f.len() - bad, t.diverged);
    if a.0.iter().any(|x| x == "--stats") {
        println!("fired {:?}\nprobes {:?}\ncovered {:?}\nprofiles {:?}", t.fired, t.probes, t.covered, t.profiles);
    }
    if broken {
        return 2;
    }
    (bad > 0) as i32
}

fn one(t: &mut Tally, prop: &str, p: &Plan, o: &exec::Outcome, j: &check::Judged) {
    t.runs += 1;
    t.ops += p.ops.len() as u64;
    t.packets += o.world.packets.len() as u64;
    t.sim_us += o.world.now.min(1 << 50) as u128;
    for (k, v) in &o.world.fired {
        *t.fired.entry(k).or_insert(0) += v;
    }
    for (k, v) in o.world.probes.iter().chain(j.probes.iter()) {
        *t.probes.entry(k).or_insert(0) += v;
    }
    let mut mine = 0;
    for (k, v) in &j.covered {
        *t.covered.entry(k).or_insert(0) += v;
        if check::about(prop, k) {
            mine += v;
        }
    }
    t.evals += mine;
    if mine > 0 && t.samples.len() < 2 && (t.samples.is_empty() || !p.faults.is_empty()) {
        t.samples.push(format!("{}: {} / {}", p.profile, p.ops.iter().map(|o| format!("{:?}{:?}", o.k, o.p)).collect::<Vec<_>>().join(" "), p.faults.iter().map(|f| format!("{:?}@{}{:?}", f.k, f.at, f.p)).collect::<Vec<_>>().join(" ")));
    }
    *t.profiles.entry(p.profile.clone()).or_insert(0) += 1;
    t.configs.insert(prim::mix64(3, &[{
        let mut c = p.cfg.clone();
        c.seed = 0;
        c.to_text()
    }
    .as_bytes()]));
    let mut all: Vec<u64> = j.states.iter().copied().collect();
    all.sort_unstable();
    let mut h = prim::Mix::new(4);
    for s in &all {
        h.num(*s);
    }
    if mine > 0 {
        t.nontrivial.insert(h.u64());
    }
    t.states.extend(j.states.iter());
    t.faulted += (!o.world.fired.is_empty()) as u64;
}

fn merge(a: &mut Tally, b: Tally) {
    a.runs += b.runs;
    a.ops += b.ops;
    a.packets += b.packets;
    a.sim_us += b.sim_us;
    a.replayed += b.replayed;
    a.diverged += b.diverged;
    a.faulted += b.faulted;
    a.evals += b.evals;
    for (k, v) in b.fired {
        *a.fired.entry(k).or_insert(0) += v;
    }
    for (k, v) in b.probes {
        *a.probes.entry(k).or_insert(0) += v;
    }
    for (k, v) in b.covered {
        *a.covered.entry(k).or_insert(0) += v;
    }
    for (k, v) in b.profiles {
        *a.profiles.entry(k).or_insert(0) += v;
    }
    a.configs.extend(b.configs);
    a.states.extend(b.states);
    a.nontrivial.extend(b.nontrivial);
    a.growth.extend(b.growth);
    a.samples.extend(b.samples);
}
