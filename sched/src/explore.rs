//! Depth first exploration of all the schedules of scenarios, within a bound on
//! preemptions (and delays). Each execution is a forked process running the real code.
use crate::rt::{self, End, Shm, What};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::Write;

pub type Scenario = Box<dyn FnOnce()>;
/// Ok(number of non trivial things), or the violation
pub type Check = Box<dyn FnOnce(&End) -> Result<u64, (String, String)>>;
pub struct Family {
    pub name: &'static str,
    pub bounds: String,
    pub n: u64,
    /// executions of the implementation in one scenario
    pub per: u64,
    pub bound: u32,
    pub horizon: u64,
    pub describe: Box<dyn Fn(u64) -> Value>,
    pub make: Box<dyn Fn(u64) -> (Scenario, Check)>,
}
#[derive(Default)]
pub struct Stats {
    pub scenarios: u64, pub executions: u64, pub steps: u64, pub nontrivial: u64, pub capped: u64,
    pub states: HashSet<u64>, pub outcomes: HashSet<u64>, pub max_points: u32,
}
pub enum Outcome { Held, Violation { sig: String, msg: String, choices: Vec<u8> }, Internal(String) }

/// one execution following a prefix
fn execute(fam: &Family, idx: u64, shm: &mut Shm, prefix: &[u8]) {
    shm.prefix_len = prefix.len() as u32;
    shm.prefix[..prefix.len()].copy_from_slice(prefix);
    shm.points = 0; shm.steps = 0; shm.states = 0; shm.status = 0; shm.sig_len = 0; shm.msg_len = 0; shm.nontrivial = 0;
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::itimerval { it_interval: std::mem::zeroed(), it_value: libc::timeval { tv_sec: 15, tv_usec: 0 } };
            libc::setitimer(libc::ITIMER_PROF, &lim, std::ptr::null_mut());
            libc::alarm(100);
            std::panic::set_hook(Box::new(|i| {
                let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
                rt::log(What::Panic(format!("{m} at {}", i.location().map(|l| l.to_string()).unwrap_or_default())));
            }));
            let (s, c) = (fam.make)(idx);
            rt::run(shm, fam.horizon, s, c);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if shm.status == 0 {
            // killed
            shm.status = 2;
            let (sig, msg) = if libc::WIFSIGNALED(st) && [libc::SIGPROF, libc::SIGALRM].contains(&libc::WTERMSIG(st)) { ("hang", "the execution doesn't end".to_string()) } else { ("crash", format!("the process died (wait status {st:#x})")) };
            shm.sig[..sig.len()].copy_from_slice(sig.as_bytes());
            shm.sig_len = sig.len() as u32;
            shm.msg[..msg.len()].copy_from_slice(msg.as_bytes());
            shm.msg_len = msg.len() as u32;
        }
    }
}
fn verdict(shm: &Shm, choices: Vec<u8>) -> Option<Outcome> {
    let sig = String::from_utf8_lossy(&shm.sig[..shm.sig_len as usize]).into_owned();
    let msg = String::from_utf8_lossy(&shm.msg[..shm.msg_len as usize]).into_owned();
    match shm.status { 1 => None, 2 => Some(Outcome::Violation { sig, msg, choices }), _ => Some(Outcome::Internal(format!("{sig}: {msg}"))) }
}
pub fn replay(fam: &Family, idx: u64, shm: &mut Shm, choices: &[u8]) -> Outcome {
    execute(fam, idx, shm, choices);
    verdict(shm, choices.to_vec()).unwrap_or(Outcome::Held)
}
/// all schedules of a scenario
pub fn explore(fam: &Family, idx: u64, shm: &mut Shm, stats: &mut Stats, max_exec: u64) -> Outcome {
    let mut prefix: Vec<u8> = Vec::new();
    stats.scenarios += 1;
    let mut done = 0;
    loop {
        execute(fam, idx, shm, &prefix);
        done += 1;
        stats.executions += fam.per;
        stats.steps += shm.steps as u64;
        stats.nontrivial += shm.nontrivial as u64;
        stats.max_points = stats.max_points.max(shm.points);
        if stats.states.len() < 3_000_000 { stats.states.extend(&shm.state[..shm.states as usize]); }
        stats.outcomes.insert(shm.outcome);
        let n = shm.points as usize;
        let choices: Vec<u8> = shm.point[..n].iter().map(|p| p.chosen).collect();
        if let Some(o) = verdict(shm, choices.clone()) { return o; }
        // the last point with an alternative within the bound
        let mut cost: Vec<u32> = Vec::with_capacity(n);
        let mut c = 0;
        for p in &shm.point[..n] { cost.push(c); c += p.cost[p.chosen as usize] as u32; }
        let mut next = None;
        'find: for i in (0..n).rev() {
            let p = &shm.point[i];
            for k in p.chosen + 1..p.n {
                if cost[i] + p.cost[k as usize] as u32 <= fam.bound { next = Some((i, k)); break 'find; }
            }
        }
        let Some((i, k)) = next else { return Outcome::Held };
        if done >= max_exec { stats.capped += 1; return Outcome::Held; }
        prefix.clear();
        prefix.extend_from_slice(&choices[..i]);
        prefix.push(k);
    }
}

/// child process: explore a part of the scenarios of each family
pub fn worker(fams: &[Family], shard: u64, shards: u64, deadline: std::time::Instant) {
    let shm = Shm::map();
    // stdout is replaced in the forked processes only
    let mut out = std::io::stdout();
    for (f, fam) in fams.iter().enumerate() {
        let mut st = Stats::default();
        let mut violation = Value::Null;
        let mut i = 0;
        let mut timeout = false;
        while i < fam.n {
            if (i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) % shards != shard { i += 1; continue; }
            if std::time::Instant::now() > deadline { timeout = true; break; }
            match explore(fam, i, shm, &mut st, 2_000_000) {
                Outcome::Held => {}
                Outcome::Violation { sig, msg, choices } => { violation = json!({"idx": i, "sig": sig, "msg": msg, "choices": choices}); break; }
                Outcome::Internal(m) => { violation = json!({"idx": i, "internal": m}); break; }
            }
            i += 1;
        }
        let v = json!({"family": f, "scenarios": st.scenarios, "executions": st.executions, "steps": st.steps, "nontrivial": st.nontrivial,
            "capped": st.capped, "timeout": timeout, "states": st.states.len(), "outcomes": st.outcomes.len(), "max_points": st.max_points, "violation": violation});
        writeln!(out, "{v}").unwrap();
    }
}
