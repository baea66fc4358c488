mod delivery;
mod interpret;
mod lifecycle;
mod ticker;
use crate::explore::Family;
use crate::rt::{End, What};

pub type Verr = (String, String);
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($fmt:tt)*) => { if !($c) { return Err(($sig.to_string(), format!($($fmt)*))); } };
}

pub fn families(property: &str, quick: bool) -> Option<Vec<Family>> {
    Some(match property {
        "C19" => delivery::families(quick),
        "C20" => interpret::families(quick),
        "C21" => ticker::families(quick),
        "C22" => lifecycle::families(quick),
        _ => return None,
    })
}
/// what's never acceptable
pub fn sane(end: &End) -> Result<(), Verr> {
    for e in end.log { if let What::Panic(m) = &e.what { ensure!(false, "panic", "T{} panicked: {m}", e.tid); } }
    ensure!(!end.livelock, "livelock", "the threads go on forever");
    ensure!(end.done[0], "deadlock", "the application is blocked forever");
    Ok(())
}
/// all the sequences of at most max elements among a
#[derive(Clone, Copy)]
pub struct Seqs { pub a: u64, pub min: u32, pub max: u32 }
impl Seqs {
    pub fn len(&self) -> u64 { (self.min..=self.max).map(|l| self.a.pow(l)).sum() }
    pub fn get(&self, mut i: u64) -> Vec<usize> {
        for l in self.min..=self.max {
            let n = self.a.pow(l);
            if i < n { return (0..l).map(|_| { let r = i % self.a; i /= self.a; r as usize }).collect(); }
            i -= n;
        }
        panic!("index")
    }
}
