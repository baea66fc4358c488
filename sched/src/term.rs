//! The model of the terminal which replaces the one of crossterm.
use crate::rt::{self, What};
use crossterm::event::Event;
use std::io;
use std::time::Duration;
use termimad::crossterm;

#[derive(Clone, Debug)]
pub struct Input { pub at: u64, pub event: Option<Event> }
#[derive(Clone, Debug, Default)]
pub struct Script {
    pub inputs: Vec<Input>,
    pub enable_fails: bool,
    pub disable_fails: bool,
    /// Some(whether the keyboard enhancement is supported), None for an error
    pub supports: Option<bool>,
    /// stdout can't be written
    pub stdout_fails: bool,
}
struct State { script: Script, next: usize, raw: bool }
static mut STATE: Option<State> = None;
fn state() -> &'static mut State { unsafe { (*std::ptr::addr_of_mut!(STATE)).as_mut().unwrap() } }

/// start following a script. Can be called several times (in the running thread only)
pub fn set(script: Script) {
    unsafe {
        let fd = if script.stdout_fails { libc::open(c"/dev/full".as_ptr(), libc::O_WRONLY) } else { libc::memfd_create(c"stdout".as_ptr(), 0) };
        libc::dup2(fd, 1);
        libc::close(fd);
        STATE = Some(State { script, next: 0, raw: false });
    }
    crossterm::mc::set(Box::new(Model));
}
/// what was written on stdout
pub fn stdout() -> Vec<u8> {
    let mut v = vec![0; 1 << 16];
    let n = unsafe { libc::pread(1, v.as_mut_ptr() as *mut _, v.len(), 0) };
    v.truncate(n.max(0) as usize);
    v
}
/// number of pushed keyboard flags, if they're coherently pushed and popped
pub fn flags() -> Result<i32, String> {
    let s = String::from_utf8_lossy(&stdout()).into_owned();
    let mut n = 0;
    let mut rest = s.as_str();
    while !rest.is_empty() {
        let Some(i) = rest.find('u') else { return Err(format!("unexpected output {s:?}")) };
        let seq = &rest[..i];
        if seq.starts_with("\u{1b}[>") { n += 1 } else if seq.starts_with("\u{1b}[<") { n -= 1; if n < 0 { return Err(format!("too many pops: {s:?}")) } } else { return Err(format!("unexpected output {s:?}")) }
        rest = &rest[i + 1..];
    }
    Ok(n)
}
pub fn raw() -> bool { state().raw }
/// number of inputs already read
pub fn consumed() -> usize { state().next }

struct Model;
impl crossterm::mc::Terminal for Model {
    fn read(&self) -> io::Result<Event> {
        rt::point();
        rt::log(What::ReadCall);
        let st = state();
        let k = st.next;
        let Some(input) = st.script.inputs.get(k).cloned() else {
            rt::wait(None, Box::new(move || state().next != k || state().script.inputs.len() > k)); // forever
            return self.read();
        };
        if input.at > rt::now() { rt::wait(Some(input.at), Box::new(|| false)); }
        let st = state();
        st.next = k + 1;
        rt::log(if input.event.is_some() { What::Read(k) } else { What::ReadErr(k) });
        input.event.ok_or_else(|| io::Error::other("read failure"))
    }
    fn poll(&self, timeout: Duration) -> io::Result<bool> {
        rt::point();
        let limit = rt::now().saturating_add(timeout.as_nanos().min(u64::MAX as u128) as u64);
        let ready = || state().script.inputs.get(state().next).is_some_and(|i| i.at <= rt::now());
        let until = state().script.inputs.get(state().next).map_or(limit, |i| i.at.min(limit));
        if !ready() && until > rt::now() { rt::wait(Some(until), Box::new(|| false)); }
        Ok(ready())
    }
    fn enable_raw_mode(&self) -> io::Result<()> {
        rt::point();
        if state().script.enable_fails { rt::log(What::RawErr); return Err(io::Error::other("no terminal")); }
        state().raw = true;
        rt::log(What::Raw(true));
        Ok(())
    }
    fn disable_raw_mode(&self) -> io::Result<()> {
        rt::point();
        if state().script.disable_fails { rt::log(What::RawErr); return Err(io::Error::other("no terminal")); }
        state().raw = false;
        rt::log(What::Raw(false));
        Ok(())
    }
    fn is_raw_mode_enabled(&self) -> bool { state().raw }
    fn supports_keyboard_enhancement(&self) -> io::Result<bool> {
        rt::point();
        state().script.supports.ok_or_else(|| io::Error::other("no answer"))
    }
    fn size(&self) -> io::Result<(u16, u16)> { Ok((80, 24)) }
}
