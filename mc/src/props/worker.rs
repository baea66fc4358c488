//! What reads stdin or writes on stdout is run in child processes, whose standard
//! streams are memory files and whose terminal is a pseudo terminal: asking (C23),
//! printing functions (C28)
use crate::docs::*;
use crate::emu::*;
use crate::engine::*;
use crate::ensure;
use crate::props::misc::{check_inline, expected_inline, TEMPLATES, VALUES};
use minimad::{Composite, OwningTemplateExpander, TextTemplate};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use termimad::crossterm::style::Attribute;
use termimad::*;

pub fn run(ctx: &Ctx) { sharded(ctx, "ask", asks(ctx.quick()).bounds(ctx.quick())); }
pub fn stdout_family(ctx: &Ctx) { sharded(ctx, "print", prints_bounds(ctx.quick())); }

// ---------------------------------------------------------------- processes

/// the functions writing on stdout, when it takes everything and when it's full
pub fn full_stdout_family(ctx: &Ctx) { sharded(ctx, "full", format!("functions writing on stdout (write_text, write_inline, write_in_area, write and display of views) with {} skins and all texts of <= 3 parts among {TXT:?}, on a file and on /dev/full", skins().len())); }

const SHARDS: u64 = 64;
fn sharded(ctx: &Ctx, kind: &'static str, bounds: String) {
    ctx.family(&Fam {
        name: kind.into(),
        bounds: format!("{bounds} (in {SHARDS} child processes)"),
        n: SHARDS,
        d: |i| json!({"cases": kind, "shard": i}),
        c: |i: u64, l: &mut Local| {
            let mut child = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["worker", kind, if l.ctx.quick() { "quick" } else { "thorough" }, &i.to_string()])
                .stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null())
                .spawn().expect("child process");
            let mut last = String::new();
            let mut viol_msg: Option<Value> = None;
            let mut ended = false;
            for line in BufReader::new(child.stdout.take().unwrap()).lines().map_while(|l| l.ok()) {
                match line.split_at(2.min(line.len())) {
                    ("B ", k) => last = k.to_string(),
                    ("R ", h) => { l.trace(h.parse().unwrap_or(0)); l.nontrivial(); }
                    ("V ", v) => { viol_msg.get_or_insert(serde_json::from_str(v).unwrap_or(Value::Null)); }
                    ("E", _) => ended = true,
                    _ => {}
                }
            }
            let st = child.wait().expect("wait");
            if let Some(v) = viol_msg { return viol(v["sig"].as_str().unwrap_or("?"), v["msg"].as_str().unwrap_or("?")); }
            ensure!(ended && st.success(), "died", "the process died ({st}; signal 14 means no answer, 25 an endless output) on case {last}: {}", describe(kind, l.ctx.quick(), last.parse().unwrap_or(0)));
            Ok(())
        },
    });
}
fn describe(kind: &str, quick: bool, i: u64) -> String {
    match kind { "ask" => asks(quick).describe(i), "full" => full_case(i).2, _ => print_case(quick, i).1 }
}
fn set_size(fd: i32, w: u16, h: u16) {
    let ws = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 };
    assert_eq!(unsafe { libc::ioctl(fd, libc::TIOCSWINSZ, &ws) }, 0, "window size");
}
/// entry point of the child processes
pub fn child(args: &[String]) {
    let (kind, quick, shard) = (args[0].as_str(), args[1] == "quick", args[2].parse::<u64>().unwrap());
    let mut proto = unsafe { std::fs::File::from_raw_fd(libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 10)) };
    let slave = unsafe {
        let (mut m, mut s) = (0, 0);
        assert!(libc::setsid() >= 0, "setsid");
        assert_eq!(libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()), 0, "openpty");
        assert_eq!(libc::ioctl(s, libc::TIOCSCTTY as _, 0), 0, "controlling terminal");
        let lim = libc::rlimit { rlim_cur: 32 << 20, rlim_max: 32 << 20 };
        libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
        s
    };
    set_size(slave, 50, 20);
    let n = match kind { "ask" => asks(quick).len(), "full" => texts().len() * skins().len() as u64, _ => prints_len(quick) };
    for i in (0..n).filter(|i| i % SHARDS == shard) {
        let _ = proto.write_all(format!("B {i}\n").as_bytes());
        unsafe { libc::alarm(10); }
        let r = match kind { "ask" => asks(quick).check(i), "full" => check_full(i), _ => check_print(quick, i, slave) };
        unsafe { libc::alarm(0); }
        let line = match r { Ok(h) => format!("R {h}\n"), Err(v) => format!("V {}\n", json!({"sig": v.sig, "msg": format!("case {i}, {}: {}", describe(kind, quick, i), v.msg)})) };
        let _ = proto.write_all(line.as_bytes());
    }
    let _ = proto.write_all(b"E\n");
}
fn memfd(content: &[u8]) -> std::fs::File {
    let fd = unsafe { libc::memfd_create(c"mc".as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd");
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    f.write_all(content).unwrap();
    f.seek(SeekFrom::Start(0)).unwrap();
    f
}
/// run with that on stdin; return what was written on stdout
fn with_io<T>(input: &[u8], f: impl FnOnce() -> T) -> Result<(T, String), Viol> {
    let (i, mut o) = (memfd(input), memfd(b""));
    unsafe { libc::dup2(i.as_raw_fd(), 0); libc::dup2(o.as_raw_fd(), 1); }
    let r = guard(f);
    let _ = std::io::stdout().flush();
    // whatever remains is for nobody
    let mut s = String::new();
    while matches!(std::io::stdin().read_line(&mut s), Ok(n) if n > 0) {}
    let mut out = Vec::new();
    o.seek(SeekFrom::Start(0)).unwrap();
    o.read_to_end(&mut out).unwrap();
    Ok((r?, String::from_utf8_lossy(&out).into_owned()))
}

// ---------------------------------------------------------------- C23

const TYPED: &[&str] = &["y", "n", "", "bad", "Y", "yes", " ", "y ", " y", "2", "é"];
/// (answer keys, default)
const QUESTIONS: &[(&[&str], Option<&str>)] = &[
    (&["y", "n"], None), (&["y", "n"], Some("n")), (&["y", "n"], Some("exotic")), (&["n", "yes", "y"], Some("y")), (&["Y", "2", "é"], None), (&["Y", "2", "é"], Some("2")),
    (&[], Some("any")), (&[], None), (&["y"], Some("")),
];
struct Asks { seqs: Seqs }
fn asks(quick: bool) -> Asks { Asks { seqs: Seqs { a: TYPED.len() as u64, min: 0, max: if quick { 4 } else { 5 } } } }
impl Asks {
    fn bounds(&self, _q: bool) -> String { format!("{} questions, all inputs of <= {} lines among {TYPED:?}, the last one ended or not, asked again until the input is closed; also with the ask! macro", QUESTIONS.len(), self.seqs.max) }
    fn len(&self) -> u64 { self.seqs.len() * 2 * (QUESTIONS.len() as u64 + 3) }
    fn split(&self, i: u64) -> (usize, String) {
        let nq = QUESTIONS.len() as u64 + 3;
        let mut s = self.seqs.get(i / nq / 2).into_iter().map(|k| format!("{}\n", TYPED[k])).collect::<String>();
        if i / nq % 2 == 1 { s.pop(); }
        ((i % nq) as usize, s)
    }
    fn describe(&self, i: u64) -> String { let (q, s) = self.split(i); format!("question {:?}, input {s:?}", QUESTIONS.get(q)) }
    fn check(&self, i: u64) -> Result<u64, Viol> {
        let (q, script) = self.split(i);
        // the lines the question can read
        let mut lines: Vec<(String, bool)> = Vec::new(); // trimmed, ended
        let mut rest = script.as_str();
        while !rest.is_empty() {
            let (l, end) = match rest.find('\n') { Some(p) => { let r = (&rest[..p], true); rest = &rest[p + 1..]; r } None => { let r = (rest, false); rest = ""; r } };
            lines.push((l.trim_end().to_string(), end));
        }
        let mut pos = 0;
        // one question on the remaining input
        let mut expect = |keys: &[&str], default: Option<&str>| -> (Result<String, ()>, Vec<String>) {
            let mut refused = Vec::new();
            loop {
                let (l, eof) = match lines.get(pos) { Some(l) => (l.0.clone(), false), None => (String::new(), true) };
                pos += 1;
                if l.is_empty() { if let Some(d) = default { return (Ok(d.to_string()), refused); } }
                if keys.contains(&l.as_str()) { return (Ok(l), refused); }
                if eof { return (Err(()), refused); }
                refused.push(l);
            }
        };
        let Some((keys, default)) = QUESTIONS.get(q) else { return check_macro(q - QUESTIONS.len(), &script, &mut expect); };
        let skin = MadSkin::default();
        let mut question = Question::new("**Really** ?");
        for (k, key) in keys.iter().enumerate() { if *key == "2" { question.add_answer(2, format!("answer *{k}*")); } else { question.add_answer(key, format!("answer *{k}*")); } }
        if let Some(d) = default { question.set_default(d); }
        ensure!(question.has_exotic_default() == default.map_or(false, |d| !keys.contains(&d)), "exotic", "has_exotic_default is {}", question.has_exotic_default());
        let rounds = lines.len() + 2;
        let (got, out) = with_io(script.as_bytes(), || (0..rounds).map(|_| question.ask(&skin)).collect::<Vec<_>>())?;
        let mut want_rows: Vec<(String, Option<bool>)> = Vec::new();
        for (r, g) in got.iter().enumerate() {
            let (w, refused) = expect(keys, *default);
            match (g, &w) {
                (Ok(a), Ok(b)) => ensure!(a == b, "answer", "question {r} is answered {a:?} instead of {b:?}"),
                (Err(e), Err(())) => ensure!(e.kind() == std::io::ErrorKind::UnexpectedEof, "eof", "question {r}: {e:?}"),
                _ => return viol("answer", format!("question {r} gives {g:?} instead of {w:?}")),
            }
            want_rows.push(("Really ?".into(), None));
            for (k, key) in keys.iter().enumerate() { want_rows.push((format!("[{key}] answer {k}"), Some(*default == Some(*key)))); }
            for x in refused { want_rows.push((format!("answer {x:?} not understood"), None)); }
        }
        let rows = rows(&out).or_else(|e| viol("stream", e))?;
        ensure!(rows.iter().map(|r| r.text()).eq(want_rows.iter().map(|w| w.0.clone())), "shown", "{:?} is displayed instead of {want_rows:?}", rows.iter().map(|r| r.text()).collect::<Vec<_>>());
        let bold = attr(Attribute::Bold);
        for (r, w) in rows.iter().zip(&want_rows) {
            if let Some(d) = w.1 { let n = w.0.chars().position(|c| c == ']').unwrap(); ensure!(r.g[1..n].iter().all(|g| (g.st.attrs & bold != 0) == d), "shown-default", "in {:?}, the key is {:?} while the default is {default:?}", r.text(), r.g[1].st); }
        }
        Ok(h64(&(format!("{got:?}"), out)))
    }
}
fn attr(a: Attribute) -> u64 { let mut cs = CompoundStyle::default(); cs.add_attr(a); sty_of(&cs).attrs }
#[allow(clippy::type_complexity)]
fn check_macro(which: usize, script: &str, expect: &mut dyn FnMut(&[&str], Option<&str>) -> (Result<String, ()>, Vec<String>)) -> Result<u64, Viol> {
    let skin = MadSkin::default();
    let (keys, default): (&[&str], Option<&str>) = match which { 0 => (&["y", "n"], None), 1 => (&["y", "n", "2"], Some("n")), _ => (&["yes", "2"], Some("2")) };
    let (w, _) = expect(keys, default);
    let Ok(w) = w else { return Ok(0) }; // the macro unwraps
    let mut calls = 0;
    let (got, _) = with_io(script.as_bytes(), || match which {
        0 => ask!(&skin, "Sure ?", { ('y', "**Y**es") => { calls += 1; "y" } ('n', "**N**o") => { calls += 1; "n" } }),
        1 => ask!(&skin, "Sure ?", ('n') { ('y', "**Y**es") => { calls += 1; "y" } ('n', "**N**o") => { calls += 1; "n" } (2, "two") => { calls += 1; "2" } }),
        _ => ask!(&skin, "Sure ?", (2) { ("yes", "**Y**es") => { calls += 1; "yes" } (2, "two") => { calls += 1; "2" } }),
    })?;
    ensure!(got == w && calls == 1, "macro", "ask! gives {got:?} instead of {w:?} ({calls} blocks executed)");
    Ok(h64(&(which, got)))
}

// ---------------------------------------------------------------- C28, on stdout

const SIZES: [(u16, u16); 3] = [(50, 20), (9, 7), (120, 3)];
const TXT: &[&str] = &["a **b** `c`", "* item of a list which is rather long", "# h", "|a|b|\n|-\n|c *d*|e|", "> q\n---", "    code\nx"];
fn inline_values(quick: bool) -> Seqs { Seqs { a: VALUES.len() as u64, min: 0, max: if quick { 2 } else { 3 } } }
fn texts() -> Seqs { Seqs { a: TXT.len() as u64, min: 0, max: 3 } }
fn prints_bounds(quick: bool) -> String {
    format!("print functions on stdout: mad_print_inline! with {} templates and <= {} values, {} skins; all texts of <= 3 parts among {TXT:?}, terminals {SIZES:?}", TEMPLATES.len(), inline_values(quick).max, skins().len())
}
fn prints_len(quick: bool) -> u64 { TEMPLATES.len() as u64 * inline_values(quick).len() + texts().len() * 3 }
fn print_case(quick: bool, i: u64) -> (Result<(usize, Vec<&'static str>), (String, usize)>, String) {
    let nt = TEMPLATES.len() as u64 * inline_values(quick).len();
    if i < nt {
        let (t, v) = ((i % TEMPLATES.len() as u64) as usize, inline_values(quick).get(i / TEMPLATES.len() as u64).into_iter().map(|k| VALUES[k]).collect::<Vec<_>>());
        let d = format!("template {:?} with {v:?}", TEMPLATES[t].0);
        (Ok((t, v)), d)
    } else {
        let j = i - nt;
        let (s, md) = ((j % 3) as usize, texts().get(j / 3).into_iter().map(|k| TXT[k]).collect::<Vec<_>>().join("\n"));
        let d = format!("markdown {md:?}, terminal {:?}", SIZES[s]);
        (Err((md, s)), d)
    }
}
fn check_print(quick: bool, i: u64, slave: i32) -> Result<u64, Viol> {
    let sk = skins();
    match print_case(quick, i).0 {
        Ok((t, vals)) => {
            let (md, _, p) = &TEMPLATES[t];
            let mut h = 0;
            for (sn, skin) in &sk {
                let (_, out) = with_io(b"", || p(skin, &vals))?;
                h ^= h64(&out);
                check_inline(&out, &expected_inline(md, &vals, skin), skin, &format!("skin {sn}"))?;
            }
            Ok(h)
        }
        Err((md, s)) => {
            let (w, hh) = SIZES[s];
            set_size(slave, w, hh);
            ensure!(terminal_size() == (w, hh), "terminal_size", "terminal_size gives {:?}", terminal_size());
            ensure!(Area::full_screen() == Area::new(0, 0, w, hh), "full_screen", "full_screen gives {:?}", Area::full_screen());
            let mut hash = 0;
            let mut same = |what: &str, f: &mut dyn FnMut(), want: &str| -> Res {
                let (_, out) = with_io(b"", f)?;
                hash ^= h64(&out);
                ensure!(out == want, what.split(' ').next().unwrap(), "{what} writes {out:?} instead of {want:?}");
                Ok(())
            };
            let one_line = !md.contains('\n');
            for (sn, skin) in sk.iter().map(|(n, s)| (n.as_str(), s)).chain([("global", get_default_skin())]) {
                let text = skin.text(&md, Some(w as usize)).to_string();
                ensure!(skin.term_text(&md).to_string() == text, "term_text", "skin {sn}: term_text isn't the text for the width of the terminal");
                let mut v = Vec::new();
                skin.write_text_on(&mut v, &md).unwrap();
                ensure!(v == text.as_bytes(), "write_text_on", "skin {sn}: write_text_on doesn't write the text for the width of the terminal");
                if sn == "global" { ensure!(termimad::term_text(&md).to_string() == text, "term_text", "the global term_text isn't the text of the default skin"); }
                same(&format!("print_text (skin {sn})"), &mut || skin.print_text(&md), &text)?;
                same(&format!("write_text (skin {sn})"), &mut || skin.write_text(&md).unwrap(), &text)?;
                if one_line {
                    let inline = skin.inline(&md).to_string();
                    same(&format!("print_inline (skin {sn})"), &mut || skin.print_inline(&md), &inline)?;
                    same(&format!("write_inline (skin {sn})"), &mut || skin.write_inline(&md).unwrap(), &inline)?;
                    same(&format!("print_composite (skin {sn})"), &mut || skin.print_composite(Composite::from_inline(&md)), &inline)?;
                    if sn == "global" { same("print_inline global", &mut || termimad::print_inline(&md), &inline)?; }
                }
                if sn == "global" { same("print_text global", &mut || termimad::print_text(&md), &text)?; }
                // templates
                let tmd = format!("{md}\n**${{name}}** and ${{other}}\n${{rows}}\n* ${{item}}\n}}\n");
                let template = TextTemplate::from(tmd.as_str());
                let make = || { let mut e = template.expander(); e.set("name", "*v*").set_md("other", "*w*"); e.sub("rows").set("item", "a|b"); e.sub("rows").set("item", "c"); e };
                let want = FmtText::from_text(skin, make().expand(), Some(w as usize)).to_string();
                same(&format!("print_expander (skin {sn})"), &mut || skin.print_expander(make()), &want)?;
                let mut own = OwningTemplateExpander::new();
                own.set("name", "*v*").set_md("other", "*w*");
                own.sub("rows").set("item", "a|b");
                own.sub("rows").set("item", "c");
                same(&format!("print_owning_expander (skin {sn})"), &mut || skin.print_owning_expander(&own, &template), &want)?;
                same(&format!("print_owning_expander_md (skin {sn})"), &mut || skin.print_owning_expander_md(&own, tmd.as_str()), &want)?;
                // views
                let area = Area::new(1, 1, 8, 4);
                let bytes = |f: &dyn Fn(&mut Vec<u8>)| { let mut v = Vec::new(); f(&mut v); String::from_utf8_lossy(&v).into_owned() };
                let want = bytes(&|v| skin.write_in_area_on(v, &md, &area).unwrap());
                same(&format!("write_in_area (skin {sn})"), &mut || skin.write_in_area(&md, &area).unwrap(), &want)?;
                let t = skin.area_text(&md, &area);
                let view = TextView::from(&area, &t);
                let want = bytes(&|v| { view.write_on(v).unwrap(); });
                same(&format!("TextView::write (skin {sn})"), &mut || { view.write().unwrap(); }, &want)?;
                let view = MadView::from(md.clone(), area.clone(), skin.clone());
                let want = bytes(&|v| view.write_on(v).unwrap());
                same(&format!("MadView::write (skin {sn})"), &mut || view.write().unwrap(), &want)?;
            }
            Ok(hash)
        }
    }
}

// ---------------------------------------------------------------- C31, on stdout

fn full_case(i: u64) -> (usize, String, String) {
    let ns = skins().len() as u64;
    let md = texts().get(i / ns).into_iter().map(|k| TXT[k]).collect::<Vec<_>>().join("\n");
    let d = format!("markdown {md:?}, skin {}", skins()[(i % ns) as usize].0);
    ((i % ns) as usize, md, d)
}
fn check_full(i: u64) -> Result<u64, Viol> {
    let (s, md, _) = full_case(i);
    static SKINS: std::sync::LazyLock<Vec<(String, MadSkin)>> = std::sync::LazyLock::new(skins);
    let skin: &'static MadSkin = &SKINS[s].1;
    let area = Area::new(2, 1, 9, 5);
    let one = md.lines().next().unwrap_or("").to_string();
    let text = skin.area_text(&md, &area);
    let text_view = TextView::from(&area, &text);
    let mad_view = MadView::from(md.clone(), area.clone(), skin.clone());
    let mut input = InputField::new(Area::new(3, 2, 7, 3));
    input.new_line_on(InputField::ENTER);
    input.set_str(&md);
    let mut list = ListView::new(area.clone(), vec![ListViewColumn::new("name", 4, 9, Box::new(|s: &String| ListViewCell::new(s.clone(), &skin.bold)))], skin);
    for l in md.lines() { list.add_row(l.to_string()); }
    let mut bytes: Vec<Vec<u8>> = (0..7).map(|_| Vec::new()).collect();
    skin.write_text_on(&mut bytes[0], &md).unwrap();
    skin.write_inline_on(&mut bytes[1], &one).unwrap();
    skin.write_in_area_on(&mut bytes[2], &md, &area).unwrap();
    text_view.write_on(&mut bytes[3]).unwrap();
    mad_view.write_on(&mut bytes[4]).unwrap();
    let pos = input.display_on(&mut bytes[5]).unwrap();
    list.write_on(&mut bytes[6]).unwrap();
    let fs: [(&str, &dyn Fn() -> Result<(), Error>); 7] = [
        ("write_text", &|| skin.write_text(&md)),
        ("write_inline", &|| skin.write_inline(&one)),
        ("write_in_area", &|| skin.write_in_area(&md, &area)),
        ("TextView::write", &|| text_view.write().map(|_| ())),
        ("MadView::write", &|| mad_view.write()),
        ("InputField::display", &|| { let p = input.display()?; assert!(p == pos, "display gives {p:?} instead of {pos:?}"); Ok(()) }),
        ("ListView::write", &|| list.write()),
    ];
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    let full = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
    for ((name, f), want) in fs.iter().zip(&bytes) {
        // everything is there, without having to flush
        let mut o = memfd(b"");
        unsafe { libc::dup2(o.as_raw_fd(), 1); }
        let r = guard(f);
        let mut out = Vec::new();
        o.seek(SeekFrom::Start(0)).unwrap();
        o.read_to_end(&mut out).unwrap();
        unsafe { libc::dup2(null.as_raw_fd(), 1); }
        let _ = std::io::stdout().flush();
        ensure!(r?.is_ok(), "stdout", "{name} fails on stdout");
        ensure!(out == *want, "stdout", "{name} writes {:?} on stdout instead of {:?}", String::from_utf8_lossy(&out), String::from_utf8_lossy(want));
        // nothing can be written
        if want.is_empty() { continue; }
        unsafe { libc::dup2(full.as_raw_fd(), 1); }
        let r = guard(f);
        unsafe { libc::dup2(null.as_raw_fd(), 1); }
        let _ = std::io::stdout().flush();
        let r = r?;
        ensure!(matches!(&r, Err(Error::IO(e)) if e.kind() == std::io::ErrorKind::StorageFull), "full-stdout", "{name} gives {r:?} when stdout is full");
    }
    Ok(h64(&bytes))
}
