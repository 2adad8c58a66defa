//! Sinks a value is rendered into, which fail as told.
use crate::rt::*;
use crate::val::*;
use crate::exec::Shared;
use std::fmt;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn text(a: &A) -> String {
    match a { A::P(p) => p.to_string(), A::T(t) => t.to_string(), A::V(v) => v.to_string(), A::Pt(p) => p.to_string(), A::C(c) => c.to_string(), A::Pv(v) => v.to_string(), A::L(_) => String::new(),
        A::N(n) => n.to_string(), A::W(_) | A::M(_) | A::S(_) | A::K(_) => String::new() }
}
/// kind: "f" fmt sink, "i" io sink; mode: byte:N fail when N bytes are taken, call:N fail at the N-th write, panic:N panic at the N-th write,
/// none; piece: largest piece an io sink takes at once (0 = all); intr: every how many io writes one is interrupted (0 = never)
pub struct Sink { io: bool, mode: u8, at: usize, piece: usize, intr: usize, got: Vec<u8>, calls: usize, failed: bool, after: usize, kind: io::ErrorKind, intr_n: usize, nest: Option<*const A>, want: String }
impl Sink {
    pub fn parse(w: &str) -> Sink {
        // f.byte.12.0.0
        let v: Vec<&str> = w.split('.').collect();
        Sink { io: v[0] == "i", mode: match v[1] { "byte" => 1, "call" => 2, "panic" => 3, _ => 0 }, at: v[2].parse().unwrap(), piece: v[3].parse().unwrap(), intr: v[4].parse().unwrap(),
            got: vec![], calls: 0, failed: false, after: 0, kind: [io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::PermissionDenied][v[2].len() % 4], intr_n: 0, nest: None, want: String::new() }
    }
    fn take(&mut self, b: &[u8]) -> Result<usize, ()> {
        if self.failed { self.after += 1; return Err(()); }
        self.calls += 1;
        if let (Some(a), true) = (self.nest, self.calls <= 8) {
            // the sink renders the value itself
            count("renderings_inside_a_sink");
            let t = crate::exec::lib(|| text(unsafe { &*a }));
            match t { Ok(t) => { if t != self.want { violation("text", &format!("rendering {} inside a sink's write gave {:?}", self.want, t)); } let _ = crate::exec::lib(move || drop(t)); } Err(()) => violation("panic", &format!("rendering {} inside a sink's write panicked", self.want)) }
        }
        match self.mode {
            2 if self.calls > self.at => { self.failed = true; count("fault_sink_fails"); return Err(()); }
            3 if self.calls > self.at => { self.failed = true; count("fault_sink_panics"); std::panic::resume_unwind(Box::new("sink")); }
            1 if self.got.len() + b.len() > self.at => {
                let k = self.at - self.got.len();
                self.got.extend_from_slice(&b[..k]);
                if self.io && k > 0 { return Ok(k); }
                self.failed = true; count("fault_sink_fails"); return Err(());
            }
            _ => {}
        }
        let n = if self.piece > 0 && self.io { b.len().min(self.piece) } else { b.len() };
        if n < b.len() { count("fault_sink_short"); }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        sink_point();
        outside(|| self.take(s.as_bytes())).map(|_| ()).map_err(|_| fmt::Error)
    }
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        sink_point();
        outside(|| {
            if self.intr > 0 { self.intr_n += 1; if self.intr_n % (self.intr + 1) == 0 { count("fault_sink_interrupted"); return Err(io::ErrorKind::Interrupted.into()); } }
            if b.is_empty() { return Ok(0); }
            self.take(b).map_err(|_| self.kind.into())
        })
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn render(a: &A, s: &mut Sink, io: bool) -> Result<(), Option<io::ErrorKind>> {
    macro_rules! go { ($x:expr) => { if io { io::Write::write_fmt(s, format_args!("{}", $x)).map_err(|e| Some(e.kind())) } else { fmt::Write::write_fmt(s, format_args!("{}", $x)).map_err(|_| None) } } }
    match a { A::P(x) => go!(x), A::T(x) => go!(x), A::V(x) => go!(x), A::Pt(x) => go!(x), A::C(x) => go!(x), A::Pv(x) => go!(x), A::N(x) => go!(x), _ => Ok(()) }
}
/// `sink <literal or @k> w=<spec>`; checks the outcome and returns a text of it.
pub fn run(t: &str, pool: &Shared<Vec<Option<A>>>, full: &str) -> String {
    let mut w = t.split(' ').skip(1);
    let (lit, spec) = (w.next().unwrap(), w.next().unwrap());
    let l = parse(lit);
    let mut sk = Sink::parse(spec.strip_prefix("w=").unwrap());
    let isio = sk.io;
    let own;
    let a: &A = match &l { Lit::Ref(k) => pool[*k].as_ref().unwrap(), _ => { own = match crate::exec::lib(|| make(&l)) { Ok(a) => a, Err(()) => return "!".into() }; &own } };
    if spec.ends_with(".n") && full != "!" { sk.nest = Some(a); sk.want = full.to_string(); }
    let r = catch_unwind(AssertUnwindSafe(|| call(|| render(a, &mut sk, isio))));
    me().in_call = false;
    count("renderings");
    let got = String::from_utf8_lossy(&sk.got).to_string();
    let what = format!("rendering {} into {}", full, spec);
    let v = |k: &str, d: String| -> ! { violation(k, &format!("{}: {}", what, d)) };
    if full == "!" { return "!".into(); }
    if !full.starts_with(&got) { v("text", format!("the sink took {:?}, not a prefix of the text", got)); }
    if sk.after > 0 { v("write-after-failure", format!("{} writes after the sink had failed", sk.after)); }
    let res = match r {
        Err(p) => { drop(p); if !(sk.mode == 3 && sk.failed) { v("panic", format!("panicked; the sink took {:?}", got)); } "panic".to_string() }
        Ok(Ok(())) => {
            if sk.failed { v("error-lost", format!("success although the sink failed after {:?}", got)); }
            if got != full { v("text", format!("success but the sink has {:?}", got)); }
            "ok".into()
        }
        Ok(Err(k)) => {
            if !sk.failed { v("error-invented", format!("an error although the sink did not fail; it has {:?}", got)); }
            if let Some(k) = k { if k != sk.kind { v("error-changed", format!("error {:?}, the sink's was {:?}", k, sk.kind)); } }
            format!("err {:?}", k)
        }
    };
    format!("{} {}", res, got)
}
