#![feature(alloc_error_hook)]
#![no_main]
#![allow(static_mut_refs)]
mod driver; mod exec; mod gen; mod gens; mod obj; mod ops; mod rt; mod scen; mod sink; mod val;
#[global_allocator]
static HEAP: rt::Heap = rt::Heap;
#[no_mangle]
pub extern "C" fn main(_: i32, argv: *mut *const u8) -> i32 { unsafe { rt::ARGV = argv; } real_main() }
fn real_main() -> i32 {
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN); }
    let loud = std::env::var("ECSIM_PANIC").is_ok();
    std::panic::set_hook(Box::new(move |i| { if loud { rt::outside(|| rt::raw_write(2, format!("{}\n", i).as_bytes())) } }));
    std::alloc::set_alloc_error_hook(|_| panic!("out of memory"));
    ops::op("psi");
    rt::find_statics();
    let a: Vec<String> = std::env::args().collect();
    let dir = std::env::var("ECSIM_DIR").unwrap_or("/verif".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(&a[2], &dir),
        Some("replay") => driver::replay(&a[2]),
        Some("selftest") => driver::selftest(a.get(2).map_or(20, |s| s.parse().unwrap())),
        Some("show") => { let mut m = exec::Memo::new(); match gens::generate(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a.len() > 5, &mut m) { gens::Gen::Run(s) => print!("{}", s.show()), gens::Gen::Hang(t) => println!("hang {}", t), gens::Gen::Skip => println!("skip") } 0 }
        Some("solo") => { let t = std::time::Instant::now(); let s = exec::solo(&mut exec::Memo::new(), &a[2]); println!("{} ev={} allocs={} narr={} hang={} crash={} blocked={} rare={} touch={} {:?}", s.out, s.ev, s.allocs, s.narr, s.hang, s.crash, s.blocked, s.rare.len(), s.touch, t.elapsed()); 0 }
        Some("survey") => survey(a[2].parse().unwrap(), a[3].parse().unwrap()),
        _ => 2,
    }
}

/// Every catalogued operation with many arguments, good, bad and odd ones: which calls do not end, and which end the process.
fn survey(seed: u64, n: u64) -> i32 {
    let mut r = rt::Rng(rt::mix(seed));
    let mut hits: std::collections::BTreeMap<&str, u32> = Default::default();
    for _ in 0..n {
        let mut k = gen::kit(&mut r, false);
        // polynomials of every kind wherever one is taken
        if r.pct(50) { let x = k.xs.clone(); k.us.extend(x.clone()); k.zs.extend(x.clone()); k.qs.extend(x); k.us.push(vec![]); k.zs.push(vec![]); k.qs.push(vec![]); }
        for o in ops::OPS {
            if hits.get(o.n).map_or(false, |&c| c >= 6) { continue; }
            let t = format!("{} {}", o.n, gen::args(&mut r, &k, o.s).join(" "));
            let t = t.trim_end();
            let s = exec::solo(&mut exec::Memo::new(), t);
            if s.ok() { continue; }
            let s = exec::solo_patient(t);
            if s.ok() { continue; }
            *hits.entry(o.n).or_insert(0) += 1;
            println!("{} {} {}", if s.died() { "dies" } else if s.crash { "lost" } else { "no-end" }, s.sig, &t[..t.len().min(400)]);
        }
    }
    0
}
