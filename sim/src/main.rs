#![feature(alloc_error_hook)]
//! Deterministic simulator for morton-index. See /verif/DESIGN.md.
mod access;
mod alloc;
#[cfg(feature = "simbits")]
mod bits;
mod cold;
mod ctl;
mod gen;
mod rng;
mod run;
mod sched;
mod sut;
mod trace;
mod world;

use std::io::Write;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn setup() {
    std::panic::set_hook(Box::new(|_| ctl::panic_begins()));
    std::alloc::set_alloc_error_hook(alloc::alloc_error);
    sched::install();
}

fn one_line(s: &str) -> String {
    s.replace('\n', " ")
}

fn batch(prop: &str, seed: u64, from: u64, to: u64, digests: bool, first: bool, progress: &str) -> i32 {
    let mut stats = world::Stats::default();
    let mut hashes: std::collections::HashSet<u64> = Default::default();
    let mut nontriv: std::collections::HashSet<u64> = Default::default();
    let mut others = 0;
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let pf = if progress.is_empty() { None } else { std::fs::OpenOptions::new().create(true).write(true).open(progress).ok() };
    let mut rc = 0;
    let mut done = 0u64;
    // the runs that need a process of their own come first, while this process has not used the library
    let order = (from..to).filter(|n| gen::is_cold(prop, *n)).chain((from..to).filter(|n| !gen::is_cold(prop, *n)));
    for n in order {
        if let Some(f) = &pf {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{:020}", n).as_bytes(), 0);
        }
        let t = gen::gen(prop, seed, n);
        let o = if t.cold > 0 { cold::run(&t) } else { run::run(&t) };
        done += 1;
        stats.merge(&o.stats);
        hashes.insert(o.dig);
        if o.nontrivial {
            nontriv.insert(o.dig);
        }
        if digests {
            let _ = writeln!(out, "D {} {:016x}", n, o.dig);
        }
        if let Some((c, m)) = &o.other {
            others += 1;
            if others <= 3 {
                let _ = writeln!(out, "O {} {} {}", n, c, one_line(m));
            }
        }
        if let Some(m) = &o.viol {
            let _ = writeln!(out, "V {} {}", n, one_line(m));
            rc = 1;
        }
        if o.fatal || (first && o.viol.is_some()) {
            break;
        }
    }
    stats.addn("runs", done);
    for (k, v) in &stats.n {
        let _ = writeln!(out, "S {} {}", k, v);
    }
    for h in &hashes {
        let _ = writeln!(out, "{} {:x}", if nontriv.contains(h) { "N" } else { "H" }, h);
    }
    for h in &stats.cover {
        let _ = writeln!(out, "C {:x}", h);
    }
    let _ = writeln!(out, "E {}", done);
    let _ = out.flush();
    rc
}

/// Address-space randomisation is a source of nondeterminism too: switch it off where that is permitted.
fn fixed_addresses() {
    use std::os::unix::process::CommandExt;
    const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    if std::env::var_os("MORTON_SIM_FIXED").is_some() {
        return;
    }
    unsafe {
        let old = libc::personality(0xffff_ffff);
        if old < 0 || libc::personality(old as libc::c_ulong | ADDR_NO_RANDOMIZE) < 0 {
            return;
        }
    }
    if let Ok(me) = std::env::current_exe() {
        // returns only if it fails
        let _ = std::process::Command::new(me).args(std::env::args_os().skip(1)).env("MORTON_SIM_FIXED", "1").exec();
    }
}

fn main() {
    fixed_addresses();
    setup();
    // on a stack of the size that Rust gives to threads
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(real_main).expect("spawn");
    let rc = h.join().unwrap_or(2);
    std::io::stdout().flush().ok();
    unsafe { libc::_exit(rc) }
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| arg(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let prop = arg("--prop").unwrap_or_default();
    match a.get(1).map(|x| x.as_str()) {
        Some("run") => batch(
            &prop,
            num("--seed", 1),
            num("--from", 0),
            num("--to", 100),
            a.iter().any(|x| x == "--digests"),
            a.iter().any(|x| x == "--first"),
            &arg("--progress").unwrap_or_default(),
        ),
        Some("gen") => {
            print!("{}", gen::gen(&prop, num("--seed", 1), num("--run", 0)).print());
            0
        }
        Some("replay") => {
            let f = std::fs::read_to_string(&a[2]).unwrap_or_default();
            match trace::Trace::parse(&f) {
                None => {
                    println!("unreadable trace {}", a[2]);
                    2
                }
                Some(t) => {
                    let o = run::run(&t);
                    println!("digest {:016x}", o.dig);
                    if let Some((c, m)) = &o.other {
                        println!("other {} {}", c, one_line(m));
                    }
                    match o.viol {
                        Some(m) => {
                            println!("violated {} {}", t.prop, one_line(&m));
                            1
                        }
                        None => {
                            println!("held {}", t.prop);
                            0
                        }
                    }
                }
            }
        }
        _ => {
            println!("usage: morton-sim run|gen|replay ..");
            2
        }
    }
}
