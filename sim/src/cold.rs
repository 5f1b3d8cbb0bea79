//! Runs in processes of their own: the library is used there for the first time, so whatever it sets up
//! on first use is set up under the run's schedule and faults.
use crate::run::Outcome;
use crate::trace::Trace;
use crate::world::Stats;
use std::io::Read;
use std::os::fd::FromRawFd;

const CPU_S: libc::rlim_t = 40;

/// runs `f` in a forked child and hands back the text it returns, or how the child died
fn forked(f: impl FnOnce() -> String) -> Result<String, String> {
    unsafe {
        let mut fd = [0; 2];
        assert!(libc::pipe(fd.as_mut_ptr()) == 0);
        let me = libc::getpid();
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::getppid() != me {
                libc::_exit(9);
            }
            let lim = libc::rlimit { rlim_cur: CPU_S, rlim_max: CPU_S };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            libc::close(fd[0]);
            let s = f();
            let mut k = 0;
            while k < s.len() {
                let n = libc::write(fd[1], s.as_ptr().add(k) as *const libc::c_void, s.len() - k);
                if n <= 0 {
                    libc::_exit(9);
                }
                k += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut r = std::fs::File::from_raw_fd(fd[0]);
        let mut s = String::new();
        let ok = r.read_to_string(&mut s).is_ok();
        drop(r);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGXCPU || sig == libc::SIGKILL {
                return Err(format!("an operation never completes ({} s of CPU time and no end)", CPU_S));
            }
            return Err(format!("the process was killed by signal {} inside an operation", sig));
        }
        let rc = libc::WEXITSTATUS(st);
        if rc != 0 || !ok {
            return Err(format!("the process ended with exit code {} inside an operation", rc));
        }
        Ok(s)
    }
}

/// lists of digests computed in another process
pub fn elsewhere(f: impl FnOnce() -> Vec<Vec<u64>>) -> Result<Vec<Vec<u64>>, String> {
    let s = forked(|| f().iter().map(|v| v.iter().map(|x| format!("{:x} ", x)).collect::<String>() + "\n").collect())?;
    Ok(s.lines().map(|l| l.split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok()).collect()).collect())
}

pub fn run(t: &Trace) -> Outcome {
    let text = forked(|| {
        let o = crate::run::run(t);
        let mut s = format!("dig {:x}\nnontrivial {}\n", o.dig, o.nontrivial as u8);
        if let Some(m) = &o.viol {
            s += &format!("viol {}\n", m.replace('\n', " "));
        }
        if let Some((c, m)) = &o.other {
            s += &format!("other {} {}\n", c, m.replace('\n', " "));
        }
        for (k, v) in &o.stats.n {
            s += &format!("stat {} {}\n", v, k);
        }
        for c in &o.stats.cover {
            s += &format!("cover {:x}\n", c);
        }
        s
    });
    let mut o = Outcome { viol: None, other: None, dig: 0, stats: Stats::default(), nontrivial: false, fatal: false };
    o.stats.add("runs_in_a_process_of_their_own");
    match text {
        Err(m) => {
            o.viol = Some(m);
            o.nontrivial = true;
        }
        Ok(s) => {
            for l in s.lines() {
                let (k, v) = l.split_once(' ').unwrap_or((l, ""));
                match k {
                    "dig" => o.dig = u64::from_str_radix(v, 16).unwrap_or(0),
                    "nontrivial" => o.nontrivial = v == "1",
                    "viol" => o.viol = Some(v.to_string()),
                    "other" => {
                        let (c, m) = v.split_once(' ').unwrap_or((v, ""));
                        o.other = Some((c.to_string(), m.to_string()));
                    }
                    "stat" => {
                        let (n, name) = v.split_once(' ').unwrap_or(("0", v));
                        o.stats.addn(name, n.parse().unwrap_or(0));
                    }
                    "cover" => {
                        o.stats.cover.insert(u64::from_str_radix(v, 16).unwrap_or(0));
                    }
                    _ => {}
                }
            }
        }
    }
    o
}
