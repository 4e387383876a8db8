//! A process forked before the first codec existed. It runs plans in children of its own, so that a codec can be
//! driven by a process that has never driven another: state the crate keeps per process is found by comparison.
use crate::exec::{solo_run, Obs, Viol};
use crate::plan::Plan;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;

static LINK: Mutex<Option<(File, File)>> = Mutex::new(None);

fn pipe() -> (File, File) {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0, "pipe");
        (File::from_raw_fd(p[0]), File::from_raw_fd(p[1]))
    }
}
fn send(f: &mut File, b: &[u8]) -> std::io::Result<()> {
    let mut m = (b.len() as u32).to_le_bytes().to_vec();
    m.extend(b);
    f.write_all(&m)
}
fn receive(f: &mut File) -> std::io::Result<Vec<u8>> {
    let mut n = [0; 4];
    f.read_exact(&mut n)?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    f.read_exact(&mut b)?;
    Ok(b)
}

/// call it while the process has one thread and has driven no codec
pub fn start() {
    let (mut from_parent, to_child) = pipe();
    let (from_child, mut to_parent) = pipe();
    match unsafe { libc::fork() } {
        -1 => panic!("fork"),
        0 => {
            drop((to_child, from_child));
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            while let Ok(req) = receive(&mut from_parent) {
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    unsafe {
                        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                        let l = libc::rlimit { rlim_cur: 45, rlim_max: 60 };
                        libc::setrlimit(libc::RLIMIT_CPU, &l);
                    }
                    let _ = send(&mut to_parent, &serve(&req));
                    unsafe { libc::_exit(0) }
                }
                let mut st = 0;
                unsafe { libc::waitpid(pid, &mut st, 0) };
                if st != 0 {
                    let why = if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("status {}", libc::WEXITSTATUS(st)) };
                    let class = if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGXCPU { "hang" } else { "abort-alone" };
                    let _ = send(&mut to_parent, format!("V{class}\tdriven alone in a process of its own: {why}").as_bytes());
                }
            }
            unsafe { libc::_exit(0) }
        }
        _ => *LINK.lock().unwrap() = Some((to_child, from_child)),
    }
}

/// request: the session's id, the seed of its environment, the plan
fn serve(req: &[u8]) -> Vec<u8> {
    let n = |o: usize| u64::from_le_bytes(req[o..o + 8].try_into().unwrap());
    let plan = Plan::parse(std::str::from_utf8(&req[16..]).unwrap()).expect("plan");
    seams::env::begin(n(8));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| solo_run(&plan, n(0) as i64, false)));
    match r {
        Ok(Ok(obs)) => {
            let mut b = vec![b'O'];
            for (observer, h) in obs {
                b.push(observer as u8);
                b.extend(h.to_le_bytes());
            }
            b
        }
        Ok(Err(v)) => format!("V{}\t{}", v.class, v.detail).into_bytes(),
        Err(_) => {
            let (loc, msg) = crate::take_panic().unwrap_or_default();
            format!("Vpanic@{loc}\t{msg}").into_bytes()
        }
    }
}

/// what session `id` of the plan observes in a process that has done nothing else
pub fn solo(plan: &Plan, id: i64, env: u64) -> Result<Obs, Viol> {
    let mut g = LINK.lock().unwrap();
    let (to, from) = g.as_mut().expect("zygote");
    let mut req = (id as u64).to_le_bytes().to_vec();
    req.extend(env.to_le_bytes());
    req.extend(plan.text().as_bytes());
    let r = send(to, &req).and_then(|_| receive(from)).expect("zygote");
    match r[0] {
        b'O' => Ok(r[1..].chunks(9).map(|c| (c[0] != 0, u64::from_le_bytes(c[1..].try_into().unwrap()))).collect()),
        _ => {
            let t = String::from_utf8_lossy(&r[1..]).to_string();
            let (c, d) = t.split_once('\t').unwrap_or((&t, ""));
            Err(Viol { class: c.into(), detail: d.into() })
        }
    }
}
