//! Worker zygotes: single-threaded processes forked before anything else
//! happens; each forks one child per run, so every run starts from the same
//! process image.
use crate::child::{self, Outcome, Spec, Viol};
use crate::kernel;

const IN_CAP: usize = 8 << 20;
const OUT_CAP: usize = 24 << 20;
pub const EDGE_CAP: usize = 1 << 20;

pub struct Worker {
    shm: *mut u8,
    edges: *mut u8,
    cmd: i32,
    resp: i32,
    pid: i32,
}
unsafe impl Send for Worker {}

unsafe fn map(n: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

pub fn edge_map() -> *mut u8 {
    unsafe { map(EDGE_CAP) }
}

pub fn spawn(i: usize, edges: *mut u8) -> Worker {
    unsafe {
        let shm = map(IN_CAP + OUT_CAP);
        let mut a = [0i32; 2];
        let mut b = [0i32; 2];
        libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC);
        libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(a[1]);
            libc::close(b[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            zygote(i, a[0], b[1], shm, edges);
        }
        libc::close(a[0]);
        libc::close(b[1]);
        Worker { shm, edges, cmd: a[1], resp: b[0], pid }
    }
}

unsafe fn zygote(i: usize, cmd: i32, resp: i32, shm: *mut u8, edges: *mut u8) -> ! {
    kernel::EDGE_HITS = edges;
    kernel::EDGE_MAX = EDGE_CAP;
    // One CPU per worker: hand-overs between simulated threads stay local.
    let mut set: libc::cpu_set_t = std::mem::zeroed();
    libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
    let cpus: [bool; 1024] = std::array::from_fn(|c| libc::CPU_ISSET(c, &set));
    let n = cpus.iter().filter(|x| **x).count();
    if n > 0 {
        let mut want = i % n;
        for c in 0..1024 {
            if cpus[c] {
                if want == 0 {
                    let mut one: libc::cpu_set_t = std::mem::zeroed();
                    libc::CPU_SET(c, &mut one);
                    libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
                    break;
                }
                want -= 1;
            }
        }
    }
    loop {
        let mut b = [0u8; 16];
        let r = libc::read(cmd, b.as_mut_ptr() as *mut _, 16);
        if r != 16 {
            libc::_exit(0);
        }
        let len = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        let secs = u64::from_le_bytes(b[8..].try_into().unwrap()) as u32;
        *(shm.add(IN_CAP) as *mut u64) = 0;
        let pid = libc::fork();
        if pid == 0 {
            libc::close(cmd);
            libc::close(resp);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(secs);
            let text = std::slice::from_raw_parts(shm, len);
            let spec: Spec = serde_json::from_slice(text).expect("bad spec");
            child::run(spec, shm.add(IN_CAP), OUT_CAP);
        }
        let mut st = 0i32;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let code: i32 = if libc::WIFSIGNALED(st) { -libc::WTERMSIG(st) } else { libc::WEXITSTATUS(st) };
        libc::write(resp, &code as *const _ as *const _, 4);
    }
}

impl Worker {
    pub fn run(&self, spec: &Spec, secs: u64) -> Outcome {
        unsafe {
            let text = serde_json::to_vec(spec).unwrap();
            assert!(text.len() < IN_CAP);
            std::ptr::copy_nonoverlapping(text.as_ptr(), self.shm, text.len());
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(text.len() as u64).to_le_bytes());
            b[8..].copy_from_slice(&secs.to_le_bytes());
            assert_eq!(libc::write(self.cmd, b.as_ptr() as *const _, 16), 16);
            let mut code = 0i32;
            let r = libc::read(self.resp, &mut code as *mut _ as *mut _, 4);
            assert_eq!(r, 4, "worker died");
            let n = *(self.shm.add(IN_CAP) as *const u64) as usize;
            if n > 0 {
                let t = std::slice::from_raw_parts(self.shm.add(IN_CAP + 8), n);
                return serde_json::from_slice(t).expect("bad outcome");
            }
            let mut o = Outcome { why: format!("exit {code}"), ..Default::default() };
            if code == -libc::SIGALRM {
                o.why = "hung".into();
            } else if code < 0 {
                o.viol.push(Viol { prop: spec.property.clone(), class: format!("crash:signal{}", -code), detail: format!("the process died of signal {}", -code) });
                o.why = "crash".into();
            } else {
                o.harness_error = Some(format!("child exited with {code}"));
            }
            o
        }
    }
    pub fn edges(&self) -> u64 {
        unsafe { (0..EDGE_CAP).filter(|&i| *self.edges.add(i) != 0).count() as u64 }
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.cmd);
            libc::kill(self.pid, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
        }
    }
}
