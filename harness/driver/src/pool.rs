//! Forked workers: a crash of the code under test ends one worker, and the parent learns which case did it.
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::HashMap;

const NOTE: usize = 64 << 10;
const BUF: usize = 32 << 20;

/// Shared memory of one worker: the case it is on, and its result.
pub struct Slot {
    note: *mut u8,
    buf: *mut u8,
}
impl Slot {
    fn new() -> Slot {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                NOTE + BUF,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            Slot { note: p as *mut u8, buf: (p as *mut u8).add(NOTE) }
        }
    }
    fn put(p: *mut u8, cap: usize, b: &[u8]) {
        assert!(b.len() + 8 <= cap, "worker result too large");
        unsafe {
            std::ptr::write_volatile(p as *mut u64, 0);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8), b.len());
            std::ptr::write_volatile(p as *mut u64, b.len() as u64 + 1);
        }
    }
    fn get(p: *mut u8) -> Option<Vec<u8>> {
        unsafe {
            let n = std::ptr::read_volatile(p as *const u64);
            if n == 0 {
                return None;
            }
            Some(std::slice::from_raw_parts(p.add(8), n as usize - 1).to_vec())
        }
    }
    pub fn note<T: Serialize>(&self, v: &T) {
        Self::put(self.note, NOTE, &serde_json::to_vec(v).unwrap());
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.note as *mut _, NOTE + BUF);
        }
    }
}

#[derive(Debug)]
pub enum End<R> {
    Done(R),
    /// killed by a signal, with the last note
    Crash(i32, Option<serde_json::Value>),
    /// the worker stopped without a result for a reason that is not the code under test
    Broken(String),
}

/// Signals that mean the code under test did something wrong; anything else (SIGKILL, SIGALRM) is trouble of ours.
pub fn is_crash(sig: i32) -> bool {
    [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&sig)
}

fn start<R: Serialize>(slot: &Slot, limit_s: u32, f: impl FnOnce(&Slot) -> R) -> i32 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid != 0 {
            return pid;
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        for s in [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            libc::signal(s, libc::SIG_DFL);
        }
        libc::alarm(limit_s);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(slot)));
        match r {
            Ok(r) => {
                Slot::put(slot.buf, BUF, &serde_json::to_vec(&r).unwrap());
                libc::_exit(0)
            }
            Err(_) => libc::_exit(77),
        }
    }
}
fn finish<R: DeserializeOwned>(slot: &Slot, st: i32) -> End<R> {
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        let note = Slot::get(slot.note).and_then(|b| serde_json::from_slice(&b).ok());
        return if is_crash(s) { End::Crash(s, note) } else { End::Broken(format!("worker ended by signal {s} at {note:?}")) };
    }
    if libc::WEXITSTATUS(st) != 0 {
        return End::Broken(format!("worker exit {}", libc::WEXITSTATUS(st)));
    }
    match Slot::get(slot.buf) {
        Some(b) => End::Done(serde_json::from_slice(&b).unwrap()),
        None => End::Broken("no result".into()),
    }
}

/// Runs one closure in a child.
pub fn isolated<R: Serialize + DeserializeOwned>(limit_s: u32, f: impl FnOnce(&Slot) -> R) -> End<R> {
    let slot = Slot::new();
    let pid = start(&slot, limit_s, f);
    let mut st = 0;
    unsafe {
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    finish(&slot, st)
}

/// Runs `n` tasks on `jobs` children; results come back in task order, so that nothing depends on scheduling.
pub fn map<R: Serialize + DeserializeOwned>(n: usize, jobs: usize, limit_s: u32, f: impl Fn(usize, &Slot) -> R) -> Vec<End<R>> {
    let mut out: Vec<Option<End<R>>> = (0..n).map(|_| None).collect();
    let mut live: HashMap<i32, (usize, Slot)> = HashMap::new();
    let mut next = 0;
    while next < n || !live.is_empty() {
        while next < n && live.len() < jobs {
            let slot = Slot::new();
            let i = next;
            let pid = start(&slot, limit_s, |s| f(i, s));
            live.insert(pid, (i, slot));
            next += 1;
        }
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
        if let Some((i, slot)) = live.remove(&pid) {
            out[i] = Some(finish(&slot, st));
        }
    }
    out.into_iter().map(|o| o.unwrap()).collect()
}
