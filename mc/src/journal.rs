//! What each worker is executing right now, in memory shared with the parent
//! process, so that an execution that kills or hangs the process can be found.
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering};

pub const SLOTS: usize = 16;
const MAX: usize = 2040;

#[repr(C)]
pub struct Slot {
    pub seq: AtomicU64, // odd while an execution is under way
    pub harness: AtomicU32,
    pub len: AtomicU32,
    pub choices: [AtomicU32; MAX],
}

static BASE: AtomicPtr<Slot> = AtomicPtr::new(std::ptr::null_mut());

pub fn map(path: &str, create: bool) -> std::io::Result<()> {
    use std::os::fd::AsRawFd;
    let size = std::mem::size_of::<Slot>() * SLOTS;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .truncate(create)
        .open(path)?;
    if create {
        f.set_len(size as u64)?;
    }
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    if p == libc::MAP_FAILED {
        return Err(std::io::Error::last_os_error());
    }
    BASE.store(p as *mut Slot, Ordering::SeqCst);
    Ok(())
}

pub fn slot(i: usize) -> Option<&'static Slot> {
    let p = BASE.load(Ordering::SeqCst);
    if p.is_null() || i >= SLOTS {
        None
    } else {
        Some(unsafe { &*p.add(i) })
    }
}

pub fn begin(i: usize, harness: usize, choices: &[u32]) {
    if let Some(s) = slot(i) {
        s.harness.store(harness as u32, Ordering::Relaxed);
        let n = choices.len().min(MAX);
        s.len.store(n as u32, Ordering::Relaxed);
        for (to, c) in s.choices.iter().zip(choices) {
            to.store(*c, Ordering::Relaxed);
        }
        s.seq.fetch_add(1, Ordering::Release);
    }
}

pub fn end(i: usize) {
    if let Some(s) = slot(i) {
        s.seq.fetch_add(1, Ordering::Release);
    }
}

/// The execution under way in a slot: sequence number, harness and choices
pub fn under_way(i: usize) -> Option<(u64, usize, Vec<u32>)> {
    let s = slot(i)?;
    let seq = s.seq.load(Ordering::Acquire);
    if seq % 2 == 0 {
        return None;
    }
    let n = s.len.load(Ordering::Relaxed) as usize;
    Some((
        seq,
        s.harness.load(Ordering::Relaxed) as usize,
        s.choices[..n]
            .iter()
            .map(|c| c.load(Ordering::Relaxed))
            .collect(),
    ))
}
