//! The I/O tap of the checker: records every mutation of every database file and can freeze the
//! disk image at a chosen write (everything later is swallowed, as if the process had died).
use axmosdb::io::disk::tap::{Mutation, install};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicI64, Ordering};

#[derive(Clone, Debug)]
pub enum Ev {
    Create(PathBuf),
    Write(PathBuf, u64, Vec<u8>),
    SetLen(PathBuf, u64),
    Sync(PathBuf),
    Mark(u64),
}

static LEFT: AtomicI64 = AtomicI64::new(-1);
static LOG: Mutex<Option<Vec<Ev>>> = Mutex::new(None);

/// No recording, no freezing.
pub fn reset() {
    LEFT.store(-1, Ordering::SeqCst);
    *LOG.lock().unwrap_or_else(|e| e.into_inner()) = None;
    install(None);
}

/// Lets `n` more mutations (writes, truncations, creations) through, then swallows everything.
pub fn freeze_after(n: i64) {
    LEFT.store(n, Ordering::SeqCst);
    arm();
}

/// Starts recording every mutation.
pub fn record() {
    *LOG.lock().unwrap_or_else(|e| e.into_inner()) = Some(vec![]);
    arm();
}
pub fn mark(m: u64) {
    if let Some(l) = LOG.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        l.push(Ev::Mark(m));
    }
}
pub fn take() -> Vec<Ev> {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).as_mut().map(std::mem::take).unwrap_or_default()
}

fn arm() {
    install(Some(Box::new(|p, m| {
        if !matches!(m, Mutation::Sync) {
            let l = LEFT.load(Ordering::SeqCst);
            if l == 0 {
                return Ok(false);
            }
            if l > 0 {
                LEFT.store(l - 1, Ordering::SeqCst);
            }
        } else if LEFT.load(Ordering::SeqCst) == 0 {
            return Ok(false);
        }
        if let Some(l) = LOG.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            l.push(match m {
                Mutation::Create => Ev::Create(p.to_path_buf()),
                Mutation::Write { offset, bytes } => Ev::Write(p.to_path_buf(), *offset, bytes.to_vec()),
                Mutation::SetLen(n) => Ev::SetLen(p.to_path_buf(), *n),
                Mutation::Sync => Ev::Sync(p.to_path_buf()),
            });
        }
        Ok(true)
    })));
}
