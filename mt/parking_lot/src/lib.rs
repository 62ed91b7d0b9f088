//! A stand-in for parking_lot whose locks are scheduled by the checker: of all threads that know of
//! an execution only one runs at a time, and which one runs next is decided before each acquisition
//! of a lock and whenever the running thread blocks. Blocking behaves as in parking_lot: readers
//! wait behind a waiting writer, locks are not reentrant.
pub use lock_api;
pub use lock_api::{ArcMutexGuard, ArcRwLockReadGuard, ArcRwLockUpgradableReadGuard, ArcRwLockWriteGuard};
use std::panic::Location;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub mod sched;
use sched::{Want, acquire, released};

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
pub struct ThreadId;
unsafe impl lock_api::GetThreadId for ThreadId {
    const INIT: Self = ThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|k| std::num::NonZeroUsize::new(k as *const u8 as usize).unwrap())
    }
}
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, ThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, ThreadId, T>;

pub struct RawMutex {
    pub(crate) locked: AtomicBool,
}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex { locked: AtomicBool::new(false) };
    type GuardMarker = lock_api::GuardNoSend;
    #[track_caller]
    fn lock(&self) {
        acquire(Want::Mutex(self), Location::caller());
    }
    #[track_caller]
    fn try_lock(&self) -> bool {
        acquire(Want::Nothing, Location::caller());
        sched::locked(|| self.locked.compare_exchange(false, true, SeqCst, SeqCst).is_ok())
    }
    unsafe fn unlock(&self) {
        self.locked.store(false, SeqCst);
        released();
    }
    fn is_locked(&self) -> bool {
        self.locked.load(SeqCst)
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    #[track_caller]
    fn try_lock_for(&self, _: Duration) -> bool {
        lock_api::RawMutex::lock(self);
        true
    }
    #[track_caller]
    fn try_lock_until(&self, _: Instant) -> bool {
        lock_api::RawMutex::lock(self);
        true
    }
}

/// `writer` is also set while a writer waits for the readers to leave.
pub struct RawRwLock {
    pub(crate) writer: AtomicBool,
    pub(crate) upgradable: AtomicBool,
    pub(crate) readers: AtomicUsize,
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock { writer: AtomicBool::new(false), upgradable: AtomicBool::new(false), readers: AtomicUsize::new(0) };
    type GuardMarker = lock_api::GuardNoSend;
    #[track_caller]
    fn lock_shared(&self) {
        acquire(Want::Read(self), Location::caller());
    }
    #[track_caller]
    fn try_lock_shared(&self) -> bool {
        acquire(Want::Nothing, Location::caller());
        sched::locked(|| {
            let free = !self.writer.load(SeqCst);
            if free {
                self.readers.fetch_add(1, SeqCst);
            }
            free
        })
    }
    unsafe fn unlock_shared(&self) {
        self.readers.fetch_sub(1, SeqCst);
        released();
    }
    #[track_caller]
    fn lock_exclusive(&self) {
        let at = Location::caller();
        acquire(Want::Write(self), at);
        acquire(Want::Drain(self), at);
    }
    #[track_caller]
    fn try_lock_exclusive(&self) -> bool {
        acquire(Want::Nothing, Location::caller());
        sched::locked(|| {
            let free = !self.writer.load(SeqCst) && !self.upgradable.load(SeqCst) && self.readers.load(SeqCst) == 0;
            if free {
                self.writer.store(true, SeqCst);
            }
            free
        })
    }
    unsafe fn unlock_exclusive(&self) {
        self.writer.store(false, SeqCst);
        released();
    }
    fn is_locked(&self) -> bool {
        self.writer.load(SeqCst) || self.readers.load(SeqCst) > 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.writer.load(SeqCst)
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.readers.fetch_add(1, SeqCst);
        self.writer.store(false, SeqCst);
        released();
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    #[track_caller]
    fn lock_shared_recursive(&self) {
        acquire(Want::ReadAgain(self), Location::caller());
    }
    #[track_caller]
    fn try_lock_shared_recursive(&self) -> bool {
        acquire(Want::Nothing, Location::caller());
        sched::locked(|| {
            let free = !self.writer.load(SeqCst) || self.readers.load(SeqCst) > 0;
            if free {
                self.readers.fetch_add(1, SeqCst);
            }
            free
        })
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    #[track_caller]
    fn lock_upgradable(&self) {
        acquire(Want::Upgradable(self), Location::caller());
    }
    #[track_caller]
    fn try_lock_upgradable(&self) -> bool {
        acquire(Want::Nothing, Location::caller());
        sched::locked(|| {
            let free = !self.writer.load(SeqCst) && !self.upgradable.load(SeqCst);
            if free {
                self.upgradable.store(true, SeqCst);
                self.readers.fetch_add(1, SeqCst);
            }
            free
        })
    }
    unsafe fn unlock_upgradable(&self) {
        self.readers.fetch_sub(1, SeqCst);
        self.upgradable.store(false, SeqCst);
        released();
    }
    unsafe fn upgrade(&self) {
        self.readers.fetch_sub(1, SeqCst);
        self.upgradable.store(false, SeqCst);
        self.writer.store(true, SeqCst);
        acquire(Want::Drain(self), Location::caller());
    }
    unsafe fn try_upgrade(&self) -> bool {
        sched::locked(|| {
            let alone = self.readers.load(SeqCst) == 1;
            if alone {
                self.readers.store(0, SeqCst);
                self.upgradable.store(false, SeqCst);
                self.writer.store(true, SeqCst);
            }
            alone
        })
    }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
/// `waiters` only has to give the condition an address.
#[derive(Debug, Default)]
pub struct Condvar {
    waiters: AtomicUsize,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { waiters: AtomicUsize::new(0) }
    }
    fn addr(&self) -> usize {
        &self.waiters as *const _ as usize
    }
    pub fn notify_one(&self) -> bool {
        sched::notify(self.addr(), false) > 0
    }
    pub fn notify_all(&self) -> usize {
        sched::notify(self.addr(), true)
    }
    #[track_caller]
    fn wait_internal<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, limit: Option<Duration>) -> WaitTimeoutResult {
        let raw = unsafe { MutexGuard::mutex(guard).raw() };
        WaitTimeoutResult(sched::wait(self.addr(), raw, limit, Location::caller()))
    }
    #[track_caller]
    pub fn wait<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>) {
        self.wait_internal(guard, None);
    }
    #[track_caller]
    pub fn wait_for<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, timeout: Duration) -> WaitTimeoutResult {
        self.wait_internal(guard, Some(timeout))
    }
    #[track_caller]
    pub fn wait_until<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, timeout: Instant) -> WaitTimeoutResult {
        self.wait_internal(guard, Some(timeout.saturating_duration_since(Instant::now())))
    }
    #[track_caller]
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, guard: &mut MutexGuard<'_, T>, mut condition: F) {
        while condition(guard) {
            self.wait_internal(guard, None);
        }
    }
    #[track_caller]
    pub fn wait_while_for<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, guard: &mut MutexGuard<'_, T>, mut condition: F, timeout: Duration) -> WaitTimeoutResult {
        while condition(guard) {
            if self.wait_internal(guard, Some(timeout)).0 {
                return WaitTimeoutResult(condition(guard));
            }
        }
        WaitTimeoutResult(false)
    }
}
