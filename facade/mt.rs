/// Channels made of the crate's own locks, so that waiting for one is visible to the scheduler.
pub mod mpsc {
    use parking_lot::{Condvar, Mutex};
    use std::collections::VecDeque;
    use std::sync::Arc;
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use std::time::{Duration, Instant};

    struct Chan<T> {
        st: Mutex<(VecDeque<T>, usize, bool)>,
        cv: Condvar,
        bound: usize,
    }
    pub struct Sender<T>(Arc<Chan<T>>);
    pub type SyncSender<T> = Sender<T>;
    pub struct Receiver<T>(Arc<Chan<T>>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        sync_channel(usize::MAX)
    }
    pub fn sync_channel<T>(bound: usize) -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Chan { st: Mutex::new((VecDeque::new(), 1, true)), cv: Condvar::new(), bound: bound.max(1) });
        (Sender(c.clone()), Receiver(c))
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.st.lock().1 += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.0.st.lock().1 -= 1;
            self.0.cv.notify_all();
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0.st.lock().2 = false;
            self.0.cv.notify_all();
        }
    }
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            let mut g = self.0.st.lock();
            loop {
                if !g.2 {
                    return Err(SendError(v));
                }
                if g.0.len() < self.0.bound {
                    g.0.push_back(v);
                    self.0.cv.notify_all();
                    return Ok(());
                }
                self.0.cv.wait(&mut g);
            }
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            let mut g = self.0.st.lock();
            if !g.2 {
                return Err(TrySendError::Disconnected(v));
            }
            if g.0.len() >= self.0.bound {
                return Err(TrySendError::Full(v));
            }
            g.0.push_back(v);
            self.0.cv.notify_all();
            Ok(())
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            let mut g = self.0.st.lock();
            loop {
                if let Some(v) = g.0.pop_front() {
                    self.0.cv.notify_all();
                    return Ok(v);
                }
                if g.1 == 0 {
                    return Err(RecvError);
                }
                self.0.cv.wait(&mut g);
            }
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            let mut g = self.0.st.lock();
            match g.0.pop_front() {
                Some(v) => {
                    self.0.cv.notify_all();
                    Ok(v)
                }
                None if g.1 == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            let mut g = self.0.st.lock();
            loop {
                if let Some(v) = g.0.pop_front() {
                    self.0.cv.notify_all();
                    return Ok(v);
                }
                if g.1 == 0 {
                    return Err(RecvTimeoutError::Disconnected);
                }
                if self.0.cv.wait_for(&mut g, d).timed_out() && g.0.is_empty() {
                    return Err(RecvTimeoutError::Timeout);
                }
            }
        }
        pub fn recv_deadline(&self, t: Instant) -> Result<T, RecvTimeoutError> {
            self.recv_timeout(t.saturating_duration_since(Instant::now()))
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
            std::iter::from_fn(|| self.try_recv().ok())
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
}
include!("audit.rs");
