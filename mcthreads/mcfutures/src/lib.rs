//! futures, with its asynchronous mutex as a scheduling point, as mcstd's locks are
pub use real::*;

pub mod lock {
    use mcstd::control;
    use real::lock as r;
    pub use real::lock::*;
    use std::{
        fmt,
        ops::{Deref, DerefMut},
        sync::Arc,
    };

    #[repr(transparent)]
    pub struct Mutex<T: ?Sized>(r::Mutex<T>);

    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self {
            Mutex(r::Mutex::new(t))
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn real(self: Arc<Self>) -> Arc<r::Mutex<T>> {
            unsafe { Arc::from_raw(Arc::into_raw(self) as *const r::Mutex<T>) }
        }
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            control::go("lock");
            let guard = self.0.lock().await;
            control::go("locked");
            MutexGuard(Some(guard))
        }
        pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
            control::go("try to lock");
            let guard = self.0.try_lock();
            let _ = match guard.is_some() {
                true => control::go("locked"),
                false => control::give_way(),
            };
            guard.map(|g| MutexGuard(Some(g)))
        }
        pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
            control::go("lock");
            let guard = self.real().lock_owned().await;
            control::go("locked");
            OwnedMutexGuard(Some(guard))
        }
        pub fn try_lock_owned(self: &Arc<Self>) -> Option<OwnedMutexGuard<T>> {
            control::go("try to lock");
            let guard = self.clone().real().try_lock_owned();
            let _ = match guard.is_some() {
                true => control::go("locked"),
                false => control::give_way(),
            };
            guard.map(|g| OwnedMutexGuard(Some(g)))
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.0.get_mut()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            control::go("format");
            self.0.fmt(f)
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }

    pub struct MutexGuard<'a, T: ?Sized>(Option<r::MutexGuard<'a, T>>);
    pub struct OwnedMutexGuard<T: ?Sized>(Option<r::OwnedMutexGuard<T>>);

    impl<'a, T: ?Sized> MutexGuard<'a, T> {
        /// NOTE: No scheduling point where the lock is given back
        pub fn map<U: ?Sized, F>(mut this: Self, f: F) -> MappedMutexGuard<'a, T, U>
        where
            F: FnOnce(&mut T) -> &mut U,
        {
            r::MutexGuard::map(this.0.take().unwrap(), f)
        }
    }

    macro_rules! guard {
        ([$($g:tt)*] $ty:ty) => {
            impl<$($g)* T: ?Sized> Drop for $ty {
                fn drop(&mut self) {
                    if self.0.take().is_some() {
                        control::go("unlocked");
                    }
                }
            }
            impl<$($g)* T: ?Sized> Deref for $ty {
                type Target = T;
                fn deref(&self) -> &T {
                    self.0.as_ref().unwrap()
                }
            }
            impl<$($g)* T: ?Sized> DerefMut for $ty {
                fn deref_mut(&mut self) -> &mut T {
                    self.0.as_mut().unwrap()
                }
            }
            impl<$($g)* T: ?Sized + fmt::Debug> fmt::Debug for $ty {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }
    guard!(['a,] MutexGuard<'a, T>);
    guard!([] OwnedMutexGuard<T>);
}
