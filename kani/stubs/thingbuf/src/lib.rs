//! Verification stand-in for the dependency `thingbuf` (an ASSUMED CONTRACT,
//! listed in every evidence file): `mpsc::channel(n)` is a sequential FIFO that
//! holds at most `n` messages; a full channel refuses the message and hands it back.
//! Only used when the real crate is compiled for the verifier, which is sequential.
#![no_std]
extern crate alloc;

pub mod mpsc {
    use alloc::sync::Arc;
    use alloc::vec::Vec;
    use core::cell::UnsafeCell;

    pub mod errors {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct Closed<T = ()>(pub T);
        impl<T> Closed<T> {
            pub fn into_inner(self) -> T {
                self.0
            }
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        #[non_exhaustive]
        pub enum TrySendError<T = ()> {
            Full(T),
            Closed(T),
        }
        impl<T> TrySendError<T> {
            pub fn is_full(&self) -> bool {
                matches!(self, TrySendError::Full(_))
            }
            pub fn is_closed(&self) -> bool {
                matches!(self, TrySendError::Closed(_))
            }
            pub fn into_inner(self) -> T {
                match self {
                    TrySendError::Full(x) => x,
                    TrySendError::Closed(x) => x,
                }
            }
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        #[non_exhaustive]
        pub enum TryRecvError {
            Empty,
            Closed,
        }
    }
    use errors::*;

    struct Shared<T> {
        queue: UnsafeCell<Vec<T>>,
        capacity: usize,
    }
    unsafe impl<T: Send> Send for Shared<T> {}
    unsafe impl<T: Send> Sync for Shared<T> {}

    pub struct Sender<T> {
        shared: Arc<Shared<T>>,
    }
    pub struct Receiver<T> {
        shared: Arc<Shared<T>>,
    }
    impl<T> core::fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("Sender")
        }
    }
    impl<T> core::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("Receiver")
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            Sender { shared: self.shared.clone() }
        }
    }

    pub fn channel<T: Default + Clone>(capacity: usize) -> (Sender<T>, Receiver<T>) {
        assert!(capacity > 0);
        let shared = Arc::new(Shared {
            queue: UnsafeCell::new(Vec::new()),
            capacity,
        });
        (
            Sender { shared: shared.clone() },
            Receiver { shared },
        )
    }

    impl<T: Default + Clone> Sender<T> {
        pub fn try_send(&self, value: T) -> Result<(), TrySendError<T>> {
            let q = unsafe { &mut *self.shared.queue.get() };
            if q.len() >= self.shared.capacity {
                return Err(TrySendError::Full(value));
            }
            q.push(value);
            Ok(())
        }
        pub fn capacity(&self) -> usize {
            self.shared.capacity
        }
        pub fn len(&self) -> usize {
            unsafe { &*self.shared.queue.get() }.len()
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
    }
    impl<T: Default + Clone> Receiver<T> {
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            let q = unsafe { &mut *self.shared.queue.get() };
            if q.is_empty() {
                Err(TryRecvError::Empty)
            } else {
                Ok(q.remove(0))
            }
        }
        pub fn len(&self) -> usize {
            unsafe { &*self.shared.queue.get() }.len()
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
    }
}
