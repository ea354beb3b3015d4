//! Stand-in for the sha2 crate: `Sha256` records what is hashed and returns a digest chosen by the
//! harness (an uninterpreted function of the recorded input).
use std::cell::RefCell;
thread_local! {
    static DIGEST: RefCell<[u8; 32]> = const { RefCell::new([0; 32]) };
    static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
}
pub fn vp_set_digest(d: [u8; 32]) {
    DIGEST.with(|x| *x.borrow_mut() = d);
    LOG.with(|x| x.borrow_mut().clear());
}
/// Everything hashed to a finalized digest since `vp_set_digest`, one entry per digest.
pub fn vp_take_log() -> Vec<Vec<u8>> {
    LOG.with(|x| std::mem::take(&mut *x.borrow_mut()))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Output(pub [u8; 32]);
impl Output {
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}
impl std::ops::Deref for Output {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for Output {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<Output> for [u8; 32] {
    fn from(o: Output) -> [u8; 32] {
        o.0
    }
}
impl IntoIterator for Output {
    type Item = u8;
    type IntoIter = std::array::IntoIter<u8, 32>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}

pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn finalize(self) -> Output;
    fn new_with_prefix(data: impl AsRef<[u8]>) -> Self {
        let mut s = Self::new();
        s.update(data);
        s
    }
    fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self {
        self.update(data);
        self
    }
    fn digest(data: impl AsRef<[u8]>) -> Output {
        let mut s = Self::new();
        s.update(data);
        s.finalize()
    }
    fn reset(&mut self) {
        *self = Self::new();
    }
    fn finalize_reset(&mut self) -> Output {
        std::mem::replace(self, Self::new()).finalize()
    }
}
macro_rules! hasher {
    ($n:ident) => {
        #[derive(Clone, Debug, Default)]
        pub struct $n(Vec<u8>);
        impl Digest for $n {
            fn new() -> Self {
                $n(Vec::new())
            }
            fn update(&mut self, data: impl AsRef<[u8]>) {
                self.0.extend_from_slice(data.as_ref());
            }
            fn finalize(self) -> Output {
                let mut tag = DIGEST.with(|x| *x.borrow());
                if stringify!($n) != "Sha256" {
                    // a different hash function: a different digest
                    for b in tag.iter_mut() {
                        *b ^= 0xa5;
                    }
                }
                LOG.with(|x| x.borrow_mut().push(self.0));
                Output(tag)
            }
        }
    };
}
hasher!(Sha256);
hasher!(Sha224);
hasher!(Sha384);
hasher!(Sha512);
hasher!(Sha512_256);
