//! Digests that the checks hand to the code under test.

use std::cell::RefCell;

use digest_10::{FixedOutput, HashMarker, Output, OutputSizeUser, Reset, Update};
use sha2_10::Sha256;

thread_local! {
    static LOG: RefCell<Vec<(Vec<u8>, Vec<u8>)>> = const { RefCell::new(Vec::new()) };
}
/// Runs `f` and returns what the recording digest hashed meanwhile: (input, output).
pub fn recorded<T>(f: impl FnOnce() -> T) -> (T, Vec<(Vec<u8>, Vec<u8>)>) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = f();
    (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}

/// SHA-256 that records.
#[derive(Clone, Default)]
pub struct Rec(Sha256, Vec<u8>);
/// SHA-256 with a prefix.
#[derive(Clone)]
pub struct Salted<const S: u8>(Sha256);
impl<const S: u8> Default for Salted<S> {
    fn default() -> Self {
        let mut h = Sha256::default();
        Update::update(&mut h, &[S, 1, 2, 3]);
        Salted(h)
    }
}

impl HashMarker for Rec {}
impl OutputSizeUser for Rec {
    type OutputSize = <Sha256 as OutputSizeUser>::OutputSize;
}
impl Update for Rec {
    fn update(&mut self, d: &[u8]) {
        self.1.extend_from_slice(d);
        Update::update(&mut self.0, d)
    }
}
impl FixedOutput for Rec {
    fn finalize_into(self, out: &mut Output<Self>) {
        let o = self.0.finalize_fixed();
        LOG.with(|l| l.borrow_mut().push((self.1, o.to_vec())));
        out.copy_from_slice(&o);
    }
}
impl Reset for Rec {
    fn reset(&mut self) {
        *self = Default::default()
    }
}
impl std::io::Write for Rec {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Update::update(self, b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

thread_local! {
    static STOP: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) };
}
/// Runs `f`, which uses the digest [`Stop`], until that has made n outputs, and returns all that it hashed.
pub fn until(n: usize, f: impl FnOnce()) -> Vec<u8> {
    STOP.with(|l| *l.borrow_mut() = (vec![], n));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    STOP.with(|l| std::mem::take(&mut l.borrow_mut().0))
}
/// SHA-256 that ends the computation it is used in after a number of outputs.
#[derive(Clone, Default)]
pub struct Stop(Sha256);
impl HashMarker for Stop {}
impl OutputSizeUser for Stop {
    type OutputSize = <Sha256 as OutputSizeUser>::OutputSize;
}
impl Update for Stop {
    fn update(&mut self, d: &[u8]) {
        STOP.with(|l| l.borrow_mut().0.extend_from_slice(d));
        Update::update(&mut self.0, d)
    }
}
impl FixedOutput for Stop {
    fn finalize_into(self, out: &mut Output<Self>) {
        let last = STOP.with(|l| {
            let mut l = l.borrow_mut();
            l.1 = l.1.saturating_sub(1);
            l.1 == 0
        });
        if last {
            // no message: this is not a failure
            std::panic::resume_unwind(Box::new("stopped"));
        }
        out.copy_from_slice(&self.0.finalize_fixed());
    }
}

impl<const S: u8> HashMarker for Salted<S> {}
impl<const S: u8> OutputSizeUser for Salted<S> {
    type OutputSize = <Sha256 as OutputSizeUser>::OutputSize;
}
impl<const S: u8> Update for Salted<S> {
    fn update(&mut self, d: &[u8]) {
        Update::update(&mut self.0, d)
    }
}
impl<const S: u8> FixedOutput for Salted<S> {
    fn finalize_into(self, out: &mut Output<Self>) {
        out.copy_from_slice(&self.0.finalize_fixed());
    }
}
impl<const S: u8> std::io::Write for Salted<S> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Update::update(self, b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// SHA-256 with a prefix, for the crates that use digest 0.11.
#[derive(Clone)]
pub struct Salted11<const S: u8>(sha2_11::Sha256);
impl<const S: u8> Default for Salted11<S> {
    fn default() -> Self {
        let mut h = sha2_11::Sha256::default();
        digest_11::Update::update(&mut h, &[S, 1, 2, 3]);
        Salted11(h)
    }
}
impl<const S: u8> digest_11::HashMarker for Salted11<S> {}
impl<const S: u8> digest_11::OutputSizeUser for Salted11<S> {
    type OutputSize = <sha2_11::Sha256 as digest_11::OutputSizeUser>::OutputSize;
}
impl<const S: u8> digest_11::Update for Salted11<S> {
    fn update(&mut self, d: &[u8]) {
        digest_11::Update::update(&mut self.0, d)
    }
}
impl<const S: u8> digest_11::FixedOutput for Salted11<S> {
    fn finalize_into(self, out: &mut digest_11::Output<Self>) {
        out.copy_from_slice(&digest_11::FixedOutput::finalize_fixed(self.0));
    }
}

/// Always the same output, so that every challenge is known in advance.
#[derive(Clone, Default)]
pub struct Fixed11;
impl digest_11::HashMarker for Fixed11 {}
impl digest_11::OutputSizeUser for Fixed11 {
    type OutputSize = <sha2_11::Sha256 as digest_11::OutputSizeUser>::OutputSize;
}
impl digest_11::Update for Fixed11 {
    fn update(&mut self, _: &[u8]) {}
}
impl digest_11::FixedOutput for Fixed11 {
    fn finalize_into(self, out: &mut digest_11::Output<Self>) {
        for (i, o) in out.iter_mut().enumerate() {
            *o = (17 * i + 3) as u8;
        }
    }
}

/// The first 20 bytes of SHA-256, as digests shorter than 32 bytes have.
#[derive(Clone, Default)]
pub struct Short(Sha256);
impl HashMarker for Short {}
impl OutputSizeUser for Short {
    type OutputSize = digest_10::consts::U20;
}
impl Update for Short {
    fn update(&mut self, d: &[u8]) {
        Update::update(&mut self.0, d)
    }
}
impl FixedOutput for Short {
    fn finalize_into(self, out: &mut Output<Self>) {
        out.copy_from_slice(&self.0.finalize_fixed()[..20]);
    }
}
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Update::update(self, b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// The same, for the crates that use digest 0.11.
#[derive(Clone, Default)]
pub struct Short11(sha2_11::Sha256);
impl digest_11::HashMarker for Short11 {}
impl digest_11::OutputSizeUser for Short11 {
    type OutputSize = digest_11::consts::U20;
}
impl digest_11::Update for Short11 {
    fn update(&mut self, d: &[u8]) {
        digest_11::Update::update(&mut self.0, d)
    }
}
impl digest_11::FixedOutput for Short11 {
    fn finalize_into(self, out: &mut digest_11::Output<Self>) {
        out.copy_from_slice(&digest_11::FixedOutput::finalize_fixed(self.0)[..20]);
    }
}
