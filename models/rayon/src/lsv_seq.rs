//! LSV model: every task runs on the calling thread. How a parallel iterator is split into tasks is a
//! nondeterministic choice of the checking engine (see `iter::plumbing::Splitter`).
use std::marker::PhantomData;

/// context of a task
#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
}
impl FnContext {
    /// true if the task was stolen
    #[inline]
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}
/// runs both closures, the first one first
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    let x = a();
    let y = b();
    (x, y)
}
/// runs both closures, the first one first
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let x = a(FnContext { migrated: false });
    let y = b(FnContext { migrated: false });
    (x, y)
}
/// the modelled pool size
pub fn current_num_threads() -> usize {
    4
}
/// the modelled thread index
pub fn current_thread_index() -> Option<usize> {
    None
}
/// runs the task at once
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
/// a scope whose tasks run at once
#[derive(Debug)]
pub struct Scope<'scope> {
    m: PhantomData<&'scope ()>,
}
impl<'scope> Scope<'scope> {
    /// runs the task at once
    pub fn spawn<F: FnOnce(&Scope<'scope>) + Send + 'scope>(&self, f: F) {
        f(self)
    }
}
/// runs the closure with a sequential scope
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    op(&Scope { m: PhantomData })
}
/// runs the closure with a sequential scope
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    op(&Scope { m: PhantomData })
}
