//! Thread-local hook through which the environment models (hash seeds, work splitting) ask the
//! checking engine for a nondeterministic choice.
use std::cell::RefCell;

type Hook = Box<dyn FnMut(&'static str, u32) -> u32>;
thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}
/// install (or remove) the chooser of this thread
pub fn set_hook(h: Option<Hook>) {
    HOOK.with(|x| *x.borrow_mut() = h);
}
/// a value in 0..n; 0 without a hook
pub fn choose(what: &'static str, n: u32) -> u32 {
    let taken = HOOK.with(|x| x.borrow_mut().take());
    match taken {
        None => 0,
        Some(mut h) => {
            struct Put(Option<Hook>);
            impl Drop for Put {
                fn drop(&mut self) {
                    let h = self.0.take();
                    HOOK.with(|x| *x.borrow_mut() = h);
                }
            }
            let mut p = Put(None);
            let r = h(what, n);
            p.0 = Some(h);
            r
        }
    }
}
