pub use ::std::thread::*;
pub fn yield_now() {
    if !crate::control::give_way() {
        ::std::thread::yield_now()
    }
}
pub fn sleep(d: ::std::time::Duration) {
    if !crate::control::give_way() {
        ::std::thread::sleep(d)
    }
}
