pub use ::std::hint::*;
pub fn spin_loop() {
    crate::control::give_way();
    ::std::hint::spin_loop()
}
