pub mod bit_reversing;
pub mod fft;
pub mod ops;
pub mod roots_of_unity;
