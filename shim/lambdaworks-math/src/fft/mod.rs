pub mod cpu;
pub mod errors;
pub mod polynomial;
