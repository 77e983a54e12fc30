pub mod decode;
pub mod gen;
pub mod tables;
pub mod text;
pub mod types;
