pub mod abi;
pub mod encoding;
pub mod tables;
pub mod init;
pub mod history;
pub mod values;
pub mod threads;
