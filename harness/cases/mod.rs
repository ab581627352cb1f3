pub mod util;
pub mod field;
pub mod ext;
pub mod bytes;
pub mod curves;
pub mod edw;
pub mod maps;
pub mod machine;
