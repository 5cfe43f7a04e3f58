pub mod soup;
pub mod words;
