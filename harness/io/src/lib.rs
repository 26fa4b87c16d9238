pub mod bufr;
pub mod big;
pub mod dec;
pub mod script;
