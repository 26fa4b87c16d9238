pub mod acts;
pub mod drv;
pub mod gram;
pub mod partial;
pub mod real;
pub mod referr;
pub mod refsem;
pub mod rep;
pub mod rules;
pub mod spaces;
pub mod val;
pub mod whole;
pub mod wide;
pub mod words;
