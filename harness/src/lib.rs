pub mod latin;
pub mod props;
pub mod spec;
pub mod sym;
pub mod util;
