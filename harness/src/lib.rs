pub mod engine;
pub mod io;
pub mod json;
pub mod sx;
pub mod gen;
pub mod oracle;
pub mod tb;
pub mod scen;
