pub mod corpus;
pub mod dbg;
pub mod gen;
pub mod model;
pub mod refdec;
pub mod run;
pub mod plan;
pub mod scale;
