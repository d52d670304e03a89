//! Bounded exhaustive exploration of the real rgeometry code.
//! `engine`  : enumerates finite spaces completely and in parallel, watches for
//!             panics, endless loops and runaway memory, writes evidence/replays.
//! `oracle`  : independent exact geometry on integers (never calls rgeometry).
//! `scalars` : the coordinate types under test and how to build them.
//! `polyenum`: enumeration of simple polygons, point sets and structured families.
//! `polys`   : building polygons from exact cycles and reading them back.
//! `rngs`    : random sources whose every answer the harness decides.
pub mod engine;
pub mod oracle;
pub mod polyenum;
pub mod polys;
pub mod rngs;
pub mod scalars;
pub use engine::*;
