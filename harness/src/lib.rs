pub mod alloc;
pub mod api;
pub mod gen;
pub mod inst;
#[macro_use]
pub mod oracle;
pub mod rng;
#[macro_use]
pub mod run;
pub mod sc;
pub mod walk;
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
pub mod prelude {
    pub use crate::api::*;
    pub use crate::gen;
    pub use crate::oracle::*;
    pub use crate::rng::Rng;
    pub use crate::run::{self, Case};
    pub use crate::sc::*;
    pub use crate::{dispatch, dispatch17, dispatch9, ensure};
    pub use fnntw::utils::FnntwError;
    pub use fnntw::{Node, NotNan, Tree};
}
