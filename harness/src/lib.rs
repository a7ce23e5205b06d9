pub mod alloc;
pub mod cborx;
pub mod gen;
pub mod inv;
pub mod live;
pub mod query;
pub mod runner;
pub mod sess;
pub mod store;
pub mod types;
pub mod walk;
pub use runner::{Case, Prop};
pub use sess::{Fail, Res};
pub use cbor_data;
