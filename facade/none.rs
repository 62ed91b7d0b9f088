// The channels the task runner uses under the checker: the ordinary ones, except in mt.rs.
pub use std::sync::mpsc;

include!("audit.rs");
