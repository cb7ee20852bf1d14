//! The oracles that need internal items are left out when the hook of the
//! repository (`wruster_verif`) does not build.
use crate::Oracle;

pub mod binaries;
pub mod body;
#[cfg(wruster_verif)]
pub mod cancel;
pub mod client;
pub mod conversation;
#[cfg(wruster_verif)]
pub mod cpool;
pub mod files;
pub mod headers;
pub mod io_util;
pub mod logged;
pub mod messages;
pub mod net;
pub mod pem;
#[cfg(not(wruster_verif))]
pub mod plain;
pub mod router;
pub mod server;
pub mod startline;
#[cfg(wruster_verif)]
pub mod streams;
pub mod tables;
pub mod timed;
#[cfg(wruster_verif)]
pub mod workers;

pub fn all() -> Vec<Oracle> {
    let mut v = Vec::new();
    v.extend(router::oracles());
    v.extend(binaries::oracles());
    v.extend(body::oracles());
    v.extend(files::oracles());
    v.extend(headers::oracles());
    v.extend(logged::oracles());
    v.extend(messages::oracles());
    v.extend(pem::oracles());
    #[cfg(not(wruster_verif))]
    v.extend(plain::oracles());
    v.extend(server::oracles());
    v.extend(startline::oracles());
    #[cfg(wruster_verif)]
    v.extend(streams::oracles());
    v.extend(tables::oracles());
    #[cfg(wruster_verif)]
    v.extend(cancel::oracles());
    v.extend(client::oracles());
    v.extend(conversation::oracles());
    #[cfg(wruster_verif)]
    v.extend(cpool::oracles());
    v.extend(timed::oracles());
    #[cfg(wruster_verif)]
    v.extend(workers::oracles());
    v
}
