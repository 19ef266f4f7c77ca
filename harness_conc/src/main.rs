//! Concurrent executions under a chosen schedule, recorded access by access.
mod conc;
mod iconc;
#[path = "../../harness/src/driver.rs"]
mod driver;
mod mem;
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;
pub use driver::Suite;

#[global_allocator]
static A: mem::Alloc = mem::Alloc;

fn make(suite: &str, prof: &str) -> Box<dyn Suite> {
    match suite {
        "conc" => Box::new(conc::Conc::new(prof)),
        "iconc" => Box::new(iconc::IConc::new(prof)),
        _ => panic!("unknown suite {suite}"),
    }
}
fn main() { driver::run(make) }
