//! The allocator-free configuration: the same driver, queues only.
#[path = "../../harness/src/driver.rs"]
mod driver;
#[path = "../../harness/src/mem.rs"]
#[allow(dead_code)]
mod mem;
mod nqueue;
#[path = "../../harness/src/steps.rs"]
mod steps;
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;
pub use driver::Suite;

#[global_allocator]
static A: mem::Alloc = mem::Alloc;

fn make(suite: &str, prof: &str) -> Box<dyn Suite> {
    match suite {
        "nqueue" => Box::new(nqueue::Queues::new(prof)),
        _ => panic!("unknown suite {suite}"),
    }
}
fn main() { driver::run(make) }
