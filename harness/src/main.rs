#![feature(core_io_borrowed_buf)]
mod intern;
mod driver;
mod mem;
mod steps;
mod util;
mod pool;
mod queue;
mod q_cmp;
mod q_eco;
mod q_find;
mod q_nom;
mod query;


pub use driver::Suite;

#[global_allocator]
static A: mem::Alloc = mem::Alloc;

fn make(suite: &str, prof: &str) -> Box<dyn Suite> {
    match suite {
        "pool" => Box::new(pool::Pool::new(prof)),
        "queue" => Box::new(queue::Queues::new(prof)),
        "intern" => Box::new(intern::Intern::new(prof)),
        "query" => Box::new(query::Query::new(prof)),
        _ => panic!("unknown suite {suite}"),
    }
}

fn main() { driver::run(make) }
